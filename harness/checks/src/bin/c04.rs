use checks::ix::Carrier;
use checks::*;
use std::collections::{BTreeMap, HashMap, HashSet};

mod large {
	use super::*;
	carrier!(M, indexed_map, BTreeMap<u32, u16>, false, optimised);
	carrier!(Q, indexed_seq, Vec<u32>, true, optimised, indexed_struct);
	carrier!(S, indexed_set, HashSet<u32>, false, optimised);
	carrier!(N, indexed_map, HashMap<u32, Vec<u8>>, true, optimised, indexed_struct);
	carrier!(L, indexed_seq, Vec<String>, false, optimised);
}

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	macro_rules! add {
		($($t:ty);* $(;)?) => { $(
			cs.add(format!("skip {}", tname::<$t>()), 1.0, generic::skip::<$t>);
			cs.add(format!("skip_corrupt {}", tname::<$t>()), 1.0, generic::skip_corrupt::<$t>);
		)* };
	}
	builtin_types!(add);
	subjects::indexed_types!(add);
	macro_rules! fields {
		($t:ident, $f:expr) => {
			cs.add(concat!("skip field small ", stringify!($t)), 1.0, |s, c| {
				ix::skip_field::<large::$t>(ix::gen_items::<<large::$t as Carrier>::C>(s), s, c)
			});
			cs.add(concat!("skip field large ", stringify!($t)), 0.1, |s, c| {
				let i = ix::distinct::<<large::$t as Carrier>::C>(ix::several(s, $f));
				ix::skip_field::<large::$t>(i, s, c)
			});
			cs.add(concat!("skip field huge ", stringify!($t)), 0.01, |s, c| {
				let i = ix::distinct::<<large::$t as Carrier>::C>(ix::many(s, $f));
				ix::skip_field::<large::$t>(i, s, c)
			});
		};
	}
	fields!(M, |x| (x, x as u16));
	fields!(Q, |x| x);
	fields!(S, |x| x);
	fields!(N, |x| (x, vec![x as u8; (x % 5) as usize]));
	fields!(L, |x| "é".repeat((x % 7) as usize));
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C04", |_| cases())
}

//! C19: a smaller set of cases, interpreted by Miri.
use checks::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::sync::Arc;

#[path = "c07.rs"]
mod c07;
#[path = "c08.rs"]
mod c08;
#[path = "c14.rs"]
mod c14;

fn main() {
	engine::main("C19", |_| {
		let mut cs = Cases::new();
		macro_rules! add {
			($($t:ty);* $(;)?) => { $(
				cs.add(format!("round trip {}", tname::<$t>()), 1.0, generic::round_trip::<$t>);
				cs.add(format!("skip {}", tname::<$t>()), 0.5, generic::skip::<$t>);
				cs.add(format!("corrupted {}", tname::<$t>()), 1.0, generic::corrupted::<$t>);
				cs.add(format!("chunked {}", tname::<$t>()), 0.5, io::chunked::<$t>);
				cs.add(format!("odd streams {}", tname::<$t>()), 1.0, hostile::streams::<$t>);
			)* };
		}
		macro_rules! walk {
			($($t:ty);* $(;)?) => { $(
				cs.add(format!("walk {}", tname::<$t>()), 1.0, |s, c| walks::walk::<$t>(true, s, c));
				cs.add(format!("walk corrupted {}", tname::<$t>()), 1.0, walks::corrupted::<$t>);
			)* };
		}
		add!(
			Vec<u8>; Vec<i8>; Vec<bool>; Vec<u16>; Vec<i16>; Vec<u32>; Vec<i32>; Vec<u64>; Vec<i64>;
			Vec<u128>; Vec<i128>; Vec<f32>; Vec<f64>; Vec<char>; Vec<String>; Vec<Vec<i8>>; Vec<(u8, bool)>;
			[u8; 5]; String; Arc<str>; Box<str>; Option<Vec<u64>>; Result<Vec<bool>, Vec<i8>>;
			BTreeMap<u16, String>; BTreeSet<u32>; HashMap<u8, Vec<u16>>; HashSet<String>; BinaryHeap<i16>;
		);
		walk!(
			Vec<u8>; Vec<u64>; Vec<String>; String; Option<Vec<u64>>; Result<String, Vec<u16>>;
			BTreeMap<u16, String>; BTreeSet<u32>; HashMap<String, Vec<u8>>; Vec<Vec<String>>;
			BTreeMap<Vec<i8>, Arc<str>>;
		);
		#[cfg(feature = "third")]
		{
			use subjects::ext::*;
			add!(Vec<Uuid>; Vec<Decimal>; Vector<i8>; OrdMap<u8, String>; OrdSet<u16>; IHashMap<u8, bool>; IHashSet<u32>);
		}
		cs.add("odd elements", 20.0, hostile::elements);
		cs.add("lookup map", 8.0, c07::lookup_some_map);
		cs.add("lookup sequence", 8.0, c07::lookup_some_seq);
		cs.add("struct", 4.0, c07::strukt);
		cs.add("map payload", 8.0, c08::payload_map);
		cs.add("sequence payload", 8.0, c08::payload_seq);
		cs.add("struct payload", 8.0, c08::payload_struct);
		cs.add("indexed struct", 8.0, c08::record_corrupt);
		cs.add("optimised enum", 8.0, c08::choice_corrupt);
		cs.merge("C14", 30.0, c14::cases());
		cs
	})
}

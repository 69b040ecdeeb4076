//! C13: walks with illegal requests through encoded containers.
use checks::*;
use subjects::walkable_types;
use std::sync::Arc as A;

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	macro_rules! add {
		($($t:ty);* $(;)?) => { $(
			cs.add(format!("walk {}", tname::<$t>()), 1.0, |s, c| walks::walk::<$t>(true, s, c));
		)* };
	}
	walkable_types!(add);
	add!(
		Vec<Box<str>>; Vec<A<str>>; Vec<PathBuf>; Vec<Vec<i8>>; BTreeSet<PathBuf>; Option<Vec<u8>>;
		BTreeMap<PathBuf, String>; BTreeMap<Vec<i8>, A<str>>; HashMap<Box<str>, Vec<u8>>;
		BTreeMap<A<str>, PathBuf>; Vec<Vec<String>>; BTreeMap<String, BTreeMap<String, Vec<Option<String>>>>;
		Result<BTreeMap<String, String>, Vec<String>>; Option<Result<Vec<Vec<char>>, HashSet<String>>>;
		Vec<Cow<'static, String>>; BTreeMap<Cow<'static, String>, Box<BTreeSet<String>>>
	);
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C13", |_| cases())
}

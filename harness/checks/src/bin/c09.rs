use checks::*;
use std::sync::Arc as A;
use subjects::walkable_types;

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	macro_rules! add {
		($($t:ty);* $(;)?) => { $(
			cs.add(format!("prefix {}", tname::<$t>()), 0.6, generic::prefix::<$t>);
			cs.add(format!("corrupted {}", tname::<$t>()), 1.0, generic::corrupted::<$t>);
		)* };
	}
	{
		builtin_types!(add);
		subjects::indexed_types!(add);
	}
	macro_rules! walk {
		($($t:ty);* $(;)?) => { $(
			cs.add(format!("walk corrupted {}", tname::<$t>()), 0.7, walks::corrupted::<$t>);
		)* };
	}
	walkable_types!(walk);
	walk!(
		Vec<Box<str>>; Vec<A<str>>; Vec<PathBuf>; Vec<Vec<i8>>; BTreeSet<PathBuf>; Option<Vec<u8>>;
		BTreeMap<PathBuf, String>; BTreeMap<Vec<i8>, A<str>>; HashMap<Box<str>, Vec<u8>>;
		BTreeMap<A<str>, PathBuf>; Vec<Vec<String>>; BTreeMap<String, BTreeMap<String, Vec<Option<String>>>>;
		Result<BTreeMap<String, String>, Vec<String>>; Option<Result<Vec<Vec<char>>, HashSet<String>>>;
		Vec<Cow<'static, String>>; BTreeMap<Cow<'static, String>, Box<BTreeSet<String>>>
	);
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C09", |_| cases())
}

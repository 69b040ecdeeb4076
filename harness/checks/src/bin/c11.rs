use checks::*;

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	macro_rules! add {
		($($t:ty);* $(;)?) => { $( cs.add(tname::<$t>(), 1.0, io::chunked::<$t>); )* };
	}
	builtin_types!(add);
	subjects::indexed_types!(add);
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C11", |_| cases())
}

//! C11 over generated declarations.
use checks::*;

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	macro_rules! m_latest_types {
		($t:ty) => {
			cs.add(format!("chunked {}", derive::iname::<$t>()), 1.0, io::chunked::<$t>);
		};
	}
	derived::latest_types!(m_latest_types);
	macro_rules! m_migrations {
		($o:ty => $l:ty) => {
			cs.add(format!("chunked old {}", derive::iname::<$o>()), 0.7, derive::chunked_old::<$o, $l>);
		};
	}
	derived::migrations!(m_migrations);
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C11", |_| cases())
}

//! C13 over generated declarations.
use checks::*;

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	macro_rules! m_latest_types {
		($t:ty) => {
			cs.add(format!("misuse {}", derive::iname::<$t>()), 1.0, |s, c| derive::walk_latest::<$t>(true, s, c));
		};
	}
	derived::latest_types!(m_latest_types);
	macro_rules! m_migrations {
		($o:ty => $l:ty) => {
			cs.add(format!("misuse old {}", derive::iname::<$o>()), 1.0, |s, c| derive::walk_old::<$o, $l>(true, s, c));
		};
	}
	derived::migrations!(m_migrations);
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C13", |_| cases())
}

//! C04 over generated declarations.
use checks::*;

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	macro_rules! m_latest_types {
		($t:ty) => {
			cs.add(format!("skip {}", derive::iname::<$t>()), 1.0, generic::skip::<$t>);
			cs.add(format!("skip check {}", derive::iname::<$t>()), 1.0, derive::skip_check_latest::<$t>);
		};
	}
	derived::latest_types!(m_latest_types);
	macro_rules! m_migrations {
		($o:ty => $l:ty) => {
			cs.add(format!("skip old {}", derive::iname::<$o>()), 1.0, derive::skips_old::<$o, $l>);
			cs.add(format!("skip check old {}", derive::iname::<$o>()), 1.0, derive::skip_check_old::<$o, $l>);
		};
	}
	derived::migrations!(m_migrations);
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C04", |_| cases())
}

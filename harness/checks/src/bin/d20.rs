//! C20 over generated declarations.
use checks::*;

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	macro_rules! m_latest_types {
		($t:ty) => {
			cs.add(format!("walked {}", derive::iname::<$t>()), 1.0, |s, c| derive::walk_frugal::<$t>(s, c));
			cs.add(format!("skipped {}", derive::iname::<$t>()), 0.3, walks::skip_frugal::<$t>);
		};
	}
	derived::latest_types!(m_latest_types);
	macro_rules! m_migrations {
		($o:ty => $l:ty) => {
			cs.add(format!("walked old {}", derive::iname::<$o>()), 1.0, |s, c| derive::walk_old_frugal::<$o, $l>(s, c));
		};
	}
	derived::migrations!(m_migrations);
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C20", |_| cases())
}

//! C21 over generated declarations.
use checks::*;

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	macro_rules! m_latest_types {
		($t:ty) => {
			cs.add(format!("faults {}", derive::iname::<$t>()), 1.0, errors::faults::<$t>);
			cs.add(format!("agree {}", derive::iname::<$t>()), 1.0, errors::agree::<$t>);
		};
	}
	derived::latest_types!(m_latest_types);
	macro_rules! m_migrations {
		($o:ty => $l:ty) => {
			cs.add(format!("faults old {}", derive::iname::<$o>()), 0.7, derive::faults_old::<$o, $l>);
		};
	}
	derived::migrations!(m_migrations);
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C21", |_| cases())
}

//! C08 over generated declarations.
use checks::*;

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	macro_rules! m_latest_types {
		($t:ty) => {
			cs.add(format!("prefix {}", derive::iname::<$t>()), 0.6, generic::prefix::<$t>);
			cs.add(format!("corrupted {}", derive::iname::<$t>()), 1.0, generic::corrupted::<$t>);
			cs.add(format!("walk corrupted {}", derive::iname::<$t>()), 0.7, walks::corrupted::<$t>);
		};
	}
	derived::latest_types!(m_latest_types);
	macro_rules! m_migrations {
		($o:ty => $l:ty) => {
			cs.add(format!("prefix of old {}", derive::iname::<$o>()), 0.6, derive::prefix_old::<$o, $l>);
			cs.add(format!("corrupted old {}", derive::iname::<$o>()), 1.0, derive::corrupted_old::<$o, $l>);
			cs.add(format!("walk corrupted old {}", derive::iname::<$o>()), 0.7, derive::walk_corrupted_old::<$o, $l>);
		};
	}
	derived::migrations!(m_migrations);
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C08", |_| cases())
}

//! C03 over generated declarations.
use checks::*;

fn main() {
	engine::main("C03", |_| {
		let mut cs = Cases::new();
		macro_rules! m_latest_types {
			($t:ty) => {
				cs.add(format!("bad revision {}", derive::iname::<$t>()), 0.3, derive::bad_revision::<$t>);
			};
		}
		derived::latest_types!(m_latest_types);
		macro_rules! m_migrations {
			($o:ty => $l:ty) => {
				cs.add(format!("migrate {}", derive::iname::<$o>()), 1.0, derive::migrates::<$o, $l>);
				cs.add(format!("migrate in containers {}", derive::iname::<$o>()), 0.4, derive::migrates_in::<$o, $l>);
			};
		}
		derived::migrations!(m_migrations);
		cs
	})
}

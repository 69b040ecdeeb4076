//! C05 over generated declarations.
use checks::*;

fn main() {
	engine::main("C05", |_| {
		let mut cs = Cases::new();
		macro_rules! m_latest_types {
			($t:ty) => {
				cs.add(format!("walk {}", derive::iname::<$t>()), 1.0, |s, c| derive::walk_latest::<$t>(false, s, c));
				cs.add(format!("tables {}", derive::iname::<$t>()), 0.01, derive::tables::<$t>);
			};
		}
		derived::latest_types!(m_latest_types);
		macro_rules! m_migrations {
			($o:ty => $l:ty) => {
				cs.add(format!("walk old {}", derive::iname::<$o>()), 1.0, |s, c| derive::walk_old::<$o, $l>(false, s, c));
				cs.add(format!("walk containers of old {}", derive::iname::<$o>()), 0.5, |s, c| derive::walk_old_in::<$o, $l>(false, s, c));
			};
		}
		derived::migrations!(m_migrations);
		cs
	})
}

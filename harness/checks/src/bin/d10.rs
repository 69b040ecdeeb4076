//! C10 over generated declarations.
use checks::*;

fn main() {
	engine::main("C10", |_| {
		let mut cs = Cases::new();
		macro_rules! m_latest_types {
			($t:ty) => {
				cs.add(format!("wide {}", derive::iname::<$t>()), 1.0, generic::wide::<$t>);
			};
		}
		derived::latest_types!(m_latest_types);
		macro_rules! m_migrations {
			($o:ty => $l:ty) => {
				cs.add(format!("wide old {}", derive::iname::<$o>()), 1.0, derive::wide_old::<$o, $l>);
			};
		}
		derived::migrations!(m_migrations);
		cs
	})
}

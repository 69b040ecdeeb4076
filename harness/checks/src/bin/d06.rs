//! C06 over generated declarations.
use checks::*;

fn main() {
	engine::main("C06", |_| {
		let mut cs = Cases::new();
		macro_rules! m_latest_types {
			($t:ty) => {
				cs.add(format!("wire {}", derive::iname::<$t>()), 1.0, generic::wire::<$t>);
			};
		}
		derived::latest_types!(m_latest_types);
		macro_rules! m_migrations {
			($o:ty => $l:ty) => {
				cs.add(format!("wire {}", derive::iname::<$o>()), 0.7, generic::wire::<$o>);
			};
		}
		derived::migrations!(m_migrations);
		cs
	})
}

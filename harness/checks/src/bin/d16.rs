//! C16 over generated declarations.
use checks::*;

fn main() {
	engine::main("C16", |_| {
		let mut cs = Cases::new();
		macro_rules! m_enum_types {
			($t:ty) => {
				cs.add(format!("tags {}", derive::iname::<$t>()), 1.0, derive::tags::<$t>);
				cs.add(format!("all tags {}", derive::iname::<$t>()), 0.02, derive::all_tags::<$t>);
				cs.add(format!("own tag {}", derive::iname::<$t>()), 1.0, derive::own_tag::<$t>);
			};
		}
		derived::enum_types!(m_enum_types);
		macro_rules! m_enum_migrations {
			($o:ty => $l:ty) => {
				cs.add(format!("own tag {}", derive::iname::<$o>()), 0.6, derive::own_tag::<$o>);
			};
		}
		derived::enum_migrations!(m_enum_migrations);
		cs
	})
}

//! C02 over generated declarations.
use checks::*;

fn main() {
	engine::main("C02", |_| {
		let mut cs = Cases::new();
		macro_rules! m_latest_types {
			($t:ty) => {
				cs.add(format!("round trip {}", derive::iname::<$t>()), 1.0, generic::round_trip::<$t>);
				cs.add(format!("header {}", derive::iname::<$t>()), 0.3, derive::header::<$t>);
				cs.add(format!("nested {}", derive::iname::<$t>()), 0.5, generic::round_trip::<(Vec<$t>, Option<$t>, Result<Box<$t>, u8>)>);
			};
		}
		derived::latest_types!(m_latest_types);
		macro_rules! m_migrations {
			($o:ty => $l:ty) => {
				cs.add(format!("round trip {}", derive::iname::<$o>()), 0.6, generic::round_trip::<$o>);
				cs.add(format!("header {}", derive::iname::<$o>()), 0.2, derive::header::<$o>);
			};
		}
		derived::migrations!(m_migrations);
		cs
	})
}

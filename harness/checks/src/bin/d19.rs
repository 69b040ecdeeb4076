//! C19 over generated declarations, under AddressSanitizer.
use checks::*;

#[path = "d04.rs"]
mod d04;
#[path = "d08.rs"]
mod d08;
#[path = "d11.rs"]
mod d11;
#[path = "d13.rs"]
mod d13;

fn main() {
	engine::main("C19", |_| {
		let mut cs = Cases::new();
		macro_rules! m_latest_types {
			($t:ty) => {
				cs.add(format!("odd streams {}", derive::iname::<$t>()), 1.0, hostile::streams::<$t>);
			};
		}
		derived::latest_types!(m_latest_types);
		cs.merge("C04", 1.0, d04::cases());
		cs.merge("C08", 1.0, d08::cases());
		cs.merge("C11", 0.5, d11::cases());
		cs.merge("C13", 2.0, d13::cases());
		cs
	})
}

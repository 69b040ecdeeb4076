//! C19: the cases of other properties, run under AddressSanitizer, which is
//! the only judge here.
use checks::*;

#[path = "c04.rs"]
mod c04;
#[path = "c07.rs"]
mod c07;
#[path = "c08.rs"]
mod c08;
#[path = "c09.rs"]
mod c09;
#[path = "c11.rs"]
mod c11;
#[path = "c13.rs"]
mod c13;
#[path = "c14.rs"]
mod c14;

fn main() {
	engine::main("C19", |_| {
		let mut cs = Cases::new();
		macro_rules! add {
			($($t:ty);* $(;)?) => { $(
				cs.add(format!("odd streams {}", tname::<$t>()), 1.0, hostile::streams::<$t>);
			)* };
		}
		builtin_types!(add);
		cs.add("odd elements", 100.0, hostile::elements);
		cs.merge("C04", 1.0, c04::cases());
		cs.merge("C07", 2.0, c07::cases());
		cs.merge("C08", 4.0, c08::cases());
		cs.merge("C09", 1.0, c09::cases());
		cs.merge("C11", 0.5, c11::cases());
		cs.merge("C13", 2.0, c13::cases());
		cs.merge("C14", 200.0, c14::cases());
		cs
	})
}

use checks::*;

fn main() {
	engine::main("C06", |_| {
		let mut cs = Cases::new();
		macro_rules! add {
			($($t:ty);* $(;)?) => { $(
				cs.add(format!("wire {}", tname::<$t>()), 1.0, generic::wire::<$t>);
			)* };
		}
		builtin_types!(add);
		subjects::indexed_types!(add);
		cs
	})
}

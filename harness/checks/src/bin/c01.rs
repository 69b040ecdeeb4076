//! C01: built-in types round-trip and are self-delimiting.
use checks::*;

fn main() {
	engine::main("C01", |_| {
		let mut cs = Cases::new();
		macro_rules! add {
			($($t:ty);* $(;)?) => { $( cs.add(tname::<$t>(), 1.0, generic::round_trip::<$t>); )* };
		}
		builtin_types!(add);
		subjects::indexed_types!(add);
		// The unit type has no skip, and encodes to nothing.
		cs.add("()", 0.01, |s, c| {
			let junk = tail(s);
			c.nontrivial = true;
			let b = revision::to_vec(&()).map_err(|e| Fail::new(e.to_string()))?;
			ensure!(b.is_empty(), "() encodes to {}", hex(&b));
			let mut r = &junk[..];
			let _: () = revision::from_reader(&mut r).map_err(|e| Fail::new(e.to_string()))?;
			ensure!(r.len() == junk.len(), "() consumed input");
			Ok(())
		});
		cs
	})
}

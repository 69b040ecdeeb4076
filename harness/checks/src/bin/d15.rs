//! C15 over generated declarations.
use checks::*;
use revision::{revisioned, to_vec};
use subjects::derive::{Raw, piece};

/// Overrides in optimised types, which the macro is known to ignore.
#[revisioned(revision(1, optimised))]
#[derive(Clone, PartialEq, Debug)]
struct FixedStruct {
	#[revision(fixed)]
	a: i64,
}
#[revisioned(revision(1, optimised))]
#[derive(Clone, PartialEq, Debug)]
struct BulkStruct {
	#[revision(specialised)]
	a: Vec<i64>,
}
#[revisioned(revision(1, optimised))]
#[derive(Clone, PartialEq, Debug)]
enum FixedEnum {
	#[revision(size = "varlen")]
	A {
		#[revision(fixed)]
		a: i64,
	},
}
#[revisioned(revision(1, optimised))]
#[derive(Clone, PartialEq, Debug)]
enum BulkEnum {
	#[revision(size = "varlen")]
	A {
		#[revision(specialised)]
		a: Vec<i64>,
	},
}

fn ignored<T, F>(what: &str, sig: &str, make: impl Fn(F) -> T, s: &mut Src, c: &mut Ctx) -> Res
where
	T: SerializeRevisioned + DeserializeRevisioned + PartialEq + std::fmt::Debug,
	F: Subject + Raw,
{
	let f = F::gen_(s, 0);
	let layout = |body: Vec<u8>| {
		let mut o = piece(|o| refenc::uint(1, 2, o));
		if what == "enum" {
			o.push(0x40);
		}
		[o, (body.len() as u32).to_le_bytes().to_vec(), body].concat()
	};
	let (want, plain) = (layout(f.raw()), layout(piece(|o| f.emit(o, false))));
	let v = make(f);
	c.key(&want);
	c.nontrivial = want.len() >= 6;
	let got = match to_vec(&v) {
		Ok(g) => g,
		Err(e) => fail!("to_vec({v:?}) failed: {e}"),
	};
	let mut r: &[u8] = &got;
	let back = T::deserialize_revisioned(&mut r);
	ensure!(r.is_empty() && back.as_ref().ok() == Some(&v), "{v:?} encodes as {} and comes back as {}", hex(&got), err_text(&back));
	if got != want {
		let f = Fail::new(format!("{v:?} encodes as {} instead of {}", hex(&got), hex(&want)));
		return Err(if got == plain { f.sig(sig) } else { f });
	}
	Ok(())
}

fn main() {
	engine::main("C15", |_| {
		let mut cs = Cases::new();
		cs.add("fixed in an optimised struct", 1.0, |s, c| ignored("struct", "optimised-ignores-fixed", |a| FixedStruct { a }, s, c));
		cs.add("fixed in an optimised enum", 1.0, |s, c| ignored("enum", "optimised-ignores-fixed", |a| FixedEnum::A { a }, s, c));
		cs.add("specialised in an optimised struct", 1.0, |s, c| {
			ignored("struct", "optimised-ignores-specialised", |a| BulkStruct { a }, s, c)
		});
		cs.add("specialised in an optimised enum", 1.0, |s, c| {
			ignored("enum", "optimised-ignores-specialised", |a| BulkEnum::A { a }, s, c)
		});
		macro_rules! m_raw_latest {
			($t:ty) => {
				cs.add(format!("latest {}", derive::iname::<$t>()), 1.0, derive::overridden::<$t>);
			};
		}
		derived::raw_latest!(m_raw_latest);
		macro_rules! m_raw_migrations {
			($o:ty => $l:ty) => {
				cs.add(format!("old {}", derive::iname::<$o>()), 1.0, derive::overridden_old::<$o, $l>);
			};
		}
		derived::raw_migrations!(m_raw_migrations);
		cs
	})
}

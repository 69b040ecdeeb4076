//! C18: equal indexed collections encode alike.
use checks::ix::{Carrier, Coll, Kind};
use checks::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

ix_collections!(ix_decl);

struct Group<I> {
	a: u32,
	z: String,
	items: Vec<I>,
	want: Vec<u8>,
	content: Vec<(Vec<u8>, Vec<u8>)>,
}

fn group<C: Coll>(s: &mut Src, cx: &mut Ctx) -> Group<C::Item> {
	let a = s.uint(32) as u32;
	let z: String = String::gen_(s, 3);
	let items = ix::gen_items::<C>(s);
	group_of::<C>(a, z, items, cx)
}

fn group_of<C: Coll>(a: u32, z: String, items: Vec<C::Item>, cx: &mut Ctx) -> Group<C::Item> {
	let want = ix::reference::<C>(&items);
	let mut content: Vec<_> = items.iter().map(C::bytes).collect();
	if C::KIND != Kind::Seq {
		content.sort();
	}
	let n = items.len();
	cx.key(&want);
	cx.nontrivial = n >= 2;
	cx.label(if n >= ix_threshold() { "offset table" } else { "plain body" });
	cx.label_if(n == ix_threshold() || n + 1 == ix_threshold(), "at the threshold");
	cx.sample(|| format!("{} n={n} {}", tname::<C>(), hex(&want)));
	Group { a, z, items, want, content }
}

fn ix_threshold() -> usize {
	refenc::THRESHOLD
}

/// Encode in some number of histories; returns the last whole encoding.
fn encodings<T: Carrier>(g: &Group<<T::C as Coll>::Item>, s: &mut Src, cx: &mut Ctx) -> Result<Vec<u8>, Fail> {
	let mut last: Option<Vec<u8>> = None;
	for k in 0..3 {
		cx.evals += 1;
		let c = if k == 0 { T::C::build(&g.items) } else { T::C::history(&g.items, s) };
		if c.content() != g.content {
			fail!("the harness built another {} than it meant to", tname::<T::C>());
		}
		let (enc, p, v) = ix::encode::<T>(g.a, c, &g.z)?;
		ensure!(
			p == g.want,
			"{} with {} entries (history {k}) encodes its field as {} instead of {}",
			tname::<T::C>(),
			g.items.len(),
			hex(&p),
			hex(&g.want)
		);
		if let Some(l) = &last {
			ensure!(*l == enc, "{}: equal records encode as {} and {}", tname::<T::C>(), hex(l), hex(&enc));
		}
		// a decoded and re-encoded one, and a clone, are two more histories
		let c2 = v.parts().1.clone();
		let (e2, _, _) = ix::encode::<T>(g.a, c2, &g.z)?;
		ensure!(e2 == enc, "{}: a clone encodes as {} instead of {}", tname::<T::C>(), hex(&e2), hex(&enc));
		last = Some(enc);
	}
	Ok(last.unwrap())
}

fn decodes<T: Carrier>(g: &Group<<T::C as Coll>::Item>, enc: &[u8], from: &str, cx: &mut Ctx) -> Res {
	cx.evals += 1;
	let what = format!("{} decoded from the encoding of {from}", tname::<T::C>());
	let v = match no_panic(|| revision::from_slice::<T>(enc)) {
		Ok(Ok(v)) => v,
		Ok(Err(e)) => fail!("{what} failed: {e}: {}", hex(enc)),
		Err(p) => fail!("{what} panicked: {p}: {}", hex(enc)),
	};
	let (a, c, z) = v.parts();
	ensure!(a == g.a && z == g.z, "{what}: the neighbouring fields are {a} {z:?}: {}", hex(enc));
	ensure!(c.content() == g.content, "{what} has {:02x?} instead of {:02x?}", c.content(), g.content);
	let again = match revision::to_vec(&v) {
		Ok(b) => b,
		Err(e) => fail!("{what}: encoding again failed: {e}"),
	};
	ensure!(again == enc, "{what} encodes again as {} instead of {}", hex(&again), hex(enc));
	Ok(())
}

/// All carriers of one collection content: `seq` ones, and the one with an
/// offset table of its own.
macro_rules! family {
	($f:ident, $id:ident, $first:ident [$($seq:ident)*] [$($third:ident)*] $own:ident) => {
		fn $f(s: &mut Src, cx: &mut Ctx) -> Res {
			use $id::*;
			let g = group::<<$first as Carrier>::C>(s, cx);
			family!(@all $first [$($seq)*] [$($third)*] $own g s cx)
		}
	};
	(@large $f:ident, $id:ident, $first:ident [$($seq:ident)*] [$($third:ident)*] $own:ident, $item:expr) => {
		fn $f(s: &mut Src, cx: &mut Ctx) -> Res {
			use $id::*;
			let items = if s.chance(1, 8) { ix::many(s, $item) } else { ix::several(s, $item) };
			let items = ix::distinct::<<$first as Carrier>::C>(items);
			let g = group_of::<<$first as Carrier>::C>(s.uint(32) as u32, "z".into(), items, cx);
			family!(@all $first [$($seq)*] [$($third)*] $own g s cx)
		}
	};
	(@all $first:ident [$($seq:ident)*] [$($third:ident)*] $own:ident $g:ident $s:ident $cx:ident) => {{
			let (g, s, cx) = ($g, $s, $cx);
			let mut encs: Vec<(String, Vec<u8>)> = vec![];
			$( encs.push((tname::<<$seq as Carrier>::C>(), encodings::<$seq>(&g, s, cx)?)); )*
			#[cfg(feature = "third")]
			{
				$( encs.push((tname::<<$third as Carrier>::C>(), encodings::<$third>(&g, s, cx)?)); )*
			}
			let own = encodings::<$own>(&g, s, cx)?;
			decodes::<$own>(&g, &own, "itself", cx)?;
			for (n, e) in &encs {
				ensure!(e == &encs[0].1, "{n} encodes as {}, {} as {}", hex(e), encs[0].0, hex(&encs[0].1));
				$( decodes::<$seq>(&g, e, n, cx)?; )*
				#[cfg(feature = "third")]
				{
					$( decodes::<$third>(&g, e, n, cx)?; )*
				}
			}
			Ok(())
	}};
}

mod large {
	use super::*;
	ix_decl!(map M, u32, u16);
	ix_decl!(seq Q, u32);
	ix_decl!(set S, u32);
	// longer encodings may sort first
	ix_decl!(set T, (u8, String));
	ix_decl!(map N, (u8, String), bool);
}

fn large_key(x: u32) -> (u8, String) {
	let x = x.wrapping_mul(0x9e37_79b1);
	(x as u8, format!("{x:08x}")[(x as usize >> 8) % 7..].to_string())
}

fn main() {
	engine::main("C18", |_| {
		let mut cs = Cases::new();
		macro_rules! add {
			(map $id:ident, $k:ty, $v:ty) => {{
				family!(f, $id, B [B H P] [O I] BI);
				cs.add(format!("canonical {}", tname::<BTreeMap<$k, $v>>()), 1.0, f);
			}};
			(seq $id:ident, $t:ty) => {{
				family!(f, $id, V [V] [I] VI);
				cs.add(format!("canonical {}", tname::<Vec<$t>>()), 1.0, f);
			}};
			(set $id:ident, $t:ty) => {{
				family!(f, $id, B [B H P] [O I] BI);
				cs.add(format!("canonical {}", tname::<BTreeSet<$t>>()), 1.0, f);
			}};
		}
		ix_collections!(add);
		// without the poor hasher, whose cost grows with the square
		use large::*;
		family!(@large fm, M, B [B H] [O I] BI, |x| (x, x as u16));
		cs.add("canonical large map", 0.03, fm);
		family!(@large fq, Q, V [V] [I] VI, |x| x);
		cs.add("canonical large sequence", 0.03, fq);
		family!(@large fs, S, B [B H] [O I] BI, |x| x);
		cs.add("canonical large set", 0.03, fs);
		family!(@large ft, T, B [B H] [O I] BI, large_key);
		cs.add("canonical large set of pairs", 0.03, ft);
		family!(@large fn_, N, B [B H] [O I] BI, |x| (large_key(x), x % 2 == 0));
		cs.add("canonical large map of pairs", 0.03, fn_);
		cs
	})
}

//! C07: lookups in indexed collections and structs against a model.
use checks::ix::{Carrier, Coll, Kind};
use checks::*;
use revision::optimised::{IndexedMapWalker, IndexedSeqWalker, IndexedStructWalker};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

ix_collections!(ix_decl);

/// A byte string to look for: present, near a present one, or unrelated.
fn needle(keys: &[(Vec<u8>, Vec<u8>)], s: &mut Src) -> Vec<u8> {
	if keys.is_empty() {
		let n = s.below(4);
		return s.bytes(n);
	}
	let mut k = keys[s.below(keys.len())].0.clone();
	match s.weighted(&[10, 2, 2, 2, 1, 1, 1]) {
		0 => {}
		1 => {
			k.pop();
		}
		2 => k.push(*s.pick(&[0u8, 1, 255])),
		3 => {
			if let Some(l) = k.last_mut() {
				*l = if s.bool() { l.wrapping_add(1) } else { l.wrapping_sub(1) };
			}
		}
		4 => k = vec![],
		5 => k = vec![255; 40],
		_ => {
			let n = s.below(6);
			k = s.bytes(n);
		}
	}
	k
}

fn map<T: Carrier>(s: &mut Src, cx: &mut Ctx) -> Res {
	let items = ix::gen_items::<T::C>(s);
	let c = T::C::history(&items, s);
	map_of::<T>(items, c, s, cx)
}

fn map_of<T: Carrier>(items: Vec<<T::C as Coll>::Item>, c: T::C, s: &mut Src, cx: &mut Ctx) -> Res {
	let (enc, p, _) = ix::encode::<T>(7, c, "z")?;
	let mut model: Vec<(Vec<u8>, Vec<u8>)> = items.iter().map(T::C::bytes).collect();
	model.sort();
	let n = model.len();
	cx.key(&p);
	cx.nontrivial = n >= 2;
	cx.label(if n >= 8 { "offset table" } else { "plain body" });
	cx.label_if(n > 250, "more than 250 entries");
	cx.label_if(n > 65535, "more than 65535 entries");
	cx.sample(|| format!("{} n={n} {}", tname::<T::C>(), hex(&p)));
	for validated in [true, false] {
		let what = format!("{} with {n} entries, {}", tname::<T::C>(), if validated { "validated" } else { "unvalidated" });
		let w = match if validated { IndexedMapWalker::<(), ()>::from_payload(&p) } else { IndexedMapWalker::from_payload_unvalidated(&p) } {
			Ok(w) => w,
			Err(e) => fail!("{what}: opening failed: {e}: {}", hex(&enc)),
		};
		ensure!(w.len() == n, "{what}: len() is {}", w.len());
		ensure!(w.is_empty() == (n == 0), "{what}: is_empty() is {}", w.is_empty());
		ensure!(w.is_indexed() == (n >= 8), "{what}: is_indexed() is {}", w.is_indexed());
		if n < 8 {
			ensure!(w.entries().is_none(), "{what}: entries() without an offset table");
			let body: Vec<u8> = model.iter().flat_map(|(k, v)| [k.clone(), v.clone()]).flatten().collect();
			ensure!(w.legacy_body() == Some(&body[..]), "{what}: legacy_body() is {:?} instead of {}", w.legacy_body().map(hex), hex(&body));
			ensure!(w.find_value_bytes(|_| std::cmp::Ordering::Equal).is_err(), "{what}: find succeeded without an offset table");
			ensure!(
				w.find_value_bytes_with_hint(Some(0), |_| std::cmp::Ordering::Equal).is_err(),
				"{what}: hinted find succeeded without an offset table"
			);
			continue;
		}
		ensure!(w.legacy_body().is_none(), "{what}: legacy_body() beside an offset table");
		let Some(e) = w.entries() else { fail!("{what}: entries() is None") };
		let e: Vec<(Vec<u8>, Vec<u8>)> = e.map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
		if let Some(i) = (0..n.max(e.len())).find(|i| e.get(*i) != model.get(*i)) {
			fail!("{what}: entries() has {:02x?} instead of {:02x?} at {i}", e.get(i), model.get(i));
		}
		let q = s.range(1, 8);
		let mut hint: Option<u32> = None;
		for _ in 0..q {
			cx.evals += 1;
			let k = needle(&model, s);
			let at = model.iter().position(|(m, _)| *m == k);
			let want = at.map(|i| model[i].1.clone());
			cx.label(if at.is_some() { "key present" } else { "key absent" });
			let got = match w.find_value_bytes(|x| x.cmp(&k)) {
				Ok(g) => g.map(|b| b.to_vec()),
				Err(e) => fail!("{what}: find {} failed: {e}: {}", hex(&k), hex(&p)),
			};
			ensure!(got == want, "{what}: find {} gave {got:02x?} instead of {want:02x?}: {}", hex(&k), hex(&p));
			hint = match s.weighted(&[2, 3, 2, 2, 1, 1]) {
				0 => None,
				1 => hint,
				2 => at.map(|i| i as u32),
				3 => Some(s.below(n) as u32),
				4 => Some((n + s.below(3)) as u32),
				_ => Some(*s.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 0, 1 << 29])),
			};
			cx.label(match hint {
				None => "no hint",
				Some(h) if Some(h as usize) == at => "right hint",
				Some(h) if (h as usize) < n => "wrong hint",
				_ => "hint out of range",
			});
			let probes = Cell::new(0usize);
			let got = match w.find_value_bytes_with_hint(hint, |x| {
				probes.set(probes.get() + 1);
				x.cmp(&k)
			}) {
				Ok(g) => g,
				Err(e) => fail!("{what}: find {} with hint {hint:?} failed: {e}: {}", hex(&k), hex(&p)),
			};
			let value = got.value.map(|b| b.to_vec());
			ensure!(value == want, "{what}: find {} with hint {hint:?} gave {value:02x?} instead of {want:02x?}: {}", hex(&k), hex(&p));
			let wh = at.map(|i| i as u32).or(hint);
			ensure!(got.hint == wh, "{what}: find {} with hint {hint:?} returned hint {:?} instead of {wh:?}: {}", hex(&k), got.hint, hex(&p));
			if hint.is_some() && hint.map(|h| h as usize) == at {
				ensure!(probes.get() == 1, "{what}: a right hint needed {} probes", probes.get());
			}
			let bound = 3 + (usize::BITS - n.leading_zeros()) as usize;
			ensure!(probes.get() <= bound, "{what}: {} probes for {n} entries", probes.get());
			if let Some(b) = got.value {
				// the bytes come from the payload itself
				let off = (b.as_ptr() as usize).wrapping_sub(p.as_ptr() as usize);
				ensure!(b.is_empty() || off < p.len(), "{what}: value bytes were copied");
			}
			hint = got.hint;
		}
	}
	Ok(())
}

fn seq<T: Carrier>(s: &mut Src, cx: &mut Ctx) -> Res {
	let items = ix::gen_items::<T::C>(s);
	let c = T::C::history(&items, s);
	seq_of::<T>(items, c, s, cx)
}

fn seq_of<T: Carrier>(items: Vec<<T::C as Coll>::Item>, c: T::C, s: &mut Src, cx: &mut Ctx) -> Res {
	let (_, p, _) = ix::encode::<T>(7, c, "z")?;
	let mut model: Vec<Vec<u8>> = items.iter().map(|i| T::C::bytes(i).0).collect();
	if T::C::KIND == Kind::Set {
		model.sort();
	}
	let n = model.len();
	cx.key(&p);
	cx.nontrivial = n >= 2;
	cx.label(if n >= 8 { "offset table" } else { "plain body" });
	cx.label_if(n > 250, "more than 250 entries");
	cx.label_if(n > 65535, "more than 65535 entries");
	cx.sample(|| format!("{} n={n} {}", tname::<T::C>(), hex(&p)));
	let body: Vec<u8> = model.concat();
	for validated in [true, false] {
		let what = format!("{} with {n} elements, {}", tname::<T::C>(), if validated { "validated" } else { "unvalidated" });
		let w = match if validated { IndexedSeqWalker::<()>::from_payload(&p) } else { IndexedSeqWalker::from_payload_unvalidated(&p) } {
			Ok(w) => w,
			Err(e) => fail!("{what}: opening failed: {e}: {}", hex(&p)),
		};
		ensure!(w.len() == n, "{what}: len() is {}", w.len());
		ensure!(w.is_empty() == (n == 0), "{what}: is_empty() is {}", w.is_empty());
		ensure!(w.is_indexed() == (n >= 8), "{what}: is_indexed() is {}", w.is_indexed());
		ensure!(w.body() == body, "{what}: body() is {} instead of {}", hex(w.body()), hex(&body));
		if n < 8 {
			let i = s.below(9);
			ensure!(w.element_bytes(i).is_err(), "{what}: element_bytes({i}) succeeded without an offset table");
			continue;
		}
		for _ in 0..s.range(1, 8) {
			cx.evals += 1;
			let i = match s.weighted(&[6, 1, 1, 1]) {
				0 => s.below(n),
				1 => n - 1,
				2 => n + s.below(3),
				_ => *s.pick(&[usize::MAX, usize::MAX / 4, 1 << 62, 1 << 32]),
			};
			match (w.element_bytes(i), model.get(i)) {
				(Ok(b), Some(m)) => ensure!(b == m, "{what}: element {i} is {} instead of {}: {}", hex(b), hex(m), hex(&p)),
				(Err(_), None) => cx.label("index out of range"),
				(Err(e), Some(_)) => fail!("{what}: element {i} failed: {e}: {}", hex(&p)),
				(Ok(b), None) => fail!("{what}: element {i} of {n} is {}", hex(b)),
			}
		}
		if T::C::KIND == Kind::Set {
			// membership by binary search over the elements
			let pairs: Vec<_> = model.iter().map(|m| (m.clone(), vec![])).collect();
			let k = needle(&pairs, s);
			let (mut lo, mut hi) = (0, n);
			let mut found = false;
			while lo < hi {
				let m = (lo + hi) / 2;
				match w.element_bytes(m).unwrap().cmp(&k[..]) {
					std::cmp::Ordering::Equal => {
						found = true;
						break;
					}
					std::cmp::Ordering::Less => lo = m + 1,
					std::cmp::Ordering::Greater => hi = m,
				}
			}
			ensure!(found == model.contains(&k), "{what}: binary search for {} gave {found}: {}", hex(&k), hex(&p));
		}
	}
	Ok(())
}

enum F {
	U(u64),
	S(String),
	B(Vec<u8>),
	O(Option<i32>),
	M(BTreeMap<u8, u16>),
}
impl F {
	fn any(s: &mut Src) -> F {
		match s.below(5) {
			0 => F::U(u64::gen_(s, 2)),
			1 => F::S(String::gen_(s, 2)),
			2 => F::B(Vec::gen_(s, 2)),
			3 => F::O(Option::gen_(s, 2)),
			_ => F::M(BTreeMap::gen_(s, 2)),
		}
	}
	fn enc(&self) -> Vec<u8> {
		match self {
			F::U(x) => x.enc(),
			F::S(x) => x.enc(),
			F::B(x) => x.enc(),
			F::O(x) => x.enc(),
			F::M(x) => x.enc(),
		}
	}
	fn check(&self, w: &IndexedStructWalker<'_>, i: u16) -> Result<bool, Error> {
		Ok(match self {
			F::U(x) => w.decode_field::<u64>(i)?.same(x),
			F::S(x) => w.decode_field::<String>(i)?.same(x),
			F::B(x) => w.decode_field::<Vec<u8>>(i)?.same(x),
			F::O(x) => w.decode_field::<Option<i32>>(i)?.same(x),
			F::M(x) => w.decode_field::<BTreeMap<u8, u16>>(i)?.same(x),
		})
	}
}

pub fn strukt(s: &mut Src, cx: &mut Ctx) -> Res {
	let n = match s.weighted(&[1, 4, 2, 1]) {
		0 => 0,
		1 => s.range(1, 6),
		2 => s.range(7, 30),
		_ => *s.pick(&[63usize, 64, 65, 255, 256, 300]),
	};
	let fields: Vec<F> = if n > 30 {
		let mut t = s.sub();
		t.budget = 1000;
		(0..n).map(|_| F::any(&mut t)).collect()
	} else {
		(0..n).map(|_| F::any(s)).collect()
	};
	let enc: Vec<Vec<u8>> = fields.iter().map(F::enc).collect();
	let p = refenc::indexed_struct(&enc);
	let rev = s.uint(16) as u16;
	cx.key(&p);
	cx.nontrivial = n >= 2;
	cx.sample(|| format!("struct of {n} fields {}", hex(&p)));
	for validated in [true, false] {
		let what = format!("struct of {n} fields, {}", if validated { "validated" } else { "unvalidated" });
		let w = match if validated {
			IndexedStructWalker::from_payload(&p, rev, n as u16)
		} else {
			IndexedStructWalker::from_payload_unvalidated(&p, rev, n as u16)
		} {
			Ok(w) => w,
			Err(e) => fail!("{what}: opening failed: {e}: {}", hex(&p)),
		};
		ensure!(w.field_count() as usize == n, "{what}: field_count() is {}", w.field_count());
		ensure!(w.revision() == rev, "{what}: revision() is {} instead of {rev}", w.revision());
		for _ in 0..s.range(1, 8) {
			cx.evals += 1;
			let i = match s.weighted(&[6, 1, 1, 1]) {
				0 => s.below(n.max(1)),
				1 => n.saturating_sub(1),
				2 => n + s.below(3),
				_ => 65535,
			};
			match (w.field_bytes(i as u16), enc.get(i)) {
				(Ok(b), Some(m)) => ensure!(b == m, "{what}: field {i} is {} instead of {}: {}", hex(b), hex(m), hex(&p)),
				(Err(_), None) => {
					ensure!(w.decode_field::<u64>(i as u16).is_err(), "{what}: decoding field {i} succeeded");
					cx.label("index out of range");
					continue;
				}
				(Err(e), Some(_)) => fail!("{what}: field {i} failed: {e}: {}", hex(&p)),
				(Ok(b), None) => fail!("{what}: field {i} of {n} is {}", hex(b)),
			}
			match fields[i].check(&w, i as u16) {
				Ok(true) => {}
				Ok(false) => fail!("{what}: decode_field({i}) gave another value: {}", hex(&p)),
				Err(e) => fail!("{what}: decode_field({i}) failed: {e}: {}", hex(&p)),
			}
		}
		ensure!(w.skip_field(0).is_ok(), "{what}: skip_field failed");
	}
	Ok(())
}

#[allow(dead_code)]
pub fn lookup_some_map(s: &mut Src, cx: &mut Ctx) -> Res {
	match s.below(4) {
		0 => map::<Ma::B>(s, cx),
		1 => map::<Mb::H>(s, cx),
		2 => ix::walk_carrier::<Mc::BI>(s, cx),
		_ => ix::walk_carrier::<Mb::B>(s, cx),
	}
}
#[allow(dead_code)]
pub fn lookup_some_seq(s: &mut Src, cx: &mut Ctx) -> Res {
	match s.below(4) {
		0 => seq::<Qa::V>(s, cx),
		1 => seq::<Qc::VI>(s, cx),
		2 => seq::<Sb::B>(s, cx),
		_ => ix::walk_carrier::<Qc::V>(s, cx),
	}
}

// collections that need four bytes to count
mod huge {
	use super::*;
	carrier!(M, indexed_map, BTreeMap<u32, u16>, false, optimised);
	carrier!(Q, indexed_seq, Vec<u32>, true, optimised, indexed_struct);
	carrier!(S, indexed_set, HashSet<u32>, false, optimised);
}

macro_rules! each {
	($cs:ident, $id:ident, $f:ident, $w:expr, $($c:ident)*) => { $(
		$cs.add(format!("lookup {} {}", stringify!($c), tname::<<$id::$c as Carrier>::C>()), $w, |s, c| $f::<$id::$c>(s, c));
		$cs.add(format!("field {} {}", stringify!($c), tname::<<$id::$c as Carrier>::C>()), $w * 0.5, |s, c| ix::walk_carrier::<$id::$c>(s, c));
	)* };
}

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	macro_rules! add {
		(map $id:ident, $k:ty, $v:ty) => {
			each!(cs, $id, map, 1.0, B H P BI);
			#[cfg(feature = "third")]
			each!(cs, $id, map, 0.5, O I);
		};
		(seq $id:ident, $t:ty) => {
			each!(cs, $id, seq, 1.0, V VI);
			#[cfg(feature = "third")]
			each!(cs, $id, seq, 0.5, I);
		};
		(set $id:ident, $t:ty) => {
			each!(cs, $id, seq, 1.0, B H P BI);
			#[cfg(feature = "third")]
			each!(cs, $id, seq, 0.5, O I);
		};
	}
	ix_collections!(add);
	cs.add("struct", 6.0, strukt);
	cs.add("lookup huge map", 0.003, |s, cx| {
		let i = ix::distinct::<BTreeMap<u32, u16>>(ix::many(s, |x| (x, x as u16)));
		let c = Coll::build(&i);
		map_of::<huge::M>(i, c, s, cx)
	});
	cs.add("lookup huge seq", 0.003, |s, cx| {
		let i = ix::many(s, |x| x);
		let c = Coll::build(&i);
		seq_of::<huge::Q>(i, c, s, cx)
	});
	cs.add("lookup huge set", 0.003, |s, cx| {
		let i = ix::distinct::<HashSet<u32>>(ix::many(s, |x| x));
		let c = Coll::build(&i);
		seq_of::<huge::S>(i, c, s, cx)
	});
	cs.add("field huge map", 0.002, |s, cx| {
		let i = ix::distinct::<BTreeMap<u32, u16>>(ix::many(s, |x| (x, x as u16)));
		ix::walk_carrier_of::<huge::M>(i, s, cx)
	});
	cs.add("field huge seq", 0.002, |s, cx| {
		let i = ix::many(s, |x| x);
		ix::walk_carrier_of::<huge::Q>(i, s, cx)
	});
	cs.add("field huge set", 0.002, |s, cx| {
		let i = ix::distinct::<HashSet<u32>>(ix::many(s, |x| x));
		ix::walk_carrier_of::<huge::S>(i, s, cx)
	});
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C07", |_| cases())
}

//! C10: integer decoding is exact.
use checks::*;
use engine::{Risky, risky};
use revision::optimised::indexed::{IndexedMapWalker, IndexedSeqWalker};
use std::ops::Bound;

/// What a byte string denotes as an unsigned wire integer: value and length.
/// None when it is truncated or not an integer encoding.
fn wire_uint(b: &[u8], width: usize, fixed: bool) -> Option<(u128, usize)> {
	let le = |b: &[u8]| b.iter().rev().fold(0u128, |a, x| (a << 8) | *x as u128);
	if width == 1 {
		return b.first().map(|x| (*x as u128, 1));
	}
	if fixed {
		return b.get(..width).map(|x| (le(x), width));
	}
	let n = match *b.first()? {
		251 => 2,
		252 => 4,
		253 => 8,
		254 => 16,
		255 => return None,
		x => return Some((x as u128, 1)),
	};
	b.get(1..1 + n).map(|x| (le(x), 1 + n))
}

fn unzigzag(v: u128) -> i128 {
	if v & 1 == 1 { -((v >> 1) as i128) - 1 } else { (v >> 1) as i128 }
}

/// Length of the encoding at the start of `b` as far as its first byte tells.
fn shape_len(b: &[u8], width: usize) -> Option<usize> {
	if width == 1 {
		return Some(1);
	}
	if FIXED {
		return Some(width);
	}
	Some(match *b.first()? {
		251 => 3,
		252 => 5,
		253 => 9,
		254 => 17,
		_ => 1,
	})
}

trait Int: Subject + Copy + PartialEq {
	const WIDTH: usize;
	/// The value a byte string denotes for this type, if it fits.
	fn denote(b: &[u8]) -> Option<(Self, usize)>;
	/// The unsigned wire value of this integer.
	fn wire(self) -> u128;
}
macro_rules! ints {
	($($t:ident $w:literal $s:literal;)*) => {$(
		impl Int for $t {
			const WIDTH: usize = $w;
			fn denote(b: &[u8]) -> Option<(Self, usize)> {
				let (v, n) = wire_uint(b, $w, FIXED)?;
				if $w == 1 {
					return Some((v as u8 as $t, n));
				}
				if !FIXED && b[0] == 254 && $w < 16 {
					// a 16-byte form never fits a narrower type, even when small:
					// the format reserves it for 128-bit integers
					return None;
				}
				if $s {
					$t::try_from(unzigzag(v)).ok().map(|v| (v, n))
				} else {
					$t::try_from(v).ok().map(|v| (v, n))
				}
			}
			fn wire(self) -> u128 {
				if $w == 1 {
					self as u8 as u128
				} else if $s {
					refenc::zigzag(self as i128)
				} else {
					self as u128
				}
			}
		}
	)*};
}
ints! {
	u8 1 false; u16 2 false; u32 4 false; u64 8 false; u128 16 false; usize 8 false;
	i8 1 true; i16 2 true; i32 4 true; i64 8 true; i128 16 true; isize 8 true;
}

fn agree<T: Int>(b: &[u8], c: &mut Ctx) -> Res {
	let want = T::denote(b);
	let mut r: &[u8] = b;
	let got = match risky(|| T::deserialize_revisioned(&mut r)) {
		Risky::Done(g) => g,
		Risky::Oversize => fail!("decoding {} allocates", hex(b)),
		Risky::Panic(m) => fail!("decoding {} panicked: {m}", hex(b)),
	};
	let used = b.len() - r.len();
	c.evals += 1;
	match (&want, &got) {
		(Some((w, n)), Ok(g)) => {
			ensure!(w == g, "{} denotes {w:?}, decoded to {g:?}", hex(b));
			ensure!(*n == used, "{} is {n} bytes long, decoding used {used}", hex(b));
		}
		(None, Err(_)) => {}
		(Some((w, _)), Err(e)) => fail!("{} denotes {w:?}, decoding failed: {e}", hex(b)),
		(None, Ok(g)) => fail!("{} denotes no {}, decoded to {g:?}", hex(b), tname::<T>()),
	}
	if let Some(n) = shape_len(b, T::WIDTH) {
		// With or without success, nothing past the encoding is touched.
		ensure!(used <= n, "decoding {} used {used} bytes of an encoding of {n}", hex(b));
	}
	let outs = match risky(|| generic::all_skips::<T>(b, false)) {
		Risky::Done(o) => o,
		_ => fail!("skipping {} panicked", hex(b)),
	};
	for (name, x) in outs {
		let check = name.contains("check");
		match (&want, x) {
			(Some((_, n)), Ok(m)) => ensure!(*n == m, "{name} of {} moved {m} of {n} bytes", hex(b)),
			(Some(_), Err(e)) => fail!("{name} of {} failed: {e}", hex(b)),
			(None, Ok(m)) => {
				ensure!(!check, "{name} accepted {}, which does not decode", hex(b));
				ensure!(
					shape_len(b, T::WIDTH) == Some(m) && m <= b.len(),
					"{name} of {} moved {m} bytes",
					hex(b)
				);
			}
			(None, Err(_)) => {}
		}
	}
	Ok(())
}

/// Byte strings around every form of encoding.
fn gen_bytes(s: &mut Src) -> Vec<u8> {
	let mut b = match s.below(4) {
		0 => {
			let n = s.range(0, 18);
			s.bytes(n)
		}
		_ if FIXED => {
			let w = *s.pick(&[1usize, 2, 4, 8, 16]);
			s.uint(w as u32 * 8).to_le_bytes()[..w].to_vec()
		}
		_ => {
			let (tag, w) = *s.pick(&[(0u8, 0usize), (251, 2), (252, 4), (253, 8), (254, 16), (255, 3)]);
			if w == 0 {
				vec![s.draw(255) as u8]
			} else {
				let mut b = vec![tag];
				let v = s.uint(w as u32 * 8);
				b.extend_from_slice(&v.to_le_bytes()[..w]);
				b
			}
		}
	};
	match s.below(4) {
		0 if !b.is_empty() => {
			let n = s.below(b.len());
			b.truncate(n);
		}
		1 => b.extend(tail(s)),
		_ => {}
	}
	b
}

fn strings<T: Int>(s: &mut Src, c: &mut Ctx) -> Res {
	let b = gen_bytes(s);
	c.key(&b);
	c.nontrivial = b.len() >= 2;
	c.label(match T::denote(&b) {
		Some(_) => "denotes a value",
		None => "denotes nothing of this type",
	});
	c.sample(|| format!("{} -> {:?}", hex(&b), T::denote(&b).map(|x| x.0)));
	agree::<T>(&b, c)
}

/// Every form that denotes the value.
fn forms(v: u128, width: usize) -> Vec<Vec<u8>> {
	if width == 1 {
		return vec![vec![v as u8]];
	}
	if FIXED {
		return vec![v.to_le_bytes()[..width].to_vec()];
	}
	let mut out = Vec::new();
	if v < 251 {
		out.push(vec![v as u8]);
	}
	for (tag, w) in [(251u8, 2usize), (252, 4), (253, 8), (254, 16)] {
		if (tag < 254 || width == 16) && (w == 16 || v < 1u128 << (8 * w)) {
			let mut b = vec![tag];
			b.extend_from_slice(&v.to_le_bytes()[..w]);
			out.push(b);
		}
	}
	out
}

fn values<T: Int>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 0);
	let junk = tail(s);
	let fs = forms(v.wire(), T::WIDTH);
	c.key(&fs[0]);
	c.nontrivial = v.wire() > 1;
	c.sample(|| format!("{} in {} forms, shortest {}", v.show(), fs.len(), hex(&fs[0])));
	let got = revision::to_vec(&v).map_err(|e| Fail::new(e.to_string()))?;
	ensure!(got == fs[0], "{} encodes to {}, the shortest form is {}", v.show(), hex(&got), hex(&fs[0]));
	for f in fs {
		let mut b = f.clone();
		b.extend_from_slice(&junk);
		let mut r: &[u8] = &b;
		match T::deserialize_revisioned(&mut r) {
			Ok(g) => ensure!(
				g == v && b.len() - r.len() == f.len(),
				"form {} of {} decodes to {}, leaving {}",
				hex(&f),
				v.show(),
				g.show(),
				r.len()
			),
			Err(e) => fail!("form {} of {} does not decode: {e}", hex(&f), v.show()),
		}
		agree::<T>(&b, c)?;
	}
	Ok(())
}

/// All byte strings of the two shortest forms.
fn exhaustive<T: Int>(_s: &mut Src, c: &mut Ctx) -> Res {
	c.nontrivial = true;
	agree::<T>(&[], c)?;
	for a in 0..=255u8 {
		agree::<T>(&[a], c)?;
		for b in 0..=255u8 {
			agree::<T>(&[a, b], c)?;
			agree::<T>(&[251, a, b], c)?;
			agree::<T>(&[252, a, b, 0, 0], c)?;
			agree::<T>(&[252, a, b, 1, 0], c)?;
			agree::<T>(&[a, b, 0, 0], c)?;
			agree::<T>(&[a, b, 0xff, 0xff], c)?;
			agree::<T>(&[252, 0, 0, a, b], c)?;
			agree::<T>(&[253, 0, 0, 0, 0, 0, 0, a, b], c)?;
			agree::<T>(&[253, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, a, b], c)?;
		}
	}
	Ok(())
}

/// Length prefixes and tags in any of their forms; `body` follows the prefix.
fn prefixed<T: Subject>(
	s: &mut Src,
	c: &mut Ctx,
	width: usize,
	make: impl Fn(&mut Src) -> (u128, Vec<u8>, T),
) -> Res {
	let (n, body, v) = make(s);
	let junk = tail(s);
	for f in forms(n, width) {
		let mut b = f.clone();
		b.extend_from_slice(&body);
		let end = b.len();
		b.extend_from_slice(&junk);
		c.key(&b);
		c.nontrivial = f.len() > 1;
		let mut r: &[u8] = &b;
		match T::deserialize_revisioned(&mut r) {
			Ok(g) => ensure!(
				g.same(&v) && b.len() - r.len() == end,
				"{} should decode to {} using {end} bytes, got {} using {}",
				hex(&b),
				v.show(),
				g.show(),
				b.len() - r.len()
			),
			Err(e) => fail!("{} should decode to {}, failed: {e}", hex(&b), v.show()),
		}
		generic::skip_valid::<T>(&b, end, &v.show(), c)?;
	}
	c.sample(|| format!("{} with a prefix of {n} in {} forms", v.show(), forms(n, width).len()));
	Ok(())
}

/// An integer prefix (length, tag) that does not fit, or is malformed, must be
/// refused rather than truncated to something smaller.
fn bad_prefix<T: Subject>(s: &mut Src, c: &mut Ctx, width: usize, max: u128) -> Res {
	let mut b = gen_bytes(s);
	let more = s.range(0, 12);
	b.extend(s.bytes(more));
	let ok = wire_uint(&b, width, FIXED)
		.filter(|(v, _)| *v <= max && (FIXED || width == 16 || b[0] != 254));
	if ok.is_some() {
		return Ok(());
	}
	c.key(&b);
	c.nontrivial = true;
	c.sample(|| hex(&b));
	let mut r: &[u8] = &b;
	match risky(|| T::deserialize_revisioned(&mut r).map(|v| v.show())) {
		Risky::Done(Ok(v)) => fail!("{} was accepted as {v}", hex(&b)),
		Risky::Panic(m) => fail!("decoding {} panicked: {m}", hex(&b)),
		_ => {}
	}
	match risky(|| generic::all_skips::<T>(&b, true)) {
		Risky::Done(o) => {
			for (name, x) in o {
				c.evals += 1;
				ensure!(x.is_err(), "{name} accepted {}", hex(&b));
			}
		}
		Risky::Panic(m) => fail!("skipping {} panicked: {m}", hex(&b)),
		_ => {}
	}
	Ok(())
}

/// Indexed collections always use the variable-length count.
fn indexed_count(s: &mut Src, c: &mut Ctx) -> Res {
	let n = *s.pick(&[0usize, 1, 3, 7, 8, 9, 20, 250, 251, 300]);
	let elems: Vec<Vec<u8>> = (0..n).map(|i| vec![1u8, (i % 251) as u8][..1 + i % 2].to_vec()).collect();
	let mut std = Vec::new();
	refenc::indexed_seq(elems, &mut std);
	let mut cnt = Vec::new();
	refenc::varint(n as u128, &mut cnt);
	let rest = &std[1 + cnt.len()..];
	for (tag, w) in [(0u8, 0usize), (251, 2), (252, 4), (253, 8)] {
		let mut b = vec![std[0]];
		if w == 0 {
			b.extend_from_slice(&cnt);
		} else {
			b.push(tag);
			b.extend_from_slice(&(n as u128).to_le_bytes()[..w]);
		}
		b.extend_from_slice(rest);
		c.key(&b);
		c.nontrivial = true;
		c.evals += 1;
		let wk = match IndexedSeqWalker::<u8>::from_payload(&b) {
			Ok(w) => w,
			Err(e) => fail!("sequence of {n} with count form {tag} rejected: {e}: {}", hex(&b)),
		};
		ensure!(wk.len() == n, "count form {tag} of {n} read as {}", wk.len());
		if n >= refenc::THRESHOLD {
			for i in 0..n {
				let e = wk.element_bytes(i).map_err(|e| Fail::new(e.to_string()))?;
				ensure!(e.len() == 1 + i % 2, "element {i} of {n} is {}", hex(e));
			}
		}
	}
	// counts that are no varint at all, or do not fit
	let mut b = vec![s.draw(1) as u8];
	match s.below(3) {
		0 => b.push(255),
		1 => {
			b.push(*s.pick(&[251u8, 252, 253, 254]));
			let m = s.below(2);
			b.extend(s.bytes(m));
		}
		_ => {
			b.push(253);
			b.extend_from_slice(&(u64::MAX - s.draw(9)).to_le_bytes());
			b.extend(s.bytes(8));
		}
	}
	let indexed = b[0] == 1;
	c.evals += 2;
	match no_panic(|| IndexedSeqWalker::<u8>::from_payload(&b).map(|w| w.len())) {
		Ok(Ok(n)) => ensure!(!indexed && b[1] == 253, "{} opened as a sequence of {n}", hex(&b)),
		Ok(Err(_)) => {}
		Err(m) => fail!("opening {} panicked: {m}", hex(&b)),
	}
	match no_panic(|| IndexedMapWalker::<u8, u8>::from_payload(&b).map(|w| w.len())) {
		Ok(Ok(n)) => ensure!(!indexed && b[1] == 253, "{} opened as a map of {n}", hex(&b)),
		Ok(Err(_)) => {}
		Err(m) => fail!("opening {} panicked: {m}", hex(&b)),
	}
	Ok(())
}

fn main() {
	engine::main("C10", |_| {
		let mut cs = Cases::new();
		macro_rules! add {
			($($t:ty)*) => {$(
				cs.add(concat!("strings ", stringify!($t)), 1.0, strings::<$t>);
				cs.add(concat!("values ", stringify!($t)), 0.5, values::<$t>);
				cs.add(concat!("exhaustive ", stringify!($t)), 0.000001, exhaustive::<$t>);
			)*};
		}
		add!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
		cs.add("length of String", 0.5, |s, c| {
			prefixed::<String>(s, c, 8, |s| {
				let v = String::gen_(s, 0);
				(v.len() as u128, v.clone().into_bytes(), v)
			})
		});
		cs.add("length of Vec<u8>", 0.5, |s, c| {
			prefixed::<Vec<u8>>(s, c, 8, |s| {
				let v = <Vec<u8>>::gen_(s, 0);
				(v.len() as u128, v.clone(), v)
			})
		});
		cs.add("length of Vec<bool>", 0.5, |s, c| {
			prefixed::<Vec<bool>>(s, c, 8, |s| {
				let v = <Vec<bool>>::gen_(s, 0);
				let (mut l, mut e) = (Vec::new(), Vec::new());
				refenc::len(v.len(), &mut l);
				v.emit(&mut e, false);
				(v.len() as u128, e[l.len()..].to_vec(), v)
			})
		});
		cs.add("length of Vec<u64>", 0.5, |s, c| {
			prefixed::<Vec<u64>>(s, c, 8, |s| {
				let v = <Vec<u64>>::gen_(s, 0);
				let (mut l, mut e) = (Vec::new(), Vec::new());
				refenc::len(v.len(), &mut l);
				v.emit(&mut e, false);
				(v.len() as u128, e[l.len()..].to_vec(), v)
			})
		});
		cs.add("length of BTreeMap<u8, i16>", 0.3, |s, c| {
			prefixed::<std::collections::BTreeMap<u8, i16>>(s, c, 8, |s| {
				let v = <std::collections::BTreeMap<u8, i16>>::gen_(s, 0);
				let (mut l, mut e) = (Vec::new(), Vec::new());
				refenc::len(v.len(), &mut l);
				v.emit(&mut e, false);
				(v.len() as u128, e[l.len()..].to_vec(), v)
			})
		});
		cs.add("tag of Result", 0.3, |s, c| {
			prefixed::<Result<u8, i8>>(s, c, 4, |s| {
				let x = s.draw(255) as u8;
				if s.bool() { (1, vec![x], Err(x as i8)) } else { (0, vec![x], Ok(x)) }
			})
		});
		cs.add("tag of Bound", 0.3, |s, c| {
			prefixed::<Bound<u8>>(s, c, 4, |s| {
				let x = s.draw(255) as u8;
				match s.below(3) {
					0 => (0, vec![], Bound::Unbounded),
					1 => (1, vec![x], Bound::Included(x)),
					_ => (2, vec![x], Bound::Excluded(x)),
				}
			})
		});
		cs.add("bad tag of Result", 0.5, |s, c| bad_prefix::<Result<u8, i8>>(s, c, 4, 1));
		cs.add("bad tag of Bound", 0.5, |s, c| bad_prefix::<Bound<u8>>(s, c, 4, 2));
		cs.add("bad length of String", 0.5, |s, c| bad_prefix::<String>(s, c, 8, 40));
		cs.add("bad length of Vec<u8>", 0.5, |s, c| bad_prefix::<Vec<u8>>(s, c, 8, 40));
		cs.add("bad length of Vec<u32>", 0.5, |s, c| bad_prefix::<Vec<u32>>(s, c, 8, 40));
		cs.add("bad length of BTreeSet", 0.5, |s, c| {
			bad_prefix::<std::collections::BTreeSet<u8>>(s, c, 8, 40)
		});
		cs.add("indexed counts", 0.5, indexed_count);
		macro_rules! wide {
			($($t:ty);* $(;)?) => { $(
				cs.add(format!("wide {}", tname::<$t>()), 0.04, generic::wide::<$t>);
			)* };
		}
		// nothing of theirs has variable length otherwise
		if !FIXED {
			use subjects::builtin_types;
			builtin_types!(wide);
			subjects::indexed_types!(wide);
		}
		cs
	})
}

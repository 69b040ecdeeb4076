//! Checks that apply to any type under test, built-in or derived.
use crate::*;
use subjects::refdec::{Got, Stop};
use engine::{Risky, risky};
use revision::{
	skip_check_reader, skip_check_slice, skip_reader, skip_revisioned, skip_check_revisioned, skip_slice,
};

// ---------------------------------------------------------------- round trip

pub fn round_trip<T: Subject>(s: &mut Src, c: &mut Ctx) -> Res {
	let n = 1 + s.below(3);
	let vals: Vec<T> = (0..n).map(|_| T::gen_(s, 0)).collect();
	let junk = tail(s);
	let mut buf = Vec::new();
	let mut ends = Vec::new();
	for v in &vals {
		let one = match revision::to_vec(v) {
			Ok(b) => b,
			Err(e) => fail!("to_vec({}) failed: {e}", v.show()),
		};
		let at = buf.len();
		if let Err(e) = revision::to_writer(&mut buf, v) {
			fail!("to_writer({}) failed: {e}", v.show());
		}
		// A hash collection may not change between two encodings either.
		ensure!(buf[at..] == one[..], "to_vec and to_writer disagree for {}", v.show());
		ends.push(buf.len());
	}
	buf.extend_from_slice(&junk);
	c.key(&buf);
	c.nontrivial = buf.len() - junk.len() >= 4;
	c.label(len_label(ends[0]));
	c.label_if(n > 1, "several values in a row");
	c.label_if(!junk.is_empty(), "followed by other bytes");
	c.sample(|| format!("{} -> {}", vals[0].show(), hex(&buf[..ends[0]])));
	let mut r: &[u8] = &buf;
	let mut at = 0;
	for (i, v) in vals.iter().enumerate() {
		let got: T = match revision::from_reader(&mut r) {
			Ok(g) => g,
			Err(e) => fail!("decoding value {i} {} from {} failed: {e}", v.show(), hex(&buf[at..])),
		};
		c.evals += 1;
		ensure!(v.same(&got), "wrote {} read {} bytes {}", v.show(), got.show(), hex(&buf[at..ends[i]]));
		let pos = buf.len() - r.len();
		ensure!(
			pos == ends[i],
			"decoding {} consumed {} bytes, encoding wrote {}",
			v.show(),
			pos as i64 - at as i64,
			ends[i] - at
		);
		at = ends[i];
	}
	ensure!(r == &junk[..], "trailing bytes disturbed");
	// whole-slice entry point, trailing bytes allowed
	match revision::from_slice::<T>(&buf) {
		Ok(g) => ensure!(vals[0].same(&g), "from_slice gave {} for {}", g.show(), vals[0].show()),
		Err(e) => fail!("from_slice failed for {}: {e}", vals[0].show()),
	}
	Ok(())
}

// ---------------------------------------------------------------- wire format

pub fn wire<T: Subject>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 0);
	let want = v.enc();
	let got = match revision::to_vec(&v) {
		Ok(g) => g,
		Err(e) => fail!("to_vec({}) failed: {e}", v.show()),
	};
	c.key(&want);
	c.nontrivial = want.len() >= 2;
	c.label(len_label(want.len()));
	c.sample(|| format!("{} -> {}", v.show(), hex(&want)));
	c.evals = 2;
	if want != got {
		let at = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
		fail!(
			"{}: bytes differ from the documented format at {at}: {} (len {}) instead of {} (len {})",
			v.show(),
			hex(&got[at.saturating_sub(4)..]),
			got.len(),
			hex(&want[at.saturating_sub(4)..]),
			want.len()
		);
	}
	let mut r: &[u8] = &want;
	match T::deserialize_revisioned(&mut r) {
		Ok(g) => {
			ensure!(v.same(&g), "documented bytes {} of {} decode to {}", hex(&want), v.show(), g.show());
			ensure!(r.is_empty(), "decoding leaves {} of {} bytes", r.len(), want.len());
		}
		Err(e) => fail!("documented bytes {} of {} do not decode: {e}", hex(&want), v.show()),
	}
	Ok(())
}

/// Integers, lengths, tags and revision numbers in any of their wider forms.
pub fn wide<T: Subject>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 0);
	wide_of(&v, &v, s, c)
}
/// `o` and what its bytes have to decode to.
pub fn wide_of<O: Subject, T: Subject>(o: &O, v: &T, s: &mut Src, c: &mut Ctx) -> Res {
	let (short, seed) = (o.enc(), s.draw(u64::MAX));
	let b = refenc::widened(seed, || o.enc());
	let end = b.len();
	let mut buf = b.clone();
	buf.extend(tail(s));
	c.key(&b);
	c.nontrivial = b != short;
	c.label_if(c.nontrivial, "wider than needed");
	c.sample(|| format!("{} -> {}", v.show(), hex(&b)));
	let mut r: &[u8] = &buf;
	match T::deserialize_revisioned(&mut r) {
		Ok(g) => {
			ensure!(v.same(&g), "{} of {} decodes to {} instead of {}", hex(&b), o.show(), g.show(), v.show());
			ensure!(buf.len() - r.len() == end, "decoding {} consumes {} bytes", hex(&b), buf.len() - r.len());
		}
		Err(e) => fail!("{} of {} does not decode: {e}", hex(&b), o.show()),
	}
	for (name, x) in all_skips::<T>(&buf, false) {
		c.evals += 1;
		match x {
			Ok(n) => ensure!(n == end, "{name} over {} consumes {n} of {end} bytes", hex(&b)),
			Err(e) => fail!("{name} over {} of {} fails: {e}", hex(&b), o.show()),
		}
	}
	Ok(())
}

// ---------------------------------------------------------------- skip

/// Each way of skipping, as (name, outcome): bytes consumed or error.
pub fn skips_of<T: SkipRevisioned + SkipCheckRevisioned>(buf: &[u8]) -> Vec<(&'static str, Result<usize, Error>)> {
	all_skips::<T>(buf, false)
}
pub fn all_skips<T: SkipRevisioned + SkipCheckRevisioned>(buf: &[u8], only_checked: bool) -> Vec<(&'static str, Result<usize, Error>)> {
	let n = buf.len();
	let mut out = Vec::new();
	if !only_checked {
		let mut r: &[u8] = buf;
		let x = skip_reader::<T, _>(&mut r);
		out.push(("skip_reader", x.map(|_| n - r.len())));
		let mut r = std::io::Cursor::new(buf);
		let x = skip_revisioned::<T, _>(&mut r);
		out.push(("skip_revisioned over a Cursor", x.map(|_| r.position() as usize)));
		let mut r: &[u8] = buf;
		let x = T::skip_revisioned(&mut r);
		out.push(("T::skip_revisioned", x.map(|_| n - r.len())));
		out.push(("skip_slice", skip_slice::<T>(buf)));
		let mut sr = SliceReader::new(buf);
		let x = T::skip_revisioned_slice(&mut sr);
		out.push(("T::skip_revisioned_slice", x.map(|_| sr.consumed_len())));
	}
	let mut r: &[u8] = buf;
	let x = skip_check_reader::<T, _>(&mut r);
	out.push(("skip_check_reader", x.map(|_| n - r.len())));
	let mut r = std::io::Cursor::new(buf);
	let x = skip_check_revisioned::<T, _>(&mut r);
	out.push(("skip_check_revisioned over a Cursor", x.map(|_| r.position() as usize)));
	out.push(("skip_check_slice", skip_check_slice::<T>(buf)));
	let mut r: &[u8] = buf;
	let x = T::skip_check_revisioned(&mut r);
	out.push(("T::skip_check_revisioned", x.map(|_| n - r.len())));
	out
}

/// `buf` starts with a valid encoding of `end` bytes that `T` decodes.
pub fn skip_valid<T: Subject>(buf: &[u8], end: usize, what: &str, c: &mut Ctx) -> Res {
	let mut r: &[u8] = buf;
	match T::deserialize_revisioned(&mut r) {
		Ok(_) => ensure!(
			buf.len() - r.len() == end,
			"decoding {what} consumed {} of {end} bytes: {}",
			buf.len() - r.len(),
			hex(&buf[..end])
		),
		Err(e) => fail!("decoding {what} failed: {e}: {}", hex(&buf[..end])),
	}
	for (name, x) in all_skips::<T>(buf, false) {
		c.evals += 1;
		match x {
			Ok(n) => ensure!(
				n == end,
				"{name} of {what} moved {n} bytes, decoding {end}: {} followed by {} bytes",
				hex(&buf[..end]),
				buf.len() - end
			),
			Err(e) => fail!("{name} of {what} failed: {e}: {}", hex(&buf[..end])),
		}
	}
	Ok(())
}

pub fn skip<T: Subject>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 0);
	let mut buf = v.enc();
	let end = buf.len();
	buf.extend(tail(s));
	c.key(&buf);
	c.nontrivial = end >= 3;
	c.label(len_label(end));
	c.sample(|| format!("{} -> {}", v.show(), hex(&buf[..end])));
	skip_valid::<T>(&buf, end, &v.show(), c)
}

/// Change a few bytes of `b`.
pub fn corrupt(s: &mut Src, b: &mut Vec<u8>) {
	for _ in 0..1 + s.draw(2) {
		let n = b.len();
		// favour the front, where tags and lengths live
		let at = if n == 0 {
			0
		} else if s.bool() {
			s.below(n.min(8))
		} else {
			s.below(n)
		};
		match s.weighted(&[8, 8, 4, 4, 2, 2, 2, 2, 3]) {
			0 if n > 0 => {
				b[at] = *s.pick(&[0u8, 1, 2, 3, 4, 5, 0x40, 0x60, 0x7f, 0x80, 0xc0, 0xe0, 249, 250, 251, 252, 253, 254, 255])
			}
			1 if n > 0 => b[at] ^= 1 << s.draw(7),
			2 if n > 0 => b[at] = s.draw(255) as u8,
			3 if n > 0 => b[at] = b[at].wrapping_add(if s.bool() { 1 } else { 255 }),
			4 => b.truncate(at),
			5 => b.insert(at, s.draw(255) as u8),
			6 if n > 0 => {
				let m = (at + 1 + s.below(4)).min(n);
				b.drain(at..m);
			}
			7 if n > 1 => {
				let m = (at + 1 + s.below(8)).min(n);
				let part = b[at..m].to_vec();
				let to = s.below(n);
				for (i, x) in part.into_iter().enumerate() {
					if to + i < n {
						b[to + i] = x;
					}
				}
			}
			8 if n >= 4 => {
				let at = at.min(n - 4);
				let old = u32::from_le_bytes(b[at..at + 4].try_into().unwrap());
				let v = match s.below(5) {
					0 => 0,
					1 => old.wrapping_add(1),
					2 => old.wrapping_sub(1),
					3 => u32::MAX - s.draw(8) as u32,
					_ => s.draw(2 * n as u64) as u32,
				};
				b[at..at + 4].copy_from_slice(&v.to_le_bytes());
			}
			_ => b.push(s.draw(255) as u8),
		}
	}
}

/// Corrupt bytes: a validating skip must agree with decoding.
pub fn skip_check_corrupt<T: Subject>(valid: &[u8], s: &mut Src, c: &mut Ctx) -> Res {
	let mut b = valid.to_vec();
	corrupt(s, &mut b);
	c.key(&b);
	c.nontrivial = b != valid;
	let mut r: &[u8] = &b;
	let dec = match risky(|| T::deserialize_revisioned(&mut r).map(|v| v.show())) {
		Risky::Done(d) => d,
		Risky::Oversize => {
			c.label("corrupt length asks for too much memory");
			c.nontrivial = false;
			return Ok(());
		}
		// reported under C09; a validating skip has nothing to agree with
		Risky::Panic(_) => return Ok(()),
	};
	let used = b.len() - r.len();
	c.label(if dec.is_ok() { "corrupt, accepted" } else { "corrupt, rejected" });
	c.sample(|| format!("{} -> {}", hex(&b), dec.as_ref().map(|_| used.to_string()).unwrap_or_else(|e| e.to_string())));
	let outs = match risky(|| all_skips::<T>(&b, true)) {
		Risky::Done(o) => o,
		Risky::Oversize => return Ok(()),
		Risky::Panic(m) => fail!("validating skip of {} panicked: {m}", hex(&b)),
	};
	for (name, x) in outs {
		c.evals += 1;
		match (&dec, x) {
			(Ok(v), Ok(n)) => ensure!(
				n == used,
				"{name} of {} moved {n} bytes, decoding it (to {v}) {used}",
				hex(&b)
			),
			(Err(_), Err(_)) => {}
			(Ok(v), Err(e)) => fail!("{name} rejects {} ({e}) which decodes to {v}", hex(&b)),
			(Err(e), Ok(n)) => fail!("{name} accepts {n} bytes of {} which fails to decode: {e}", hex(&b)),
		}
	}
	Ok(())
}

pub fn skip_corrupt<T: Subject>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 1);
	let b = v.enc();
	skip_check_corrupt::<T>(&b, s, c)
}

// ---------------------------------------------------------------- bad input

/// Strict prefixes of a valid encoding must fail everywhere.
pub fn prefixes<T: Subject>(b: &[u8], what: &str, s: &mut Src, c: &mut Ctx) -> Res {
	c.key(b);
	c.nontrivial = b.len() >= 3;
	let cuts: Vec<usize> = if b.len() <= 16 {
		(0..b.len()).collect()
	} else {
		let mut v: Vec<usize> = (0..3).chain(b.len() - 3..b.len()).collect();
		v.extend((0..8).map(|_| s.below(b.len())));
		v
	};
	for n in cuts {
		let p = &b[..n];
		let mut r: &[u8] = p;
		match risky(|| T::deserialize_revisioned(&mut r).map(|v| v.show())) {
			Risky::Done(Ok(v)) => {
				fail!("decoding the first {n} of the {} bytes {} of {what} gave {v}", b.len(), hex(b))
			}
			Risky::Done(Err(_)) | Risky::Oversize => {}
			Risky::Panic(m) => fail!("decoding the first {n} bytes of {} panicked: {m}", hex(b)),
		}
		match risky(|| all_skips::<T>(p, false)) {
			Risky::Done(os) => {
				for (name, x) in os {
					c.evals += 1;
					if let Ok(m) = x {
						fail!("{name} accepted {m} of the first {n} bytes of {} ({what})", hex(b))
					}
				}
			}
			Risky::Oversize => {}
			Risky::Panic(m) => fail!("skipping the first {n} bytes of {} panicked: {m}", hex(b)),
		}
	}
	Ok(())
}

pub fn prefix<T: Subject>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 1);
	let b = v.enc();
	c.sample(|| format!("{} -> prefixes of {}", v.show(), hex(&b)));
	prefixes::<T>(&b, &v.show(), s, c)
}

/// Bytes are accepted exactly when they denote a value, as that value.
pub fn verdict<T: Subject>(
	b: &[u8],
	read: impl FnOnce(&mut &[u8]) -> Got<T>,
	used: usize,
	dec: &Result<T, Error>,
	c: &mut Ctx,
) -> Res {
	let mut r: &[u8] = b;
	match (read(&mut r), dec) {
		(Ok(want), Ok(v)) => {
			c.label("denotes a value");
			let n = b.len() - r.len();
			ensure!(
				want.same(v) && n == used,
				"{} decodes to {} ({used} bytes), but denotes {} ({n} bytes)",
				hex(b),
				v.show(),
				want.show()
			);
		}
		(Ok(want), Err(e)) => fail!("{} denotes {}, but decoding fails: {e}", hex(b), want.show()),
		(Err(Stop::Bad), Ok(v)) => fail!("{} denotes no value, but decodes to {}", hex(b), v.show()),
		(Err(Stop::Bad), Err(_)) => c.label("denotes nothing"),
		(Err(Stop::Unknown), _) => c.label("denotes something unspecified"),
	}
	Ok(())
}

/// Corrupted bytes either fail or give a value that is stable.
pub fn accepted_is_stable<T: Subject>(
	b: &[u8],
	read: impl FnOnce(&mut &[u8]) -> Got<T>,
	strict: bool,
	c: &mut Ctx,
) -> Res {
	let mut r: &[u8] = b;
	let dec = match risky(|| T::deserialize_revisioned(&mut r)) {
		Risky::Done(d) => d,
		Risky::Oversize => {
			c.label("corrupt length asks for too much memory");
			c.nontrivial = false;
			return Ok(());
		}
		Risky::Panic(m) => fail!("decoding {} panicked: {m}", hex(b)),
	};
	let used = b.len() - r.len();
	// skipping may accept or reject, but not panic
	match risky(|| all_skips::<T>(b, false)) {
		Risky::Panic(m) => fail!("skipping {} panicked: {m}", hex(b)),
		_ => {}
	}
	c.evals += 1;
	verdict(b, read, used, &dec, c)?;
	let v = match dec {
		Err(_) => {
			c.label("corrupt, rejected");
			return Ok(());
		}
		Ok(v) => v,
	};
	c.label("corrupt, accepted");
	if std::any::type_name::<T>().contains("Polygon") && format!("{v:?}").contains("NaN") {
		// geo re-closes the rings of a polygon whenever one is made, and a NaN
		// corner never equals itself: such a value has no stable form at all.
		return Ok(());
	}
	let again = match no_panic(|| revision::to_vec(&v)) {
		Ok(Ok(a)) => a,
		Ok(Err(e)) => fail!("{} decodes to {} which fails to encode: {e}", hex(b), v.show()),
		Err(m) => fail!("{} decodes to {} whose encoding panics: {m}", hex(b), v.show()),
	};
	match no_panic(|| revision::from_slice::<T>(&again)) {
		Ok(Ok(w)) => ensure!(
			v.same(&w),
			"{} decodes to {}, which encodes to {}, which decodes to {}",
			hex(b),
			v.show(),
			hex(&again),
			w.show()
		),
		Ok(Err(e)) => {
			fail!("{} decodes to {}, which encodes to {}, which fails: {e}", hex(b), v.show(), hex(&again))
		}
		Err(m) => fail!("{} decodes to {}, which encodes to {}, which panics: {m}", hex(b), v.show(), hex(&again)),
	}
	if strict {
		let same_len = v.enc().len() == used;
		if FIXED || same_len {
			ensure!(
				v.enc() == b[..used],
				"{} was accepted as {}, whose encoding is {}",
				hex(&b[..used]),
				v.show(),
				hex(&v.enc())
			);
		} else {
			ensure!(
				v.enc().len() < used,
				"{} was accepted as {}, whose encoding {} is longer",
				hex(&b[..used]),
				v.show(),
				hex(&v.enc())
			);
		}
	}
	Ok(())
}

pub fn corrupted<T: Subject>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 1);
	let mut b = v.enc();
	let old = b.clone();
	corrupt(s, &mut b);
	c.key(&b);
	c.nontrivial = b != old;
	c.sample(|| format!("{} -> {} corrupted to {}", v.show(), hex(&old), hex(&b)));
	accepted_is_stable(&b, T::read, T::STRICT, c)
}

//! C08: corrupted indexed and optimised payloads.
use checks::ix::{Carrier, Coll, Kind};
use checks::*;
use engine::{Risky, risky};
use revision::optimised::{IndexedMapWalker, IndexedSeqWalker, IndexedStructWalker};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

ix_collections!(ix_decl);

/// What an independent reader makes of a payload.
#[derive(Debug, PartialEq)]
enum View {
	/// must be refused
	Bad(&'static str),
	/// no offset table
	Plain(u64),
	/// sound: these are the entries
	Good(Vec<(Vec<u8>, Vec<u8>)>),
	/// neither required nor forbidden (equal offsets)
	Odd,
}

fn read_len(p: &[u8]) -> Result<(u64, usize), &'static str> {
	let Some(&t) = p.get(1) else { return Err("no count") };
	let w = match t {
		0..=250 => return Ok((t as u64, 2)),
		251 => 2,
		252 => 4,
		253 => 8,
		_ => return Err("invalid count"),
	};
	if p.len() < 2 + w {
		return Err("count cut short");
	}
	let mut b = [0u8; 8];
	b[..w].copy_from_slice(&p[2..2 + w]);
	Ok((u64::from_le_bytes(b), 2 + w))
}
fn u32_at(p: &[u8], i: usize) -> usize {
	u32::from_le_bytes(p[i..i + 4].try_into().unwrap()) as usize
}
/// Entries cut out of a region by offsets, or why not.
fn cut(offs: &[usize], region: &[u8], odd: &mut bool) -> Result<Vec<Vec<u8>>, &'static str> {
	for w in offs.windows(2) {
		if w[1] < w[0] {
			return Err("offsets out of order");
		}
		*odd |= w[1] == w[0];
	}
	if offs.iter().any(|o| *o > region.len()) {
		return Err("offset outside");
	}
	Ok((0..offs.len()).map(|i| region[offs[i]..*offs.get(i + 1).unwrap_or(&region.len())].to_vec()).collect())
}
fn view_map(p: &[u8]) -> View {
	let Some(&f) = p.first() else { return View::Bad("empty") };
	let (n, at) = match read_len(p) {
		Ok(x) => x,
		Err(e) => return View::Bad(e),
	};
	if f & 1 == 0 {
		return View::Plain(n);
	}
	let need = n as u128 * 8 + 8 + at as u128;
	if need > p.len() as u128 {
		return View::Bad("offset table cut short");
	}
	let n = n as usize;
	let ko: Vec<usize> = (0..n).map(|i| u32_at(p, at + 8 * i)).collect();
	let vo: Vec<usize> = (0..n).map(|i| u32_at(p, at + 8 * i + 4)).collect();
	let t = at + 8 * n;
	let (kl, vl) = (u32_at(p, t), u32_at(p, t + 4));
	let body = &p[t + 8..];
	if kl + vl > body.len() {
		return View::Bad("regions cut short");
	}
	let mut odd = false;
	let keys = match cut(&ko, &body[..kl], &mut odd) {
		Ok(k) => k,
		Err(e) => return View::Bad(e),
	};
	let vals = match cut(&vo, &body[kl..kl + vl], &mut odd) {
		Ok(k) => k,
		Err(e) => return View::Bad(e),
	};
	if keys.windows(2).any(|w| w[1] <= w[0]) {
		return View::Bad("keys not strictly ascending");
	}
	if odd {
		return View::Odd;
	}
	View::Good(keys.into_iter().zip(vals).collect())
}
fn view_seq(p: &[u8]) -> View {
	let Some(&f) = p.first() else { return View::Bad("empty") };
	let (n, at) = match read_len(p) {
		Ok(x) => x,
		Err(e) => return View::Bad(e),
	};
	if f & 1 == 0 {
		return View::Plain(n);
	}
	if n as u128 * 4 + at as u128 > p.len() as u128 {
		return View::Bad("offset table cut short");
	}
	let n = n as usize;
	let offs: Vec<usize> = (0..n).map(|i| u32_at(p, at + 4 * i)).collect();
	let mut odd = false;
	match cut(&offs, &p[at + 4 * n..], &mut odd) {
		Ok(_) if odd => View::Odd,
		Ok(e) => View::Good(e.into_iter().map(|e| (e, vec![])).collect()),
		Err(e) => View::Bad(e),
	}
}
fn view_struct(p: &[u8], n: usize) -> View {
	if p.len() < 4 * n {
		return View::Bad("offset table cut short");
	}
	let offs: Vec<usize> = (0..n).map(|i| u32_at(p, 4 * i)).collect();
	let mut odd = false;
	match cut(&offs, p, &mut odd) {
		Err(e) => View::Bad(e),
		Ok(_) if n > 0 && offs[0] < 4 * n => View::Bad("field inside the offset table"),
		Ok(_) if odd => View::Odd,
		Ok(e) => View::Good(e.into_iter().map(|e| (e, vec![])).collect()),
	}
}

/// Edit one of the little-endian u32 words in `b[at..at + 4 * n]`.
fn edit_word(s: &mut Src, b: &mut [u8], at: usize, n: usize, body: usize) {
	let i = s.below(n);
	let get = |b: &[u8], i: usize| u32::from_le_bytes(b[at + 4 * i..at + 4 * i + 4].try_into().unwrap());
	let old = get(b, i);
	let j = s.below(n);
	let v = match s.below(9) {
		0 => 0,
		1 => old.wrapping_add(1),
		2 => old.wrapping_sub(1),
		3 => get(b, j),
		4 => body as u32,
		5 => (body as u32).wrapping_add(1),
		6 => u32::MAX - s.draw(8) as u32,
		7 => 1 << s.draw(31),
		_ => s.draw(body as u64 + 4) as u32,
	};
	if s.chance(1, 5) {
		let o = get(b, j);
		b[at + 4 * j..at + 4 * j + 4].copy_from_slice(&old.to_le_bytes());
		b[at + 4 * i..at + 4 * i + 4].copy_from_slice(&o.to_le_bytes());
	} else {
		b[at + 4 * i..at + 4 * i + 4].copy_from_slice(&v.to_le_bytes());
	}
}

/// The count, written in some width, and sometimes huge.
fn edit_count(s: &mut Src, b: &mut Vec<u8>) {
	let Ok((n, at)) = read_len(b) else { return };
	let v: u64 = match s.weighted(&[4, 2, 2, 6, 2]) {
		0 => n,
		1 => n.wrapping_add(1),
		2 => n.saturating_sub(1),
		3 => {
			let k = *s.pick(&[1u64, 2, 4, 8, 16]);
			let base = if k == 1 { u64::MAX } else { (u64::MAX / k).wrapping_add(s.draw(1)) };
			base.wrapping_sub(s.draw(20)).wrapping_add(s.draw(2))
		}
		_ => s.uint(64) as u64,
	};
	let mut w = match s.below(4) {
		0 if v <= 250 => vec![v as u8],
		1 if v <= 0xffff => [vec![251], (v as u16).to_le_bytes().to_vec()].concat(),
		2 if v <= 0xffff_ffff => [vec![252], (v as u32).to_le_bytes().to_vec()].concat(),
		_ => [vec![253], v.to_le_bytes().to_vec()].concat(),
	};
	if s.chance(1, 20) {
		w = vec![*s.pick(&[254u8, 255])];
	}
	b.splice(1..at.min(b.len()), w);
}

fn corrupt_payload(s: &mut Src, b: &mut Vec<u8>, kind: Kind) {
	for _ in 0..1 + s.draw(1) {
		let (n, at) = read_len(b).unwrap_or((0, 0));
		let words = match kind {
			Kind::Map => 2 * n.min(5000) as usize + 2,
			_ => n.min(5000) as usize,
		};
		let table = b.first().is_some_and(|f| f & 1 == 1) && n > 0 && n < 5000 && at + 4 * words <= b.len();
		match s.weighted(&[8, 3, 4, 2, 2, 1]) {
			0 if table => {
				let body = b.len() - at - 4 * words;
				edit_word(s, b, at, words, body);
			}
			1 => edit_count(s, b),
			2 => generic::corrupt(s, b),
			3 => {
				let k = s.below(b.len() + 1);
				b.truncate(k);
			}
			4 => {
				if let Some(f) = b.first_mut() {
					*f = *s.pick(&[0u8, 1, 2, 3, 0x80, 0x81, 254, 255]);
				}
			}
			_ if table && kind == Kind::Map => {
				// exchange two keys, or repeat one, keeping the offsets
				let t = at + 8 * n as usize + 8;
				if t + 2 < b.len() {
					let i = t + s.below(b.len() - t);
					let j = t + s.below(b.len() - t);
					if s.bool() {
						b.swap(i, j);
					} else {
						b[j] = b[i];
					}
				}
			}
			_ => {
				let k = 1 + s.below(9);
				let extra = s.bytes(k);
				b.extend(extra);
			}
		}
	}
}

fn within(p: &[u8], b: &[u8]) -> bool {
	let (a, e) = (p.as_ptr() as usize, p.as_ptr() as usize + p.len());
	let (x, y) = (b.as_ptr() as usize, b.as_ptr() as usize + b.len());
	b.is_empty() || (x >= a && y <= e)
}

/// A search that may or may not be consistent with the keys.
fn order(mode: usize, k: &[u8], probe: &[u8], salt: u8) -> std::cmp::Ordering {
	use std::cmp::Ordering::*;
	match mode {
		0 => k.cmp(probe),
		1 => Less,
		2 => Greater,
		3 => Equal,
		_ => match (k.len() as u8 ^ k.first().copied().unwrap_or(7) ^ salt) % 3 {
			0 => Less,
			1 => Greater,
			_ => Equal,
		},
	}
}

fn poke_map(p: &[u8], validated: bool, s: &mut Src, cx: &mut Ctx) -> Res {
	let how = if validated { "from_payload" } else { "from_payload_unvalidated" };
	let view = view_map(p);
	let r = no_panic(|| if validated { IndexedMapWalker::<u8, u8>::from_payload(p) } else { IndexedMapWalker::from_payload_unvalidated(p) });
	let w = match r {
		Err(e) => fail!("map {how} panicked: {e}: {}", hex(p)),
		Ok(Err(e)) => {
			cx.label_if(validated, "map refused");
			match view {
				View::Good(m) => fail!("map {how} refused a sound payload of {} entries: {e}: {}", m.len(), hex(p)),
				View::Plain(n) => fail!("map {how} refused a payload of {n} entries without offset table: {e}: {}", hex(p)),
				_ => return Ok(()),
			}
		}
		Ok(Ok(w)) => w,
	};
	if validated {
		if let View::Bad(why) = view {
			fail!("map {how} accepted a payload although: {why}: {}", hex(p));
		}
	}
	cx.label_if(validated, "map opened");
	cx.label_if(!validated && matches!(view, View::Bad(_)), "unsound map opened unvalidated");
	let key = {
		let n = s.below(5);
		s.bytes(n)
	};
	let salt = s.draw(255) as u8;
	let mode = s.below(5);
	let hint = *s.pick(&[None, Some(0u32), Some(1), Some(3), Some(7), Some(8), Some(u32::MAX)]);
	let r = no_panic(|| -> Res {
		let n = w.len();
		ensure!(w.is_empty() == (n == 0), "is_empty() is {} with {n} entries: {}", w.is_empty(), hex(p));
		if let Some(b) = w.legacy_body() {
			ensure!(within(p, b), "legacy_body() lies outside of the payload");
		}
		if let Some(e) = w.entries() {
			let mut got = Vec::new();
			for (k, v) in e {
				ensure!(within(p, k) && within(p, v), "an entry lies outside of the payload: {}", hex(p));
				got.push((k.to_vec(), v.to_vec()));
			}
			ensure!(got.len() == n, "{} entries() of {n}: {}", got.len(), hex(p));
			if let View::Good(m) = &view {
				ensure!(got == *m, "entries() are {got:02x?} instead of {m:02x?}: {}", hex(p));
				for (i, (k, v)) in m.iter().enumerate() {
					let f = w.find_value_bytes(|x| x.cmp(k)).ok().flatten();
					ensure!(f == Some(&v[..]), "entry {i} is not found by its key: {}", hex(p));
				}
			}
		}
		if let Ok(Some(v)) = w.find_value_bytes(|k| order(mode, k, &key, salt)) {
			ensure!(within(p, v), "found value lies outside of the payload: {}", hex(p));
		}
		if let Ok(h) = w.find_value_bytes_with_hint(hint, |k| order(mode, k, &key, salt)) {
			if let Some(v) = h.value {
				ensure!(within(p, v), "found value lies outside of the payload: {}", hex(p));
			}
		}
		Ok(())
	});
	match r {
		Ok(r) => r,
		Err(e) => fail!("an accessor of a map opened with {how} panicked: {e}: {}", hex(p)),
	}
}

fn poke_seq(p: &[u8], s: &mut Src, cx: &mut Ctx) -> Res {
	let view = view_seq(p);
	let w = match no_panic(|| IndexedSeqWalker::<u8>::from_payload(p)) {
		Err(e) => fail!("sequence from_payload panicked: {e}: {}", hex(p)),
		Ok(Err(e)) => match view {
			View::Good(_) | View::Plain(_) => fail!("sequence from_payload refused a sound payload: {e}: {}", hex(p)),
			_ => {
				cx.label("sequence refused");
				// opening without validation must not panic either
				if let Err(e) = no_panic(|| IndexedSeqWalker::<u8>::from_payload_unvalidated(p).is_ok()) {
					fail!("sequence from_payload_unvalidated panicked: {e}: {}", hex(p));
				}
				return Ok(());
			}
		},
		Ok(Ok(w)) => w,
	};
	if let View::Bad(why) = view {
		fail!("sequence from_payload accepted a payload although: {why}: {}", hex(p));
	}
	cx.label("sequence opened");
	let i = *s.pick(&[0usize, 1, 7, 8, usize::MAX, usize::MAX / 4 + 1]);
	let r = no_panic(|| -> Res {
		ensure!(within(p, w.body()), "body() lies outside of the payload");
		let n = w.len();
		for k in (0..n.min(400)).chain([i, n, n.wrapping_sub(1)]) {
			match w.element_bytes(k) {
				Ok(b) => {
					ensure!(within(p, b), "element {k} lies outside of the payload");
					if let View::Good(m) = &view {
						ensure!(m.get(k).map(|x| &x.0[..]) == Some(b), "element {k} is {}: {}", hex(b), hex(p));
					}
				}
				Err(_) => ensure!(k >= n || !w.is_indexed(), "element {k} of {n} is refused: {}", hex(p)),
			}
		}
		Ok(())
	});
	match r {
		Ok(r) => r,
		Err(e) => fail!("an accessor of a validated sequence panicked: {e}: {}", hex(p)),
	}
}

fn poke_struct(p: &[u8], n: usize, s: &mut Src, cx: &mut Ctx) -> Res {
	let view = view_struct(p, n);
	let w = match no_panic(|| IndexedStructWalker::from_payload(p, 1, n as u16)) {
		Err(e) => fail!("struct from_payload panicked: {e}: {n} fields: {}", hex(p)),
		Ok(Err(e)) => match view {
			View::Good(_) => fail!("struct from_payload refused a sound payload: {e}: {n} fields: {}", hex(p)),
			_ => {
				cx.label("struct refused");
				if let Err(e) = no_panic(|| IndexedStructWalker::from_payload_unvalidated(p, 1, n as u16).is_ok()) {
					fail!("struct from_payload_unvalidated panicked: {e}: {n} fields: {}", hex(p));
				}
				return Ok(());
			}
		},
		Ok(Ok(w)) => w,
	};
	if let View::Bad(why) = view {
		fail!("struct from_payload accepted a payload although: {why}: {n} fields: {}", hex(p));
	}
	cx.label("struct opened");
	let i = *s.pick(&[0u16, 1, 8, 65535]);
	let r = no_panic(|| -> Res {
		for k in (0..n as u16).chain([i, n as u16]) {
			match w.field_bytes(k) {
				Ok(b) => {
					ensure!(within(p, b), "field {k} lies outside of the payload");
					if let View::Good(m) = &view {
						ensure!(m.get(k as usize).map(|x| &x.0[..]) == Some(b), "field {k} is {}: {}", hex(b), hex(p));
					}
				}
				Err(_) => ensure!(k as usize >= n, "field {k} of {n} is refused: {}", hex(p)),
			}
		}
		Ok(())
	});
	match r {
		Ok(Ok(())) => {}
		Ok(e) => return e,
		Err(e) => fail!("an accessor of a validated struct panicked: {e}: {n} fields: {}", hex(p)),
	}
	match risky(|| (w.decode_field::<String>(i).is_ok(), w.decode_field::<Vec<u64>>(i).is_ok(), w.decode_field::<Option<u16>>(i).is_ok())) {
		Risky::Panic(e) => fail!("decode_field of a validated struct panicked: {e}: {n} fields: {}", hex(p)),
		_ => Ok(()),
	}
}

fn raw(s: &mut Src, n: usize) -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = (0..n)
		.map(|_| {
			let k = 1 + s.below(6);
			s.bytes(k)
		})
		.collect();
	if s.chance(1, 6) && !v.is_empty() {
		v[0] = vec![];
	}
	v
}

pub fn payload_map(s: &mut Src, cx: &mut Ctx) -> Res {
	let n = match s.weighted(&[3, 3, 4, 2]) {
		0 => s.below(4),
		1 => s.below(9),
		2 => s.range(7, 12),
		_ => s.range(12, 40),
	};
	let mut keys = raw(s, n);
	keys.sort();
	keys.dedup();
	let vals = raw(s, keys.len());
	let mut p = Vec::new();
	// also short maps with an offset table
	refenc::indexed_map(keys.iter().cloned().zip(vals).collect(), &mut p);
	if p[0] == 0 && s.bool() {
		p = forced(&keys, s);
	}
	let m = s.draw(9);
	if m > 0 {
		corrupt_payload(s, &mut p, Kind::Map);
	}
	cx.key(&p);
	cx.nontrivial = p.first().is_some_and(|f| f & 1 == 1) && p.len() > 10;
	cx.label_if(matches!(view_map(&p), View::Bad(_)), "unsound payload");
	cx.label_if(matches!(view_map(&p), View::Good(_)), "sound payload");
	cx.sample(|| format!("map {:?}: {}", view_map(&p), hex(&p)));
	for v in [true, false] {
		cx.evals += 1;
		poke_map(&p, v, s, cx)?;
	}
	Ok(())
}
fn forced(keys: &[Vec<u8>], s: &mut Src) -> Vec<u8> {
	let mut p = vec![1, keys.len() as u8];
	let mut ko = 0u32;
	let mut vo = 0u32;
	let vals = raw(s, keys.len());
	for (k, v) in keys.iter().zip(&vals) {
		p.extend(ko.to_le_bytes());
		p.extend(vo.to_le_bytes());
		ko += k.len() as u32;
		vo += v.len() as u32;
	}
	p.extend(ko.to_le_bytes());
	p.extend(vo.to_le_bytes());
	p.extend(keys.concat());
	p.extend(vals.concat());
	p
}

pub fn payload_seq(s: &mut Src, cx: &mut Ctx) -> Res {
	let n = match s.weighted(&[3, 4, 2]) {
		0 => s.below(8),
		1 => s.range(8, 12),
		_ => s.range(12, 40),
	};
	let e = raw(s, n);
	let mut p = Vec::new();
	refenc::indexed_seq(e, &mut p);
	if s.draw(9) > 0 {
		corrupt_payload(s, &mut p, Kind::Seq);
	}
	cx.key(&p);
	cx.nontrivial = p.first().is_some_and(|f| f & 1 == 1) && p.len() > 6;
	cx.label_if(matches!(view_seq(&p), View::Bad(_)), "unsound payload");
	cx.label_if(matches!(view_seq(&p), View::Good(_)), "sound payload");
	cx.sample(|| format!("sequence {:?}: {}", view_seq(&p), hex(&p)));
	poke_seq(&p, s, cx)
}

pub fn payload_struct(s: &mut Src, cx: &mut Ctx) -> Res {
	let mut n = s.below(12);
	let f = raw(s, n);
	let mut p = refenc::indexed_struct(&f);
	for _ in 0..s.draw(2) {
		match s.weighted(&[6, 2, 1, 1]) {
			0 if n > 0 && p.len() >= 4 * n => {
				let body = p.len();
				edit_word(s, &mut p, 0, n, body);
			}
			1 => generic::corrupt(s, &mut p),
			2 => n = s.below(14),
			_ => {
				let k = s.below(p.len() + 1);
				p.truncate(k);
			}
		}
	}
	cx.key(&[&p[..], &[n as u8]].concat());
	cx.nontrivial = n > 0 && p.len() > 4;
	cx.label_if(matches!(view_struct(&p, n), View::Bad(_)), "unsound payload");
	cx.label_if(matches!(view_struct(&p, n), View::Good(_)), "sound payload");
	cx.sample(|| format!("struct of {n} fields {:?}: {}", view_struct(&p, n), hex(&p)));
	poke_struct(&p, n, s, cx)
}

/// Run something over corrupted bytes; only panics count.
fn survives(what: &str, b: &[u8], cx: &mut Ctx, f: impl FnOnce() -> bool) -> Res {
	cx.evals += 1;
	match risky(f) {
		Risky::Done(true) => cx.label("still accepted"),
		Risky::Done(false) => cx.label("refused"),
		Risky::Oversize => cx.label("oversized allocation (excluded)"),
		Risky::Panic(p) => fail!("{what} panicked: {p}: {}", hex(b)),
	}
	Ok(())
}

fn record<T: SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned>(b: &[u8], cx: &mut Ctx) -> Res {
	let n = tname::<T>();
	survives(&format!("decoding {n}"), b, cx, || revision::from_slice::<T>(b).is_ok())?;
	survives(&format!("skipping {n}"), b, cx, || {
		generic::skips_of::<T>(b);
		true
	})
}

/// A struct holding an indexed collection, with its bytes corrupted.
fn carrier_corrupt<T: Carrier>(s: &mut Src, cx: &mut Ctx) -> Res {
	let items = ix::gen_items::<T::C>(s);
	let z = String::gen_(s, 3);
	let (enc, payload, _) = ix::encode::<T>(3, T::C::build(&items), &z)?;
	let mut b = enc.clone();
	if s.chance(3, 4) {
		// aim at the indexed part, and make the struct's length fit again
		let at = enc.windows(payload.len()).position(|w| w == payload).unwrap();
		let mut p = payload.clone();
		corrupt_payload(s, &mut p, T::C::KIND);
		b.splice(at..at + payload.len(), p);
		if s.chance(4, 5) {
			let h = if FIXED { 2 } else { 1 };
			let l = (b.len() - h - 4) as u32;
			b[h..h + 4].copy_from_slice(&l.to_le_bytes());
		}
	} else {
		generic::corrupt(s, &mut b);
	}
	cx.key(&b);
	cx.nontrivial = b.len() > 8 && b != enc;
	cx.sample(|| format!("{} corrupted to {}", tname::<T>(), hex(&b)));
	record::<T>(&b, cx)?;
	for oa in [0, 1] {
		for oc in 0..5 {
			survives(&format!("walking {} (a:{oa} c:{oc})", tname::<T>()), &b, cx, || {
				T::walk(&mut SliceReader::new(&b), oa, oc, 0).is_ok()
			})?;
		}
	}
	Ok(())
}

mod records {
	use super::*;
	#[revisioned(revision(1, optimised))]
	pub struct Seq {
		pub a: u8,
		pub s: String,
		pub v: Vec<u64>,
		pub o: Option<Box<u32>>,
	}
	#[revisioned(revision(1, optimised))]
	pub enum Choice {
		#[revision(size = "inline")]
		Nothing,
		#[revision(size = "fixed(4)")]
		Four([u8; 4]),
		#[revision(size = "varlen")]
		Text(String),
		#[revision(size = "varlen")]
		Pair(Seq, u64),
		#[revision(size = "varlen")]
		Named { a: String, b: Vec<bool> },
		#[revision(size = "fixed(9)")]
		Nine { a: [u8; 8], b: bool },
	}
	#[revisioned(revision(1), revision(2, optimised), revision(3, optimised, indexed_struct))]
	pub struct Record {
		pub id: u64,
		pub name: String,
		#[revision(start = 2)]
		pub inner: Option<Box<Seq2>>,
		#[revision(start = 3, indexed_map)]
		pub m: BTreeMap<String, u64>,
		#[revision(start = 3, indexed_seq)]
		pub q: Vec<String>,
		#[revision(start = 3, indexed_set)]
		pub t: BTreeSet<u32>,
		#[revision(start = 3)]
		pub c: Vec<Choice>,
		#[revision(start = 3)]
		pub last: u16,
	}
	#[revisioned(revision(1, optimised))]
	pub struct Seq2 {
		pub x: Seq,
		pub y: u16,
	}
	pub fn seq(s: &mut Src) -> Seq {
		Seq { a: u8::gen_(s, 2), s: String::gen_(s, 3), v: Vec::gen_(s, 3), o: Option::gen_(s, 2) }
	}
	pub fn choice(s: &mut Src) -> Choice {
		match s.below(6) {
			0 => Choice::Nothing,
			1 => Choice::Four(<[u8; 4]>::gen_(s, 2)),
			2 => Choice::Text(String::gen_(s, 2)),
			3 => Choice::Pair(seq(s), u64::gen_(s, 2)),
			4 => Choice::Named { a: String::gen_(s, 2), b: Vec::gen_(s, 3) },
			_ => Choice::Nine { a: <[u8; 8]>::gen_(s, 2), b: s.bool() },
		}
	}
	pub fn rec(s: &mut Src) -> Record {
		Record {
			id: u64::gen_(s, 2),
			name: String::gen_(s, 2),
			inner: if s.bool() { Some(Box::new(Seq2 { x: seq(s), y: u16::gen_(s, 2) })) } else { None },
			m: ix::gen_list::<(String, u64)>(s).into_iter().collect(),
			q: ix::gen_list(s),
			t: ix::gen_list::<u32>(s).into_iter().collect(),
			c: (0..s.below(4)).map(|_| choice(s)).collect(),
			last: u16::gen_(s, 2),
		}
	}
}
use records::*;

macro_rules! ops {
	($b:ident, $cx:ident, $t:ident; plain $(($d:ident $s:ident $w:ident $iw:ident $ib:ident))*; viewed $(($d2:ident $s2:ident $w2:ident $iw2:ident $ib2:ident $len:ident))*) => {{
		let open = |r: &mut SliceReader<'_>| $t::walk_revisioned(r).map(|_| ());
		survives(concat!("opening a walker on ", stringify!($t)), $b, $cx, || open(&mut SliceReader::new($b)).is_ok())?;
		macro_rules! one {
			($m:ident, $w0:ident, $e:expr) => {
				survives(concat!(stringify!($t), "Walker::", stringify!($m)), $b, $cx, || {
					let mut r = SliceReader::new($b);
					match $t::walk_revisioned(&mut r) {
						#[allow(unused_mut)]
						Ok(mut $w0) => $e,
						Err(_) => false,
					}
				})?;
			};
		}
		$(
			one!($d, w, w.$d().is_ok());
			one!($s, w, w.$s().is_ok());
			one!($w, w, w.$w().is_ok());
			one!($iw, w, w.$iw().is_ok());
			one!($ib, w, w.$ib().is_ok());
		)*
		$(
			one!($d2, w, w.$d2().is_ok());
			one!($s2, w, w.$s2().is_ok());
			one!($w2, w, w.$w2().is_ok_and(|v| v.walker().is_ok_and(|k| $len!(k))));
			one!($iw2, w, w.$iw2().is_ok_and(|v| v.walker().is_ok_and(|k| $len!(k))));
			one!($ib2, w, w.$ib2().is_ok());
		)*
		// all fields in a row
		survives(concat!(stringify!($t), "Walker, field after field"), $b, $cx, || {
			let mut r = SliceReader::new($b);
			match $t::walk_revisioned(&mut r) {
				Ok(mut w) => {
					let mut ok = true;
					$( ok &= w.$d().is_ok(); )*
					$( ok &= w.$d2().is_ok(); )*
					ok
				}
				Err(_) => false,
			}
		})?;
	}};
}
macro_rules! use_map {
	($k:ident) => {{
		let n = $k.len();
		if let Some(e) = $k.entries() {
			for (a, _) in e {
				let _ = $k.find_value_bytes(|x| x.cmp(a));
				let _ = $k.find_value_bytes_with_hint(Some(n as u32), |x| x.cmp(a));
			}
		}
		true
	}};
}
macro_rules! use_seq {
	($k:ident) => {{
		for i in 0..$k.len().min(500) {
			let _ = $k.element_bytes(i);
		}
		true
	}};
}

fn rewrite(s: &mut Src, enc: &[u8]) -> Vec<u8> {
	let mut b = enc.to_vec();
	let h = if FIXED { 2 } else { 1 };
	// the header words of the record: length and field offsets
	if s.chance(1, 2) && b.len() >= h + 8 {
		let words = ((b.len() - h) / 4).min(10);
		let body = b.len() - h - 4;
		edit_word(s, &mut b, h, words, body);
		return b;
	}
	generic::corrupt(s, &mut b);
	if s.chance(1, 2) && b.len() >= h + 4 {
		let l = (b.len() - h - 4) as u32;
		b[h..h + 4].copy_from_slice(&l.to_le_bytes());
	}
	b
}

pub fn record_corrupt(s: &mut Src, cx: &mut Ctx) -> Res {
	let enc = revision::to_vec(&rec(s)).unwrap();
	let mut b = rewrite(s, &enc);
	if s.chance(1, 6) && !b.is_empty() {
		b[0] = *s.pick(&[1u8, 2, 3]);
	}
	let b = &b[..];
	cx.key(b);
	cx.nontrivial = b.len() > 8 && *b != enc[..];
	cx.sample(|| format!("indexed struct corrupted to {}", hex(b)));
	record::<Record>(b, cx)?;
	ops!(b, cx, Record;
		plain (decode_id skip_id walk_id into_walk_id into_id_bytes) (decode_name skip_name walk_name into_walk_name into_name_bytes)
			(decode_inner skip_inner walk_inner into_walk_inner into_inner_bytes) (decode_c skip_c walk_c into_walk_c into_c_bytes)
			(decode_last skip_last walk_last into_walk_last into_last_bytes);
		viewed (decode_m skip_m walk_m into_walk_m into_m_bytes use_map) (decode_q skip_q walk_q into_walk_q into_q_bytes use_seq)
			(decode_t skip_t walk_t into_walk_t into_t_bytes use_seq));
	Ok(())
}
fn seq_corrupt(s: &mut Src, cx: &mut Ctx) -> Res {
	let enc = revision::to_vec(&seq(s)).unwrap();
	let b = rewrite(s, &enc);
	let b = &b[..];
	cx.key(b);
	cx.nontrivial = b.len() > 8 && *b != enc[..];
	cx.sample(|| format!("optimised struct corrupted to {}", hex(b)));
	record::<Seq>(b, cx)?;
	ops!(b, cx, Seq;
		plain (decode_a skip_a walk_a into_walk_a into_a_bytes) (decode_s skip_s walk_s into_walk_s into_s_bytes)
			(decode_v skip_v walk_o into_walk_o into_v_bytes) (decode_o skip_o walk_o into_walk_o into_o_bytes);
		viewed);
	Ok(())
}
pub fn choice_corrupt(s: &mut Src, cx: &mut Ctx) -> Res {
	let enc = revision::to_vec(&choice(s)).unwrap();
	let mut b = enc.clone();
	let h = if FIXED { 2 } else { 1 };
	match s.weighted(&[3, 3, 3]) {
		0 => b[h] = s.draw(255) as u8,
		1 if b.len() >= h + 5 => {
			let body = b.len() - h - 5;
			edit_word(s, &mut b, h + 1, 1, body);
		}
		_ => generic::corrupt(s, &mut b),
	}
	let b = &b[..];
	cx.key(b);
	cx.nontrivial = b.len() > 1 && *b != enc[..];
	cx.sample(|| format!("optimised enum corrupted to {}", hex(b)));
	record::<Choice>(b, cx)?;
	macro_rules! one {
		($($m:ident)*) => { $(
			survives(concat!("ChoiceWalker::", stringify!($m)), b, cx, || {
				let mut r = SliceReader::new(b);
				match Choice::walk_revisioned(&mut r) {
					Ok(w) => w.$m().is_ok(),
					Err(_) => false,
				}
			})?;
		)* };
	}
	one!(into_nothing decode_nothing into_four decode_four four_view into_text decode_text text_view pair_view named_view nine_view);
	survives("ChoiceWalker::discriminant", b, cx, || {
		let mut r = SliceReader::new(b);
		match Choice::walk_revisioned(&mut r) {
			Ok(w) => Choice::walk_revisioned_variant_name(w.revision(), w.discriminant()).is_some(),
			Err(_) => false,
		}
	})
}

macro_rules! each {
	($cs:ident, $id:ident, $w:expr, $($c:ident)*) => { $(
		$cs.add(format!("corrupt {} {}", stringify!($c), tname::<<$id::$c as Carrier>::C>()), $w, |s, c| carrier_corrupt::<$id::$c>(s, c));
	)* };
}

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	cs.add("map payload", 80.0, payload_map);
	cs.add("sequence payload", 40.0, payload_seq);
	cs.add("struct payload", 40.0, payload_struct);
	cs.add("indexed struct", 20.0, record_corrupt);
	cs.add("optimised struct", 10.0, seq_corrupt);
	cs.add("optimised enum", 20.0, choice_corrupt);
	macro_rules! add {
		(map $id:ident, $k:ty, $v:ty) => {
			each!(cs, $id, 1.0, B H BI);
			#[cfg(feature = "third")]
			each!(cs, $id, 1.0, O I);
		};
		(seq $id:ident, $t:ty) => {
			each!(cs, $id, 1.0, V VI);
			#[cfg(feature = "third")]
			each!(cs, $id, 1.0, I);
		};
		(set $id:ident, $t:ty) => {
			each!(cs, $id, 1.0, B H BI);
			#[cfg(feature = "third")]
			each!(cs, $id, 1.0, O I);
		};
	}
	ix_collections!(add);
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C08", |_| cases())
}

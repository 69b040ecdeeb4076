//! C20: passing over data does no work on it. Built-in types, indexed
//! collections, and elements that count what is done to them.
use checks::*;
use engine::asked;
use revision::optimised::indexed::{IndexedMapEncoded, IndexedSeqEncoded, IndexedSetEncoded};
use revision::optimised::{IndexedMapWalker, IndexedSeqWalker};
use revision::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::io::{Read, Write};
use subjects::walkable_types;

thread_local! {
	static DECODED: Cell<usize> = const { Cell::new(0) };
	static SKIPPED: Cell<usize> = const { Cell::new(0) };
}

/// Counts how often one of it is decoded or skipped on its own.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tick(String);

impl Revisioned for Tick {
	fn revision() -> u16 {
		1
	}
}
impl SerializeRevisioned for Tick {
	fn serialize_revisioned<W: Write>(&self, w: &mut W) -> Result<(), Error> {
		self.0.serialize_revisioned(w)
	}
}
impl DeserializeRevisioned for Tick {
	fn deserialize_revisioned<R: Read>(r: &mut R) -> Result<Self, Error> {
		DECODED.with(|n| n.set(n.get() + 1));
		Ok(Tick(String::deserialize_revisioned(r)?))
	}
}
impl SkipRevisioned for Tick {
	fn skip_revisioned<R: Read>(r: &mut R) -> Result<(), Error> {
		SKIPPED.with(|n| n.set(n.get() + 1));
		String::skip_revisioned(r)
	}
	fn skip_revisioned_slice(r: &mut SliceReader<'_>) -> Result<(), Error> {
		SKIPPED.with(|n| n.set(n.get() + 1));
		String::skip_revisioned_slice(r)
	}
}
impl SkipCheckRevisioned for Tick {
	fn skip_check_revisioned<R: Read>(r: &mut R) -> Result<(), Error> {
		String::skip_check_revisioned(r)
	}
}
impl WalkRevisioned for Tick {
	type Walker<'r, R: BorrowedReader + 'r> = LeafWalker<'r, Tick, R>;
	fn walk_revisioned<'r, R: BorrowedReader>(r: &'r mut R) -> Result<Self::Walker<'r, R>, Error> {
		Ok(LeafWalker::new(r))
	}
}
impl LengthPrefixedBytes for Tick {}

/// What an operation did to the elements and asked of the allocator.
#[derive(Debug, PartialEq, Clone, Copy)]
struct Work {
	decoded: usize,
	skipped: usize,
	allocations: usize,
}
fn work<T>(f: impl FnOnce() -> T) -> (T, Work) {
	DECODED.with(|n| n.set(0));
	SKIPPED.with(|n| n.set(0));
	let (r, a) = asked(f);
	(r, Work { decoded: DECODED.with(|n| n.get()), skipped: SKIPPED.with(|n| n.get()), allocations: a.times })
}

/// Collects the operations of one case.
struct Sheet<'a> {
	c: &'a mut Ctx,
	what: String,
}
impl Sheet<'_> {
	/// `skips`: how many elements may be skipped one by one.
	fn idle<T>(&mut self, op: &str, skips: usize, f: impl FnOnce() -> Result<T, Error>) -> Result<Option<T>, Fail> {
		self.c.evals += 1;
		self.c.key(op.as_bytes());
		let (r, w) = work(f);
		// other properties speak about failures
		let Ok(r) = r else { return Ok(None) };
		ensure!(w.decoded == 0, "{op} decoded {} elements | {}", w.decoded, self.what);
		ensure!(w.skipped <= skips, "{op} went through {} elements instead of at most {skips} | {}", w.skipped, self.what);
		ensure!(w.allocations == 0, "{op} allocated {} times | {}", w.allocations, self.what);
		Ok(Some(r))
	}
	/// Decodes `n` elements and no more.
	fn only<T>(&mut self, op: &str, n: usize, f: impl FnOnce() -> Result<T, Error>) -> Result<Option<T>, Fail> {
		self.c.evals += 1;
		self.c.key(op.as_bytes());
		let (r, w) = work(f);
		let Ok(r) = r else { return Ok(None) };
		ensure!(w.decoded == n, "{op} decoded {} elements instead of {n} | {}", w.decoded, self.what);
		Ok(Some(r))
	}
}

fn tick(s: &mut Src) -> Tick {
	let n = match s.weighted(&[40, 10, 1]) {
		0 => s.below(8),
		1 => s.below(60),
		_ => s.range(250, 600),
	};
	Tick(s.bytes(n).iter().map(|b| (b'a' + b % 26) as char).collect())
}
fn count(s: &mut Src) -> usize {
	match s.weighted(&[20, 30, 20, 4]) {
		0 => s.below(8),
		1 => s.range(6, 12),
		2 => s.range(12, 60),
		_ => *s.pick(&[64usize, 127, 128, 250, 251, 256, 500]),
	}
}
fn ticks(s: &mut Src) -> Vec<Tick> {
	let n = count(s);
	(0..n).map(|_| tick(s)).collect()
}
fn pairs(s: &mut Src) -> Vec<(Tick, Tick)> {
	let n = count(s);
	(0..n).map(|_| (tick(s), tick(s))).collect()
}

// ---------------------------------------------------------------- walks

fn seq<'r, R: BorrowedReader>(mut w: SeqWalker<'r, Tick, R>, s: &mut Src, sh: &mut Sheet) -> Res {
	loop {
		let left = w.remaining();
		if s.chance(1, 12) {
			sh.idle("SeqWalker::skip_remaining", left, || w.skip_remaining())?;
			return Ok(());
		}
		let Some(Some(it)) = sh.idle("next_item", 0, || Ok(w.next_item()))? else { return Ok(()) };
		match s.below(4) {
			0 => sh.idle("SeqItem::skip", 1, || it.skip())?,
			1 => sh.idle("SeqItem::with_bytes", 0, || it.with_bytes(|_| ()))?,
			2 => {
				let Some(l) = sh.idle("SeqItem::walk", 0, || it.walk())? else { return Ok(()) };
				leaf(l, s, sh)?
			}
			_ => sh.only("SeqItem::decode", 1, || it.decode())?.map(drop),
		};
	}
}
fn leaf<'r, R: BorrowedReader>(l: LeafWalker<'r, Tick, R>, s: &mut Src, sh: &mut Sheet) -> Result<Option<()>, Fail> {
	match s.below(4) {
		0 => sh.idle("LeafWalker::skip", 1, || l.skip()),
		1 => sh.idle("LeafWalker::with_bytes", 0, || l.with_bytes(|_| ())),
		2 => {
			let Some(l) = sh.idle("LeafWalker::walk", 0, || l.walk())? else { return Ok(None) };
			leaf(l, s, sh)
		}
		_ => Ok(sh.only("LeafWalker::decode", 1, || l.decode())?.map(drop)),
	}
}
/// Returns whether it went through to the end.
fn map<'r, R: BorrowedReader>(mut w: MapWalker<'r, Tick, Tick, R>, s: &mut Src, sh: &mut Sheet) -> Result<bool, Fail> {
	loop {
		let left = w.remaining();
		if s.chance(1, 12) {
			sh.idle("MapWalker::skip_remaining", 2 * left, || w.skip_remaining())?;
			return Ok(true);
		}
		if s.chance(1, 8) {
			// the search goes through the first `t` entries, and stops at the next
			let t = s.below(left + 1);
			let how = *s.pick(&[Ordering::Equal, Ordering::Greater]);
			let mut calls = 0;
			let mut at = |_: &[u8]| {
				calls += 1;
				if calls <= t { Ordering::Less } else { how }
			};
			if s.bool() {
				// keys are decoded one by one, values not at all
				let want = if t < left { t + 1 } else { left };
				if let Some(Some(l)) = sh.only("MapWalker::find", want, || w.find(|_| at(&[])))? {
					leaf(l, s, sh)?;
				}
			} else if let Some(Some(l)) = sh.idle("MapWalker::find_bytes", 2 * left, || w.find_bytes(|k| at(k)))? {
				leaf(l, s, sh)?;
			}
			return Ok(false);
		}
		let Some(Some(mut e)) = sh.idle("next_entry", 0, || Ok(w.next_entry()))? else { return Ok(true) };
		let k = match s.below(4) {
			0 => {
				if sh.idle("MapEntry::skip_pair", 2, || e.skip_pair())?.is_none() {
					return Ok(false);
				}
				continue;
			}
			1 => sh.idle("MapEntry::skip_key", 1, || e.skip_key())?,
			2 => sh.idle("MapEntry::with_key_bytes", 0, || e.with_key_bytes(|_| ()))?,
			_ => sh.only("MapEntry::decode_key", 1, || e.decode_key())?.map(drop),
		};
		if k.is_none() {
			return Ok(false);
		}
		let v = match s.below(4) {
			0 => sh.idle("MapEntry::skip_value", 1, || e.skip_value())?,
			1 => sh.idle("MapEntry::with_value_bytes", 0, || e.with_value_bytes(|_| ()))?,
			2 => {
				let Some(l) = sh.idle("MapEntry::walk_value", 0, || e.walk_value())? else { return Ok(false) };
				leaf(l, s, sh)?
			}
			_ => sh.only("MapEntry::decode_value", 1, || e.decode_value())?.map(drop),
		};
		if v.is_none() {
			return Ok(false);
		}
	}
}

// ------------------------------------------------------- indexed payloads

fn probes(n: usize) -> usize {
	(usize::BITS - n.leading_zeros()) as usize
}

fn lookups(p: &[u8], n: usize, s: &mut Src, sh: &mut Sheet) -> Res {
	let checked = s.bool();
	let open = || {
		if checked { IndexedMapWalker::<Tick, Tick>::from_payload(p) } else { IndexedMapWalker::from_payload_unvalidated(p) }
	};
	let Some(w) = sh.idle("opening an IndexedMapWalker", 0, open)? else { return Ok(()) };
	let Some(es) = w.entries() else { return Ok(()) };
	let keys: Vec<&[u8]> = es.map(|e| e.0).collect();
	sh.idle("IndexedMapWalker::entries", 0, || Ok(w.entries().map(|e| e.map(|(k, v)| k.len() + v.len()).sum::<usize>())))?;
	for _ in 0..4 {
		let i = s.below(n);
		let own = tick(s);
		let other = to_vec(&own).unwrap();
		let t: &[u8] = if s.chance(2, 3) { keys[i] } else { &other };
		let mut calls = 0;
		sh.idle("find_value_bytes", 0, || {
			w.find_value_bytes(|k| {
				calls += 1;
				k.cmp(t)
			})
		})?;
		ensure!(calls <= probes(n), "find_value_bytes looked at {calls} of {n} keys | {}", sh.what);
		let hint = match s.below(3) {
			0 => None,
			1 => Some(i as u32),
			_ => Some(s.below(n + 3) as u32),
		};
		let hit = hint.is_some_and(|h| keys.get(h as usize) == Some(&t));
		let most = if hit { 1 } else { probes(n) + hint.is_some() as usize };
		let mut calls = 0;
		sh.idle("find_value_bytes_with_hint", 0, || {
			w.find_value_bytes_with_hint(hint, |k| {
				calls += 1;
				k.cmp(t)
			})
		})?;
		ensure!(calls <= most, "a lookup with the hint {hint:?} looked at {calls} of {n} keys instead of {most} | {}", sh.what);
	}
	Ok(())
}

fn elements(p: &[u8], n: usize, s: &mut Src, sh: &mut Sheet) -> Res {
	let checked = s.bool();
	let open = || {
		if checked { IndexedSeqWalker::<Tick>::from_payload(p) } else { IndexedSeqWalker::from_payload_unvalidated(p) }
	};
	let Some(w) = sh.idle("opening an IndexedSeqWalker", 0, open)? else { return Ok(()) };
	sh.idle("IndexedSeqWalker::body", 0, || Ok(w.body().len()))?;
	for _ in 0..4 {
		let i = s.below(n + 1);
		if w.is_indexed() {
			sh.idle("element_bytes", 0, || w.element_bytes(i))?;
		}
	}
	Ok(())
}

fn sheet<'a>(what: String, b: &[u8], c: &'a mut Ctx) -> Sheet<'a> {
	c.key(b);
	c.sample(|| what.clone());
	c.nontrivial = b.len() > 2;
	c.label(len_label(b.len()));
	Sheet { c, what: format!("{what}: {}", hex(b)) }
}
/// Elements an indexed payload may have to be gone through for.
fn through(n: usize, indexed: usize) -> usize {
	if n < refenc::THRESHOLD { 2 * n } else { indexed }
}

fn a_map<M: IndexedMapEncoded + SerializeRevisioned + SkipRevisioned>(
	v: M,
	n: usize,
	s: &mut Src,
	c: &mut Ctx,
	walk: impl FnOnce(&[u8], &mut Src, &mut Sheet) -> Res,
) -> Res {
	let b = to_vec(&v).unwrap();
	let mut p = Vec::new();
	v.serialize_indexed_map(&mut p).unwrap();
	let mut sh = sheet(format!("{} of {n}", tname::<M>()), &p, c);
	sh.idle("skip_slice", 2 * n, || skip_slice::<M>(&b))?;
	sh.idle("skip_reader", 2 * n, || skip_reader::<M, _>(&mut &b[..]))?;
	sh.idle("skip_indexed_map", through(n, 0), || M::skip_indexed_map(&mut &p[..]))?;
	sh.idle("skip_indexed_map on a SliceReader", through(n, 0), || M::skip_indexed_map(&mut SliceReader::new(&p)))?;
	if n > 0 {
		lookups(&p, n, s, &mut sh)?;
	}
	walk(&b, s, &mut sh)
}
fn a_seq<M: SerializeRevisioned + SkipRevisioned>(
	v: M,
	p: Vec<u8>,
	n: usize,
	skip: [fn(&[u8]) -> Result<(), Error>; 2],
	s: &mut Src,
	c: &mut Ctx,
	walk: impl FnOnce(&[u8], &mut Src, &mut Sheet) -> Res,
) -> Res {
	let b = to_vec(&v).unwrap();
	let mut sh = sheet(format!("{} of {n}", tname::<M>()), &p, c);
	sh.idle("skip_slice", n, || skip_slice::<M>(&b))?;
	sh.idle("skip_reader", n, || skip_reader::<M, _>(&mut &b[..]))?;
	sh.idle("skipping the indexed form", through(n, 1), || skip[0](&p))?;
	sh.idle("skipping the indexed form in a SliceReader", through(n, 1), || skip[1](&p))?;
	elements(&p, n, s, &mut sh)?;
	walk(&b, s, &mut sh)
}

macro_rules! walks {
	($t:ty, $f:ident) => {
		|b, s, sh| {
			let mut r = SliceReader::new(b);
			let Some(w) = sh.idle("walk_revisioned", 0, || <$t>::walk_revisioned(&mut r))? else { return Ok(()) };
			let _ = $f(w, s, sh)?;
			Ok(())
		}
	};
}
macro_rules! maps {
	($cs:ident, $($t:ty),*) => { $(
		$cs.add(format!("elements of {}", tname::<$t>()), 4.0, |s, c| {
			let v: $t = pairs(s).into_iter().collect();
			let n = v.len();
			a_map(v, n, s, c, walks!($t, map))
		});
	)* };
}
macro_rules! seqs {
	($cs:ident, $ser:ident, $skip:ident, $($t:ty),*) => { $(
		$cs.add(format!("elements of {}", tname::<$t>()), 4.0, |s, c| {
			let v: $t = ticks(s).into_iter().collect();
			let n = v.len();
			let mut p = Vec::new();
			v.$ser(&mut p).unwrap();
			a_seq(v, p, n, [|mut b| <$t>::$skip(&mut b), |b| <$t>::$skip(&mut SliceReader::new(b))], s, c, walks!($t, seq))
		});
	)* };
}

// ------------------------------------------------------- declared types

#[revisioned(revision = 1)]
struct Plain1 {
	a: Tick,
	b: Vec<Tick>,
	c: BTreeMap<Tick, Tick>,
	d: Option<Tick>,
}
#[revisioned(revision = 3)]
struct Plain {
	a: Tick,
	b: Vec<Tick>,
	c: BTreeMap<Tick, Tick>,
	d: Option<Tick>,
	#[revision(start = 2)]
	e: u32,
}
#[revisioned(revision(1, optimised))]
struct Opt {
	a: Tick,
	b: Vec<Tick>,
	#[revision(indexed_map)]
	c: BTreeMap<Tick, Tick>,
	d: Option<Tick>,
}
#[revisioned(revision(1, optimised, indexed_struct))]
struct Ix {
	a: Tick,
	#[revision(indexed_seq)]
	b: Vec<Tick>,
	#[revision(indexed_map)]
	c: BTreeMap<Tick, Tick>,
	d: Option<Tick>,
}
#[revisioned(revision = 1)]
enum Way {
	A(Tick),
	B(Vec<Tick>),
	C(BTreeMap<Tick, Tick>),
	D {
		x: Tick,
		y: Vec<Tick>,
	},
}
#[revisioned(revision(1, optimised))]
enum OptWay {
	#[revision(size = "varlen")]
	A(Tick),
	#[revision(size = "varlen")]
	B(Vec<Tick>),
	#[revision(size = "varlen")]
	C(BTreeMap<Tick, Tick>),
	#[revision(size = "varlen")]
	D {
		x: Tick,
		y: Vec<Tick>,
	},
}

/// Goes through a struct in declaration order.
macro_rules! strukt {
	($name:ident, $t:ident, |$v:ident| $bseq:expr, $cmap:expr, $skips:expr; $walkb:tt $walkc:tt; $($wire:ident)?) => {
		fn $name(s: &mut Src, c: &mut Ctx) -> Res {
			let $v = strukt!(@make $t s);
			let b = to_vec(&$v).unwrap();
			let n = 1 + $v.b.len() + 2 * $v.c.len() + $v.d.is_some() as usize;
			let (bn, cn) = ($v.b.len(), 2 * $v.c.len());
			let dn = $v.d.is_some() as usize;
			let mut sh = sheet(format!("{} of {n} elements", stringify!($t)), &b, c);
			let sh = &mut sh;
			let most = if $skips { n } else { 0 };
			sh.idle("skip_slice", most, || skip_slice::<$t>(&b))?;
			let mut r = SliceReader::new(&b);
			let Some(mut w) = sh.idle("walk_revisioned", 0, || $t::walk_revisioned(&mut r))? else { return Ok(()) };
			let past = |k: usize| if $bseq { k } else { 0 };
			let _ = &past;
			match s.below(3) {
				0 => sh.idle("skip_a", 1, || w.skip_a())?,
				1 => {
					strukt!(@walk_a $($wire)? w s sh)
				}
				_ => sh.only("decode_a", 1, || w.decode_a())?.map(drop),
			};
			match s.below(3) {
				0 => sh.idle("skip_b", bn, || w.skip_b())?,
				1 => strukt!(@$walkb w s sh),
				_ => sh.only("decode_b", bn, || w.decode_b())?.map(drop),
			};
			let mapskips = if $cmap { through(cn / 2, 0) } else { cn };
			match s.below(3) {
				0 => sh.idle("skip_c", mapskips, || w.skip_c())?,
				1 => strukt!(@$walkc w s sh),
				_ => sh.only("decode_c", cn, || w.decode_c())?.map(drop),
			};
			match s.below(4) {
				0 => sh.idle("skip_d", 1, || w.skip_d())?,
				1 => sh.idle("into_d_bytes", 1, || w.into_d_bytes())?.map(|b| drop(b)),
				_ => sh.only("decode_d", dn, || w.decode_d())?.map(drop),
			};
			Ok(())
		}
	};
	(@make Plain $s:ident) => { Plain { a: tick($s), b: ticks($s), c: pairs($s).into_iter().collect(), d: opt($s), e: 7 } };
	(@make $t:ident $s:ident) => { $t { a: tick($s), b: ticks($s), c: pairs($s).into_iter().collect(), d: opt($s) } };
	(@walk_a wire $w:ident $s:ident $sh:ident) => {{
		let Some(l) = $sh.idle("walk_a", 0, || $w.walk_a())? else { return Ok(()) };
		leaf(l, $s, $sh)?
	}};
	(@walk_a $w:ident $s:ident $sh:ident) => { $sh.idle("skip_a", 1, || $w.skip_a())? };
	(@seq $w:ident $s:ident $sh:ident) => {{
		let Some(x) = $sh.idle("walk_b", 0, || $w.walk_b())? else { return Ok(()) };
		seq(x, $s, $sh)?;
		Some(())
	}};
	(@map $w:ident $s:ident $sh:ident) => {{
		let Some(x) = $sh.idle("walk_c", 0, || $w.walk_c())? else { return Ok(()) };
		if !map(x, $s, $sh)? {
			return Ok(());
		}
		Some(())
	}};
	(@bview $w:ident $s:ident $sh:ident) => {{
		let _ = &$s;
		let Some(x) = $sh.idle("walk_b", usize::MAX, || $w.walk_b())? else { return Ok(()) };
		$sh.idle("the view's walker", 0, || x.walker().map(|w| w.len()))?;
		Some(())
	}};
	(@cview $w:ident $s:ident $sh:ident) => {{
		let _ = &$s;
		let Some(x) = $sh.idle("walk_c", usize::MAX, || $w.walk_c())? else { return Ok(()) };
		$sh.idle("the view's walker", 0, || x.walker().map(|w| w.len()))?;
		Some(())
	}};
	(@bskip $w:ident $s:ident $sh:ident) => { $sh.idle("skip_b", usize::MAX, || $w.skip_b())? };
}
fn opt(s: &mut Src) -> Option<Tick> {
	s.bool().then(|| tick(s))
}
strukt!(plain, Plain, |v| true, false, true; seq map; wire);
strukt!(optimised, Opt, |v| true, true, false; seq cview; wire);
strukt!(indexed, Ix, |v| true, true, false; bview cview;);

/// One field of a struct with an offset table.
fn one_field(s: &mut Src, c: &mut Ctx) -> Res {
	let v = Ix { a: tick(s), b: ticks(s), c: pairs(s).into_iter().collect(), d: opt(s) };
	let b = to_vec(&v).unwrap();
	let mut sh = sheet("a field of Ix".to_string(), &b, c);
	let mut r = SliceReader::new(&b);
	let Some(mut w) = sh.idle("walk_revisioned", 0, || Ix::walk_revisioned(&mut r))? else { return Ok(()) };
	for _ in 0..s.below(6) {
		match s.below(4) {
			0 => drop(sh.only("decode_a", 1, || w.decode_a())?),
			1 => drop(sh.only("decode_b", v.b.len(), || w.decode_b())?),
			2 => drop(sh.only("decode_c", 2 * v.c.len(), || w.decode_c())?),
			_ => drop(sh.only("decode_d", v.d.is_some() as usize, || w.decode_d())?),
		}
	}
	match s.below(4) {
		0 => drop(sh.idle("into_a_bytes", 0, || w.into_a_bytes())?),
		1 => drop(sh.idle("into_b_bytes", 0, || w.into_b_bytes())?),
		2 => drop(sh.idle("into_c_bytes", 0, || w.into_c_bytes())?),
		_ => drop(sh.idle("into_d_bytes", 0, || w.into_d_bytes())?),
	}
	Ok(())
}

/// An older revision without conversions is walked where it lies.
fn older(s: &mut Src, c: &mut Ctx) -> Res {
	let v = Plain1 { a: tick(s), b: ticks(s), c: pairs(s).into_iter().collect(), d: opt(s) };
	let b = to_vec(&v).unwrap();
	let mut sh = sheet("Plain at its first revision".to_string(), &b, c);
	let mut r = SliceReader::new(&b);
	let Some(mut w) = sh.idle("walk_revisioned", 0, || Plain::walk_revisioned(&mut r))? else { return Ok(()) };
	if s.bool() {
		sh.only("decode_a", 1, || w.decode_a())?;
	} else {
		sh.idle("skip_a", 1, || w.skip_a())?;
	}
	sh.idle("skip_b", v.b.len(), || w.skip_b())?;
	if s.bool() {
		sh.idle("skip_c", 2 * v.c.len(), || w.skip_c())?;
	} else {
		let Some(x) = sh.idle("walk_c", 0, || w.walk_c())? else { return Ok(()) };
		if !map(x, s, &mut sh)? {
			return Ok(());
		}
	}
	sh.idle("skip_d", 1, || w.skip_d())?;
	sh.idle("skip_e", 0, || w.skip_e())?;
	Ok(())
}

macro_rules! way {
	($name:ident, $t:ident, $most:expr, $opt:literal) => {
		fn $name(s: &mut Src, c: &mut Ctx) -> Res {
			let k = s.below(4);
			let (x, y, z) = (tick(s), ticks(s), pairs(s));
			let z: BTreeMap<Tick, Tick> = z.into_iter().collect();
			let n = [1, y.len(), 2 * z.len(), 1 + y.len()][k];
			let v = match k {
				0 => $t::A(x),
				1 => $t::B(y),
				2 => $t::C(z),
				_ => $t::D { x, y },
			};
			let b = to_vec(&v).unwrap();
			let mut sh = sheet(format!("{} variant {k}", stringify!($t)), &b, c);
			let sh = &mut sh;
			let most: fn(usize) -> usize = $most;
			sh.idle("skip_slice", most(n), || skip_slice::<$t>(&b))?;
			let mut r = SliceReader::new(&b);
			let Some(w) = sh.idle("walk_revisioned", 0, || $t::walk_revisioned(&mut r))? else { return Ok(()) };
			sh.idle("is_*", 0, || Ok((w.is_a(), w.is_b(), w.is_c(), w.is_d(), w.discriminant(), w.revision())))?;
			match (k, s.below(3)) {
				(3, _) => {
					if $opt {
						sh.idle("d_view", 0, || w.d_view().map(|v| v.as_bytes().len()))?;
					}
				}
				(0, 0) => drop(sh.only("decode_a", 1, || w.decode_a())?),
				(1, 0) => drop(sh.only("decode_b", n, || w.decode_b())?),
				(_, 0) => drop(sh.only("decode_c", n, || w.decode_c())?),
				(_, 1) if $opt => match k {
					0 => drop(sh.idle("a_view", 0, || w.a_view().map(|v| v.as_bytes().len()))?),
					1 => drop(sh.idle("b_view", 0, || w.b_view().map(|v| v.as_bytes().len()))?),
					_ => drop(sh.idle("c_view", 0, || w.c_view().map(|v| v.as_bytes().len()))?),
				},
				(0, _) => {
					let Some(x) = sh.idle("into_a", 0, || w.into_a())? else { return Ok(()) };
					leaf(x, s, sh)?;
				}
				(1, _) => {
					let Some(x) = sh.idle("into_b", 0, || w.into_b())? else { return Ok(()) };
					seq(x, s, sh)?;
				}
				_ => {
					let Some(x) = sh.idle("into_c", 0, || w.into_c())? else { return Ok(()) };
					map(x, s, sh)?;
				}
			}
			Ok(())
		}
	};
}
way!(way, Way, |n| n, false);
way!(opt_way, OptWay, |_| 0, true);

/// These decode what they pass over.
fn decodes(name: &str) -> bool {
	["PathBuf", "geo_types", "roaring"].iter().any(|n| name.contains(n))
}

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	macro_rules! add {
		($($t:ty);* $(;)?) => { $(
			if !decodes(std::any::type_name::<$t>()) {
				cs.add(format!("skipped {}", tname::<$t>()), 0.3, walks::skip_frugal::<$t>);
			}
		)* };
	}
	{
		builtin_types!(add);
	}
	macro_rules! add {
		($($t:ty);* $(;)?) => { $(
			if !decodes(std::any::type_name::<$t>()) {
				cs.add(format!("walked {}", tname::<$t>()), 0.5, walks::walk_frugal::<$t>);
			}
		)* };
	}
	{
		walkable_types!(add);
	}
	maps!(cs, BTreeMap<Tick, Tick>, HashMap<Tick, Tick>);
	seqs!(cs, serialize_indexed_seq, skip_indexed_seq, Vec<Tick>);
	seqs!(cs, serialize_indexed_set, skip_indexed_set, BTreeSet<Tick>, HashSet<Tick>);
	#[cfg(feature = "third")]
	{
		use subjects::ext::{IHashMap, IHashSet, OrdMap, OrdSet, Vector};
		maps!(cs, OrdMap<Tick, Tick>, IHashMap<Tick, Tick>);
		seqs!(cs, serialize_indexed_seq, skip_indexed_seq, Vector<Tick>);
		seqs!(cs, serialize_indexed_set, skip_indexed_set, OrdSet<Tick>, IHashSet<Tick>);
	}
	cs.add("elements of BinaryHeap<Tick>", 2.0, |s, c| {
		let v: BinaryHeap<Tick> = ticks(s).into_iter().collect();
		let b = to_vec(&v).unwrap();
		let mut sh = sheet("BinaryHeap".to_string(), &b, c);
		sh.idle("skip_slice", v.len(), || skip_slice::<BinaryHeap<Tick>>(&b))?;
		let f: fn(&[u8], &mut Src, &mut Sheet) -> Res = walks!(BinaryHeap<Tick>, seq);
		f(&b, s, &mut sh)
	});
	cs.add("a struct", 6.0, plain);
	cs.add("an optimised struct", 6.0, optimised);
	cs.add("an indexed struct", 6.0, indexed);
	cs.add("fields of an indexed struct", 6.0, one_field);
	cs.add("an older struct", 6.0, older);
	cs.add("an enum", 6.0, way);
	cs.add("an optimised enum", 6.0, opt_way);
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C20", |_| cases())
}

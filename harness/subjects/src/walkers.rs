//! Random walks through encoded values, checked against the decoded value.
//!
//! `Drive::drive` takes a walker standing at the value `self` and goes through
//! all of it with a random mix of operations.
use crate::{SPEC, Subject};
use engine::{Fail, Res, Src, ensure, fail, hex};
use revision::*;
use std::borrow::Cow;
use std::cmp::{Ordering, Reverse};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::hash::Hash;
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

pub struct Cx<'b> {
	pub buf: &'b [u8],
	/// Also make requests that have to be refused.
	pub misuse: bool,
	pub log: Vec<String>,
	pub evals: u64,
	pub refused: u64,
	pub peeks: u64,
	pub descents: u64,
	pub depth: u32,
	/// The bytes need not be those of the value: nothing is compared, and requests
	/// that fail are followed by others.
	pub lenient: bool,
	/// Where the outermost value starts.
	pub at: usize,
	/// The walk ended early, with the reader at this position.
	pub stop: Option<usize>,
	/// Revision in the input of each type of a generated family, by its number;
	/// the latest ones where empty.
	pub revs: Vec<u16>,
	/// Where the outermost value's fields start in the input, and its end.
	pub bounds: Vec<usize>,
	/// Watch what the requests that pass over bytes ask the allocator for.
	pub frugal: bool,
	/// Requests watched, and the first of them that allocated.
	pub metered: u64,
	pub offence: Option<String>,
}

impl<'b> Cx<'b> {
	pub fn new(buf: &'b [u8], misuse: bool) -> Self {
		Cx {
			buf,
			misuse,
			log: Vec::new(),
			evals: 0,
			refused: 0,
			peeks: 0,
			descents: 0,
			depth: 0,
			lenient: false,
			at: 0,
			stop: None,
			revs: Vec::new(),
			bounds: Vec::new(),
			frugal: false,
			metered: 0,
			offence: None,
		}
	}
	/// A request that passes over bytes, or (not `free`) one that may allocate.
	pub fn meter<T, E>(&mut self, what: &str, free: bool, f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
		if !self.frugal || !free {
			return f();
		}
		let (r, a) = engine::asked(f);
		if r.is_ok() {
			self.metered += 1;
			if a.times > 0 && self.offence.is_none() {
				let t = self.trace();
				self.offence = Some(format!("{what} allocated {} times, {} bytes in all | {t}", a.times, a.bytes));
			}
		}
		r
	}
	pub fn note(&mut self, s: impl Into<String>) {
		if self.log.len() < 60 {
			self.log.push(format!("{}{}", "·".repeat(self.depth as usize), s.into()));
		}
	}
	pub fn trace(&self) -> String {
		format!("after [{}] on {}", self.log.join(", "), hex(self.buf))
	}
	pub fn ok<T>(&self, what: &str, r: Result<T, Error>) -> Result<T, Fail> {
		if self.lenient && r.is_err() && size_of::<T>() == 0 && std::any::type_name::<T>() == "()" {
			return Ok(unsafe { std::mem::zeroed() });
		}
		r.map_err(|e| Fail::new(format!("{what} failed: {e} | {}", self.trace())))
	}
	pub fn same<T: Subject>(&mut self, what: &str, got: Result<T, Error>, want: &T) -> Res {
		self.evals += 1;
		if self.lenient {
			return Ok(());
		}
		let got = self.ok(what, got)?;
		ensure!(want.same(&got), "{what} gave {} instead of {} | {}", got.show(), want.show(), self.trace());
		Ok(())
	}
	pub fn refused<T>(&mut self, what: &str, r: Result<T, Error>) -> Res {
		self.evals += 1;
		self.refused += 1;
		self.note(format!("refused {what}"));
		ensure!(self.lenient || r.is_err(), "{what} was not refused | {}", self.trace());
		Ok(())
	}
	pub fn peeked(&mut self, what: &str, r: Result<Option<(usize, Vec<u8>)>, Error>, want: &[u8]) -> Res {
		self.evals += 1;
		self.peeks += 1;
		if self.lenient {
			return Ok(());
		}
		let got = self.ok(what, r)?;
		let Some((p, b)) = got else { fail!("{what} did not call its closure | {}", self.trace()) };
		ensure!(b == want, "{what} showed {} instead of {} | {}", hex(&b), hex(want), self.trace());
		let lo = self.buf.as_ptr() as usize;
		ensure!(
			b.is_empty() || (p >= lo && p + b.len() <= lo + self.buf.len()),
			"{what} showed bytes that are not borrowed from the input | {}",
			self.trace()
		);
		Ok(())
	}
	/// The walk ends here; only the outermost container may do that.
	fn stop_after(&mut self, bytes: usize) {
		self.stop = Some(self.at + bytes);
	}
}

type Seen = Option<(usize, Vec<u8>)>;
fn see(b: &[u8]) -> Seen {
	engine::unasked(|| Some((b.as_ptr() as usize, b.to_vec())))
}
fn size<T: SerializeRevisioned>(v: &T) -> usize {
	to_vec(v).map(|b| b.len()).unwrap_or(0)
}

pub trait Drive: Subject + WalkRevisioned {
	/// Whether `walk_revisioned` is available for the type.
	const WALKABLE: bool = true;
	/// 1 for `u8`, 2 for `i8`: a vector of it is length-prefixed bytes.
	const BYTE: u8 = 0;
	/// Whether the raw content can be peeked at.
	const PEEK: bool = false;

	fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res;

	/// Whether a walker standing at this value can be driven to the value's end.
	fn drivable(&self, _: &Cx) -> bool {
		true
	}
	/// Whether opening a walker over it does not involve decoding it.
	fn calm(_: &Cx) -> bool {
		true
	}
	fn content(&self) -> Vec<u8> {
		Vec::new()
	}
	fn peek_leaf<'r, R: BorrowedReader>(_: LeafWalker<'r, Self, R>) -> Result<Seen, Error> {
		unreachable!()
	}
	fn peek_item<'a, 'r, R: BorrowedReader>(_: SeqItem<'a, 'r, Self, R>) -> Result<Seen, Error> {
		unreachable!()
	}
	fn peek_key<'a, 'r, V, R: BorrowedReader>(_: &mut MapEntry<'a, 'r, Self, V, R>) -> Result<Seen, Error> {
		unreachable!()
	}
	fn peek_value<'a, 'r, K, R: BorrowedReader>(_: MapEntry<'a, 'r, K, Self, R>) -> Result<Seen, Error> {
		unreachable!()
	}
	fn find_bytes<'r, V: SkipRevisioned, R: BorrowedReader>(
		_: MapWalker<'r, Self, V, R>,
		_: &mut dyn FnMut(&[u8]) -> Ordering,
	) -> Result<Option<LeafWalker<'r, V, R>>, Error> {
		unreachable!()
	}
}

/// A walker was asked for: drive it, or make sure it is refused where the type
/// cannot be walked. Returns whether the value was consumed.
fn enter<'r, T: Drive, R: BorrowedReader + 'r>(
	v: &T,
	what: &str,
	w: Result<T::Walker<'r, R>, Error>,
	s: &mut Src,
	cx: &mut Cx,
) -> Result<bool, Fail> {
	cx.descents += 1;
	if cx.lenient && w.is_err() {
		return Ok(false);
	}
	if !T::WALKABLE {
		cx.refused(what, w)?;
		return Ok(false);
	}
	let w = cx.ok(what, w)?;
	cx.note(what);
	cx.depth += 1;
	v.drive(w, s, cx)?;
	cx.depth -= 1;
	Ok(true)
}

/// A leaf walker over any type is a handle that can decode, skip or descend.
pub fn handle<'r, T: Drive, R: BorrowedReader>(v: &T, w: LeafWalker<'r, T, R>, s: &mut Src, cx: &mut Cx) -> Res {
	match s.weighted(&[30, 20, 20, 10, 20]) {
		1 => {
			cx.note("leaf.skip");
			let r = cx.meter("LeafWalker::skip", true, || w.skip());
			cx.ok("LeafWalker::skip", r)
		}
		2 if T::WALKABLE && cx.depth < 12 && v.drivable(cx) => {
			let r = cx.meter("LeafWalker::walk", T::calm(cx), || w.walk());
			enter(v, "leaf.walk", r, s, cx)?;
			Ok(())
		}
		3 => {
			cx.note("leaf.into_reader");
			let mut w = w;
			let before = w.reader().position();
			let rd = w.into_reader();
			ensure!(cx.lenient || rd.position() == before, "into_reader moved the reader | {}", cx.trace());
			let r = T::deserialize_revisioned(rd);
			cx.same("decoding from LeafWalker::into_reader", r, v)
		}
		4 if T::PEEK => {
			cx.note("leaf.with_bytes");
			let r = cx.meter("LeafWalker::with_bytes", true, || T::peek_leaf(w));
			cx.peeked("LeafWalker::with_bytes", r, &v.content())
		}
		_ => {
			cx.note("leaf.decode");
			cx.same("LeafWalker::decode", w.decode(), v)
		}
	}
}

/// Like `handle` at the outermost level, where a refused descent can be made
/// good on the reader itself.
pub fn root<T: Drive, R: BorrowedReader>(v: &T, r: &mut R, s: &mut Src, cx: &mut Cx) -> Res {
	let before = r.position();
	if cx.lenient && !T::WALKABLE {
		return handle(v, LeafWalker::new(r), s, cx);
	}
	if !T::WALKABLE {
		let w = T::walk_revisioned(r).map(|_| ());
		cx.refused("walk_revisioned", w)?;
		ensure!(r.position() == before, "a refused walk moved the reader by {} | {}", r.position() - before, cx.trace());
		let w = LeafWalker::<T, R>::new(r).walk().map(|_| ());
		cx.refused("LeafWalker::walk", w)?;
		ensure!(r.position() == before, "a refused walk moved the reader by {} | {}", r.position() - before, cx.trace());
		return handle(v, LeafWalker::new(r), s, cx);
	}
	if !v.drivable(cx) && cx.depth > 0 {
		return handle(v, LeafWalker::new(r), s, cx);
	}
	let w = cx.meter("walk_revisioned", T::calm(cx), || T::walk_revisioned(r));
	let w = cx.ok("walk_revisioned", w)?;
	v.drive(w, s, cx)
}

macro_rules! lpb {
	($($(#[$m:meta])? $t:ty, $get:expr;)*) => {$(
		$(#[$m])?
		impl Drive for $t {
			lpb!(@peek);
			fn content(&self) -> Vec<u8> {
				let f: fn(&$t) -> Vec<u8> = $get;
				f(self)
			}
			fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {
				handle(self, w, s, cx)
			}
		}
	)*};
	(@peek) => {
		const PEEK: bool = true;
		fn peek_leaf<'r, R: BorrowedReader>(w: LeafWalker<'r, Self, R>) -> Result<Seen, Error> {
			w.with_bytes(see)
		}
		fn peek_item<'a, 'r, R: BorrowedReader>(w: SeqItem<'a, 'r, Self, R>) -> Result<Seen, Error> {
			w.with_bytes(see)
		}
		fn peek_key<'a, 'r, V, R: BorrowedReader>(w: &mut MapEntry<'a, 'r, Self, V, R>) -> Result<Seen, Error> {
			w.with_key_bytes(see)
		}
		fn peek_value<'a, 'r, K, R: BorrowedReader>(w: MapEntry<'a, 'r, K, Self, R>) -> Result<Seen, Error> {
			w.with_value_bytes(see)
		}
		fn find_bytes<'r, V: SkipRevisioned, R: BorrowedReader>(
			w: MapWalker<'r, Self, V, R>,
			f: &mut dyn FnMut(&[u8]) -> Ordering,
		) -> Result<Option<LeafWalker<'r, V, R>>, Error> {
			w.find_bytes(|b| f(b))
		}
	};
}
lpb! {
	String, |v| v.as_bytes().to_vec();
	Box<str>, |v| v.as_bytes().to_vec();
	Arc<str>, |v| v.as_bytes().to_vec();
	PathBuf, |v| v.to_str().unwrap().as_bytes().to_vec();
	#[cfg(feature = "third")] bytes::Bytes, |v| v.to_vec();
}

macro_rules! leaf {
	($($t:ty)*) => {$(
		impl Drive for $t {
			fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {
				handle(self, w, s, cx)
			}
		}
	)*};
}
macro_rules! byte_leaf {
	($($t:ty, $n:expr;)*) => {$(
		impl Drive for $t {
			const BYTE: u8 = $n;
			fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {
				handle(self, w, s, cx)
			}
		}
	)*};
}
byte_leaf!(u8, 1; i8, 2;);
leaf!(u16 i16 u32 i32 u64 i64 u128 i128 usize isize bool f32 f64 char Duration SystemTime);
#[cfg(feature = "third")]
mod third_leaves {
	use super::*;
	use crate::ext::*;
	leaf!(Uuid Decimal Regex RoaringBitmap RoaringTreemap DateTime<Utc> NaiveDate NaiveTime ChronoDuration
		Coord Point LineString Polygon MultiPoint MultiLineString MultiPolygon);
}

macro_rules! opaque {
	($(($($g:tt)*) $t:ty;)*) => {$(
		impl<$($g)*> Drive for $t {
			fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {
				handle(self, w, s, cx)
			}
		}
	)*};
}
opaque! {
	(T: Drive) Range<T>;
	(T: Subject) Bound<T>;
	(A: Subject, B: Subject) (A, B);
	(A: Subject, B: Subject, C: Subject) (A, B, C);
	(A: Subject, B: Subject, C: Subject, D: Subject) (A, B, C, D);
	(A: Subject, B: Subject, C: Subject, D: Subject, E: Subject) (A, B, C, D, E);
	(A: Subject, B: Subject, C: Subject, D: Subject, E: Subject, F: Subject) (A, B, C, D, E, F);
}
macro_rules! arrays {
	($($n:literal)*) => {$(
		impl<T: Subject + Copy + Default> Drive for [T; $n] {
			fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {
				handle(self, w, s, cx)
			}
		}
	)*};
}
arrays! { 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 }

macro_rules! transparent {
	($(($($g:tt)*) $t:ty, $get:expr;)*) => {$(
		impl<T: Drive $($g)*> Drive for $t {
			const WALKABLE: bool = T::WALKABLE;
			fn drivable(&self, cx: &Cx) -> bool {
				let f: fn(&Self) -> &T = $get;
				f(self).drivable(cx)
			}
			fn calm(cx: &Cx) -> bool {
				T::calm(cx)
			}
			fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {
				let f: fn(&Self) -> &T = $get;
				f(self).drive(w, s, cx)
			}
		}
	)*};
}
transparent! {
	() Box<T>, |v| v;
	() Arc<T>, |v| v;
	() Wrapping<T>, |v| &v.0;
	() Reverse<T>, |v| &v.0;
}
#[cfg(feature = "third")]
transparent! {
	(+ ordered_float::FloatCore) ordered_float::NotNan<T>, |v| v;
}

impl<T: Drive + Clone> Drive for Cow<'static, T> {
	fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {
		handle::<T, R>(self, w, s, cx)
	}
}

impl<T: Drive> Drive for Option<T> {
	fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {
		ensure!(
			cx.lenient || w.is_some() == self.is_some() && w.is_none() == self.is_none(),
			"is_some() is {}, is_none() is {} for {} | {}",
			w.is_some(),
			w.is_none(),
			self.show(),
			cx.trace()
		);
		match (s.weighted(&[20, 12, 40]), self) {
			(1, _) => {
				cx.note("option.skip");
				let r = cx.meter("OptionWalker::skip", true, || w.skip());
				cx.ok("OptionWalker::skip", r)
			}
			(2, Some(v)) if T::WALKABLE && v.drivable(cx) => {
				let r = cx.meter("into_some", T::calm(cx), || w.into_some());
				enter(v, "into_some", r, s, cx)?;
				Ok(())
			}
			(2, Some(v)) if cx.misuse && cx.depth == 0 && !T::WALKABLE => {
				let r = cx.meter("into_some", T::calm(cx), || w.into_some());
				enter(v, "into_some", r, s, cx)?;
				cx.stop_after(1);
				Ok(())
			}
			(2, None) if cx.misuse => {
				let r = w.into_some();
				cx.refused("into_some of None", r)
			}
			_ => {
				cx.note("option.decode");
				cx.same("OptionWalker::decode", w.decode(), self)
			}
		}
	}
}

impl<T: Drive, E: Drive> Drive for Result<T, E> {
	fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {
		ensure!(
			cx.lenient || w.is_ok() == self.is_ok() && w.is_err() == self.is_err(),
			"is_ok() is {}, is_err() is {} for {} | {}",
			w.is_ok(),
			w.is_err(),
			self.show(),
			cx.trace()
		);
		let wrong = if cx.misuse && cx.depth == 0 { 30 } else { 0 };
		match (s.weighted(&[20, 12, 40, wrong]), self) {
			(1, _) => {
				cx.note("result.skip");
				let r = cx.meter("ResultWalker::skip", true, || w.skip());
				cx.ok("ResultWalker::skip", r)
			}
			(2, Ok(v)) if T::WALKABLE && v.drivable(cx) => {
				let r = cx.meter("into_ok", T::calm(cx), || w.into_ok());
				enter(v, "into_ok", r, s, cx)?;
				Ok(())
			}
			(2, Err(v)) if E::WALKABLE && v.drivable(cx) => {
				let r = cx.meter("into_err", E::calm(cx), || w.into_err());
				enter(v, "into_err", r, s, cx)?;
				Ok(())
			}
			(3, Ok(v)) => {
				let r = w.into_err();
				cx.refused("into_err of Ok", r)?;
				cx.stop_after(size(self) - size(v));
				Ok(())
			}
			(3, Err(v)) => {
				let r = w.into_ok();
				cx.refused("into_ok of Err", r)?;
				cx.stop_after(size(self) - size(v));
				Ok(())
			}
			_ => {
				cx.note("result.decode");
				cx.same("ResultWalker::decode", w.decode(), self)
			}
		}
	}
}

pub fn seq<'r, T: Drive, R: BorrowedReader>(items: &[&T], mut w: SeqWalker<'r, T, R>, s: &mut Src, cx: &mut Cx) -> Res {
	if cx.lenient {
		return loose_seq(items, w, s, cx);
	}
	let n = items.len();
	let mut i = 0;
	// long runs are mostly skipped through
	let brisk = n > 60;
	loop {
		ensure!(
			w.remaining() == n - i,
			"remaining() is {} with {} items left | {}",
			w.remaining(),
			n - i,
			cx.trace()
		);
		if i < n && s.chance(1, if brisk { 400 } else { 12 }) {
			cx.note(format!("skip_remaining at {i} of {n}"));
			let r = cx.meter("SeqWalker::skip_remaining", true, || w.skip_remaining());
			return cx.ok("SeqWalker::skip_remaining", r);
		}
		let Some(it) = cx.meter("next_item", true, || w.next_item().ok_or(())).ok() else {
			ensure!(i == n, "next_item() is None with {} items left | {}", n - i, cx.trace());
			if s.bool() {
				ensure!(w.next_item().is_none(), "next_item() after the end | {}", cx.trace());
			}
			if s.bool() {
				let r = cx.meter("SeqWalker::skip_remaining", true, || w.skip_remaining());
				return cx.ok("SeqWalker::skip_remaining at the end", r);
			}
			return Ok(());
		};
		ensure!(i < n, "next_item() beyond the {n} items | {}", cx.trace());
		let v = items[i];
		let drop_it = if cx.misuse { 10 } else { 0 };
		match s.weighted(&[20, 15, if brisk { 2 } else { 25 }, 15, drop_it]) {
			1 => {
				cx.note("item.skip");
				let r = cx.meter("SeqItem::skip", true, || it.skip());
				cx.ok("SeqItem::skip", r)?;
				i += 1;
			}
			2 if if T::WALKABLE { v.drivable(cx) } else { cx.misuse } => {
				let r = cx.meter("SeqItem::walk", T::calm(cx), || it.walk());
				if enter(v, "item.walk", r, s, cx)? {
					i += 1;
				}
			}
			3 if T::PEEK => {
				cx.note("item.with_bytes");
				let r = cx.meter("SeqItem::with_bytes", true, || T::peek_item(it));
				cx.peeked("SeqItem::with_bytes", r, &v.content())?;
				i += 1;
			}
			4 => {
				cx.note("item dropped");
				drop(it);
			}
			_ => {
				cx.note("item.decode");
				cx.same("SeqItem::decode", it.decode(), v)?;
				i += 1;
			}
		}
	}
}

/// Whatever can be asked of a walker over bytes that need not be a sequence of
/// the items.
fn loose_seq<'r, T: Drive, R: BorrowedReader>(items: &[&T], mut w: SeqWalker<'r, T, R>, s: &mut Src, cx: &mut Cx) -> Res {
	for i in 0..40 {
		if s.chance(1, 12) {
			let r = w.skip_remaining();
			return cx.ok("SeqWalker::skip_remaining", r);
		}
		let _ = w.remaining();
		let Some(it) = w.next_item() else {
			if s.chance(1, 4) {
				continue;
			}
			return Ok(());
		};
		cx.evals += 1;
		match s.weighted(&[20, 15, 25, 15, 10]) {
			1 => drop(it.skip()),
			2 => {
				if let (Ok(w), Some(v)) = (it.walk(), items.get(i).or(items.first())) {
					cx.descents += 1;
					v.drive(w, s, cx)?
				}
			}
			3 if T::PEEK => drop(T::peek_item(it)),
			4 => drop(it),
			_ => drop(it.decode()),
		}
	}
	Ok(())
}

fn loose_map<'r, K: Drive, V: Drive, R: BorrowedReader>(
	entries: &[(&K, &V)],
	mut w: MapWalker<'r, K, V, R>,
	s: &mut Src,
	cx: &mut Cx,
) -> Res {
	for i in 0..40 {
		if s.chance(1, 12) {
			let r = w.skip_remaining();
			return cx.ok("MapWalker::skip_remaining", r);
		}
		let _ = w.remaining();
		if s.chance(1, 8) {
			let orders: Vec<Ordering> =
				(0..8).map(|_| *s.pick(&[Ordering::Less, Ordering::Less, Ordering::Equal, Ordering::Greater])).collect();
			let mut j = 0;
			let mut next = || {
				j += 1;
				orders[j % 8]
			};
			let r = if K::PEEK && s.bool() { K::find_bytes(w, &mut |_| next()) } else { w.find(|_| next()) };
			return match (r, entries.first()) {
				(Ok(Some(leaf)), Some(e)) => handle(e.1, leaf, s, cx),
				_ => Ok(()),
			};
		}
		let Some(mut e) = w.next_entry() else {
			if s.chance(1, 4) {
				continue;
			}
			return Ok(());
		};
		cx.evals += 1;
		match s.weighted(&[15, 10, 60]) {
			0 => {
				let _ = e.decode_pair();
				continue;
			}
			1 => {
				let _ = e.skip_pair();
				continue;
			}
			_ => {}
		}
		for _ in 0..s.weighted(&[1, 12, 2]) {
			match s.below(3) {
				0 => drop(e.skip_key()),
				1 if K::PEEK => drop(K::peek_key(&mut e)),
				_ => drop(e.decode_key()),
			}
		}
		match s.weighted(&[20, 12, 25, 15, 5]) {
			1 => drop(e.skip_value()),
			2 => {
				if let (Ok(w), Some(x)) = (e.walk_value(), entries.get(i).or(entries.first())) {
					cx.descents += 1;
					x.1.drive(w, s, cx)?
				}
			}
			3 if V::PEEK => drop(V::peek_value(e)),
			4 => drop(e),
			_ => drop(e.decode_value()),
		}
	}
	Ok(())
}

pub fn map<'r, K: Drive, V: Drive, R: BorrowedReader>(
	entries: &[(&K, &V)],
	mut w: MapWalker<'r, K, V, R>,
	s: &mut Src,
	cx: &mut Cx,
) -> Res {
	if cx.lenient {
		return loose_map(entries, w, s, cx);
	}
	let n = entries.len();
	let mut i = 0;
	let brisk = n > 60;
	loop {
		ensure!(
			w.remaining() == n - i,
			"remaining() is {} with {} entries left | {}",
			w.remaining(),
			n - i,
			cx.trace()
		);
		if i < n && s.chance(1, if brisk { 400 } else { 12 }) {
			cx.note(format!("skip_remaining at {i} of {n}"));
			let r = cx.meter("MapWalker::skip_remaining", true, || w.skip_remaining());
			return cx.ok("MapWalker::skip_remaining", r);
		}
		if s.chance(1, if brisk { 300 } else { 8 }) {
			return find(entries, i, w, s, cx);
		}
		let Some(mut e) = cx.meter("next_entry", true, || w.next_entry().ok_or(())).ok() else {
			ensure!(i == n, "next_entry() is None with {} entries left | {}", n - i, cx.trace());
			if s.bool() {
				ensure!(w.next_entry().is_none(), "next_entry() after the end | {}", cx.trace());
			}
			if s.bool() {
				let r = cx.meter("MapWalker::skip_remaining", true, || w.skip_remaining());
				return cx.ok("MapWalker::skip_remaining at the end", r);
			}
			return Ok(());
		};
		ensure!(i < n, "next_entry() beyond the {n} entries | {}", cx.trace());
		let (k, v) = entries[i];
		if cx.misuse && s.chance(1, 4) {
			// the value before the key; the entry is given up, not the position
			match s.below(5) {
				0 => cx.refused("decode_value before the key", e.decode_value())?,
				1 => cx.refused("skip_value before the key", e.skip_value())?,
				2 => {
					let r = e.walk_value();
					cx.refused("walk_value before the key", r)?
				}
				3 if V::PEEK => cx.refused("with_value_bytes before the key", V::peek_value(e))?,
				_ => drop(e),
			}
			continue;
		}
		match s.weighted(&[15, 10, 40]) {
			0 => {
				cx.note("decode_pair");
				let r = e.decode_pair();
				let (gk, gv) = cx.ok("MapEntry::decode_pair", r)?;
				cx.same("MapEntry::decode_pair (key)", Ok(gk), k)?;
				cx.same("MapEntry::decode_pair (value)", Ok(gv), v)?;
				i += 1;
				continue;
			}
			1 => {
				cx.note("skip_pair");
				let r = cx.meter("MapEntry::skip_pair", true, || e.skip_pair());
				cx.ok("MapEntry::skip_pair", r)?;
				i += 1;
				continue;
			}
			_ => {}
		}
		match s.below(3) {
			0 => {
				cx.note("skip_key");
				let r = cx.meter("MapEntry::skip_key", true, || e.skip_key());
				cx.ok("MapEntry::skip_key", r)?
			}
			1 if K::PEEK => {
				cx.note("with_key_bytes");
				let r = cx.meter("MapEntry::with_key_bytes", true, || K::peek_key(&mut e));
				cx.peeked("MapEntry::with_key_bytes", r, &k.content())?
			}
			_ => {
				cx.note("decode_key");
				cx.same("MapEntry::decode_key", e.decode_key(), k)?
			}
		}
		if cx.misuse {
			while s.chance(1, 3) {
				match s.below(3) {
					0 => cx.refused("decode_key after the key", e.decode_key())?,
					1 if K::PEEK => cx.refused("with_key_bytes after the key", K::peek_key(&mut e))?,
					_ => cx.refused("skip_key after the key", e.skip_key())?,
				}
			}
			if cx.depth == 0 && s.chance(1, 6) {
				// these give the entry up, with the reader at the value
				match s.below(3) {
					0 => cx.refused("decode_pair after the key", e.decode_pair())?,
					1 => cx.refused("skip_pair after the key", e.skip_pair())?,
					_ if V::WALKABLE => cx.refused("decode_pair after the key", e.decode_pair())?,
					_ => {
						let r = e.walk_value();
						cx.refused("walk_value of a bulk vector", r)?
					}
				}
				let mut at = size(&n);
				for (k, v) in &entries[..i] {
					at += size(*k) + size(*v);
				}
				cx.stop_after(at + size(k));
				return Ok(());
			}
		}
		match s.weighted(&[20, 12, if brisk { 2 } else { 25 }, 15]) {
			1 => {
				cx.note("skip_value");
				let r = cx.meter("MapEntry::skip_value", true, || e.skip_value());
				cx.ok("MapEntry::skip_value", r)?
			}
			2 if V::WALKABLE && v.drivable(cx) => {
				let r = cx.meter("MapEntry::walk_value", V::calm(cx), || e.walk_value());
				enter(v, "walk_value", r, s, cx)?;
			}
			3 if V::PEEK => {
				cx.note("with_value_bytes");
				let r = cx.meter("MapEntry::with_value_bytes", true, || V::peek_value(e));
				cx.peeked("MapEntry::with_value_bytes", r, &v.content())?
			}
			_ => {
				cx.note("decode_value");
				cx.same("MapEntry::decode_value", e.decode_value(), v)?
			}
		}
		i += 1;
	}
}

/// Search the entries from `i` on. The predicate orders each entry by its
/// place relative to a target entry, or to a gap between two entries, so every
/// monotone predicate over the wire order is covered.
fn find<'r, K: Drive, V: Drive, R: BorrowedReader>(
	entries: &[(&K, &V)],
	i: usize,
	w: MapWalker<'r, K, V, R>,
	s: &mut Src,
	cx: &mut Cx,
) -> Res {
	let n = entries.len();
	let present = i < n && s.chance(2, 3);
	let target = if present {
		// a hit leaves the entries behind it unread
		if cx.depth == 0 { s.range(i, n - 1) } else { n - 1 }
	} else {
		s.range(i, n)
	};
	let want_calls = if present { target + 1 } else { (target + 1).min(n) };
	let order = |j: usize| match j.cmp(&target) {
		Ordering::Equal if !present => Ordering::Greater,
		o => o,
	};
	let by_bytes = K::PEEK && s.bool();
	cx.note(format!("find{}({}{target} of {n})", if by_bytes { "_bytes" } else { "" }, if present { "" } else { "gap before " }));
	let mut next = i;
	let mut bad = None;
	let r = if by_bytes {
		let mut show = |b: &[u8]| {
			if next >= n || entries[next].0.content() != b {
				bad.get_or_insert(format!("call {next} showed {}", hex(b)));
			}
			next += 1;
			order(next - 1)
		};
		cx.meter("MapWalker::find_bytes", true, || K::find_bytes(w, &mut |b| engine::unasked(|| show(b))))
	} else {
		w.find(|k| {
			if next >= n || !entries[next].0.same(k) {
				bad.get_or_insert(format!("call {next} showed {}", k.show()));
			}
			next += 1;
			order(next - 1)
		})
	};
	cx.evals += 1;
	let r = cx.ok("find", r)?;
	if let Some(b) = bad {
		fail!("find did not show the keys in order: {b} | {}", cx.trace());
	}
	ensure!(next == want_calls, "find looked at entries {i}..{next} instead of {i}..{want_calls} | {}", cx.trace());
	match r {
		None => ensure!(!present, "find missed entry {target} | {}", cx.trace()),
		Some(leaf) => {
			ensure!(present, "find reported an absent key | {}", cx.trace());
			handle(entries[target].1, leaf, s, cx)?;
			if target + 1 < n {
				let mut at = size(&n);
				for (k, v) in &entries[..=target] {
					at += size(*k) + size(*v);
				}
				cx.stop_after(at);
			}
		}
	}
	Ok(())
}

/// Reinterpret a value as the type it already has.
unsafe fn cast<A, B>(a: A) -> B {
	assert!(size_of::<A>() == size_of::<B>());
	let a = std::mem::ManuallyDrop::new(a);
	unsafe { std::mem::transmute_copy::<A, B>(&a) }
}
/// `T` is `u8` or `i8`: run `$e` with the walker's element type spelled out.
macro_rules! as_bytes_vec {
	($t:ident, $w:ident, $from:ty, $to:ident, $e:expr) => {
		match $t::BYTE {
			1 => {
				type $to = Vec<u8>;
				let $w: $from = unsafe { cast($w) };
				$e
			}
			_ => {
				type $to = Vec<i8>;
				let $w: $from = unsafe { cast($w) };
				$e
			}
		}
	};
}

impl<T: Drive> Drive for Vec<T> {
	const WALKABLE: bool = !(SPEC && T::BULK);
	const PEEK: bool = T::BYTE != 0;
	fn content(&self) -> Vec<u8> {
		let mut o = Vec::new();
		for x in self {
			x.emit(&mut o, false);
		}
		o
	}
	fn peek_leaf<'r, R: BorrowedReader>(w: LeafWalker<'r, Self, R>) -> Result<Seen, Error> {
		as_bytes_vec!(T, w, LeafWalker<'r, X, R>, X, w.with_bytes(see))
	}
	fn peek_item<'a, 'r, R: BorrowedReader>(w: SeqItem<'a, 'r, Self, R>) -> Result<Seen, Error> {
		as_bytes_vec!(T, w, SeqItem<'a, 'r, X, R>, X, w.with_bytes(see))
	}
	fn peek_key<'a, 'r, V, R: BorrowedReader>(w: &mut MapEntry<'a, 'r, Self, V, R>) -> Result<Seen, Error> {
		as_bytes_vec!(T, w, &mut MapEntry<'a, 'r, X, V, R>, X, w.with_key_bytes(see))
	}
	fn peek_value<'a, 'r, K, R: BorrowedReader>(w: MapEntry<'a, 'r, K, Self, R>) -> Result<Seen, Error> {
		as_bytes_vec!(T, w, MapEntry<'a, 'r, K, X, R>, X, w.with_value_bytes(see))
	}
	fn find_bytes<'r, V: SkipRevisioned, R: BorrowedReader>(
		w: MapWalker<'r, Self, V, R>,
		f: &mut dyn FnMut(&[u8]) -> Ordering,
	) -> Result<Option<LeafWalker<'r, V, R>>, Error> {
		as_bytes_vec!(T, w, MapWalker<'r, X, V, R>, X, w.find_bytes(|b| f(b)))
	}
	fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {
		let items: Vec<&T> = self.iter().collect();
		seq(&items, w, s, cx)
	}
}
macro_rules! seqs {
	($($t:ty, $($b:path),*;)*) => {$(
		impl<T: Drive $(+ $b)*> Drive for $t {
			fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {
				let items: Vec<&T> = self.iter().collect();
				seq(&items, w, s, cx)
			}
		}
	)*};
}
/// Where the order in the input is not known: entries are only decoded or skipped.
fn any_order_seq<'r, T: Drive, R: BorrowedReader>(n: usize, want: Vec<Vec<u8>>, mut w: SeqWalker<'r, T, R>, s: &mut Src, cx: &mut Cx) -> Res {
	let mut left = want;
	for i in 0..n {
		ensure!(w.remaining() == n - i, "remaining() is {} with {} items left | {}", w.remaining(), n - i, cx.trace());
		if s.chance(1, 8) {
			cx.note("skip_remaining");
			let r = w.skip_remaining();
			return cx.ok("SeqWalker::skip_remaining", r);
		}
		let Some(it) = w.next_item() else { fail!("next_item() is None with {} items left | {}", n - i, cx.trace()) };
		cx.note("item.decode");
		cx.evals += 1;
		let v = cx.ok("SeqItem::decode", it.decode())?;
		let Some(j) = left.iter().position(|x| { let c = v.canon(); *x == c }) else {
			fail!("SeqItem::decode gave {} which is not in the set | {}", v.show(), cx.trace())
		};
		left.swap_remove(j);
	}
	ensure!(w.next_item().is_none(), "next_item() after the end | {}", cx.trace());
	Ok(())
}
fn any_order_map<'r, K: Drive, V: Drive, R: BorrowedReader>(n: usize, want: Vec<Vec<u8>>, mut w: MapWalker<'r, K, V, R>, s: &mut Src, cx: &mut Cx) -> Res {
	let mut left = want;
	for i in 0..n {
		ensure!(w.remaining() == n - i, "remaining() is {} with {} entries left | {}", w.remaining(), n - i, cx.trace());
		if s.chance(1, 8) {
			cx.note("skip_remaining");
			let r = w.skip_remaining();
			return cx.ok("MapWalker::skip_remaining", r);
		}
		let Some(mut e) = w.next_entry() else { fail!("next_entry() is None with {} entries left | {}", n - i, cx.trace()) };
		cx.evals += 1;
		let (k, v) = if s.bool() {
			cx.note("decode_pair");
			let r = e.decode_pair();
			cx.ok("MapEntry::decode_pair", r)?
		} else {
			cx.note("decode_key, decode_value");
			let k = cx.ok("MapEntry::decode_key", e.decode_key())?;
			(k, cx.ok("MapEntry::decode_value", e.decode_value())?)
		};
		let mut x = k.canon();
		v.emit(&mut x, true);
		let Some(j) = left.iter().position(|y| *y == x) else {
			fail!("the entry {}: {} is not in the map | {}", k.show(), v.show(), cx.trace())
		};
		left.swap_remove(j);
	}
	ensure!(w.next_entry().is_none(), "next_entry() after the end | {}", cx.trace());
	Ok(())
}

macro_rules! maps {
	($($t:ty, $($b:path),*; $($c:path)?;)*) => {$(
		impl<K: Drive $(+ $b)*, V: Drive $(+ $c)?> Drive for $t {
			fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {
				let entries: Vec<(&K, &V)> = self.iter().collect();
				map(&entries, w, s, cx)
			}
		}
	)*};
}
impl<T: Drive + Eq + Hash> Drive for HashSet<T> {
	fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {
		if !cx.lenient && !cx.revs.is_empty() && self.len() > 1 {
			return any_order_seq(self.len(), self.iter().map(|x| x.canon()).collect(), w, s, cx);
		}
		let items: Vec<&T> = self.iter().collect();
		seq(&items, w, s, cx)
	}
}
impl<K: Drive + Eq + Hash, V: Drive> Drive for HashMap<K, V> {
	fn drive<'r, R: BorrowedReader>(&self, w: Self::Walker<'r, R>, s: &mut Src, cx: &mut Cx) -> Res {
		if !cx.lenient && !cx.revs.is_empty() && self.len() > 1 {
			let want = self
				.iter()
				.map(|(k, v)| {
					let mut x = k.canon();
					v.emit(&mut x, true);
					x
				})
				.collect();
			return any_order_map(self.len(), want, w, s, cx);
		}
		let entries: Vec<(&K, &V)> = self.iter().collect();
		map(&entries, w, s, cx)
	}
}
seqs! {
	BTreeSet<T>, Ord;
	BinaryHeap<T>, Ord;
}
maps! {
	BTreeMap<K, V>, Ord; ;
}
#[cfg(feature = "third")]
seqs! {
	imbl::Vector<T>, Clone;
	imbl::OrdSet<T>, Ord, Clone;
	imbl::HashSet<T>, Eq, Hash, Clone;
}
#[cfg(feature = "third")]
maps! {
	imbl::OrdMap<K, V>, Ord, Clone; Clone;
	imbl::HashMap<K, V>, Eq, Hash, Clone; Clone;
}

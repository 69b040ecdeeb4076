//! Support for generated declarations of revisioned types: the reference
//! layout, migration between revisions, and walks through derived walkers.
use crate::refdec::{self, Got};
use crate::refenc;
use crate::walkers::{Cx, Drive, root};
use crate::Subject;
use engine::{Fail, Res, Src, ensure, fail, hex, mix};
use revision::optimised::indexed::{IndexedMapView, IndexedSeqView, IndexedSetView, VariantView};
use revision::*;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
use std::sync::Arc;

// ---------------------------------------------------------------- layout

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
	Legacy,
	Optimised,
	Indexed,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Size {
	Inline,
	Fixed,
	Varlen,
}

/// The pieces of one encoded struct or enum value.
pub struct Parts {
	pub form: Form,
	/// Discriminant and declared size class of an enum's variant.
	pub variant: Option<(u32, Size)>,
	pub fields: Vec<Vec<u8>>,
}

impl Parts {
	/// The whole encoding, and where each field starts in it (and the last ends).
	pub fn assemble(self, rev: u16) -> (Vec<u8>, Vec<usize>) {
		let mut o = Vec::new();
		refenc::uint(rev as u128, 2, &mut o);
		let body: usize = self.fields.iter().map(|f| f.len()).sum();
		match (self.variant, self.form) {
			(None, Form::Legacy) => {}
			(None, Form::Optimised) => o.extend_from_slice(&(body as u32).to_le_bytes()),
			(None, Form::Indexed) => {
				let mut at = 4 * self.fields.len();
				o.extend_from_slice(&((at + body) as u32).to_le_bytes());
				for f in &self.fields {
					o.extend_from_slice(&(at as u32).to_le_bytes());
					at += f.len();
				}
			}
			(Some((disc, _)), Form::Legacy) => refenc::uint(disc as u128, 4, &mut o),
			(Some((disc, size)), _) => {
				let class = match size {
					Size::Inline => 0u8,
					Size::Fixed => 1,
					Size::Varlen => 2,
				};
				o.push(disc as u8 | class << 5);
				if size == Size::Varlen {
					o.extend_from_slice(&(body as u32).to_le_bytes());
				}
			}
		}
		let mut at = vec![o.len()];
		for f in self.fields {
			o.extend(f);
			at.push(o.len());
		}
		(o, at)
	}
}

/// One generated declaration: a type as it stood at some revision, over its
/// nested types as they stood at the same time.
pub trait Instance: Subject + Revisioned {
	const REV: u16;
	/// Revisions of all types of the family, by their number in it.
	const REVS: &'static [u16];
	const ID: usize;
	/// Whether a conversion (of it or a nested type) may refuse a value.
	const ERRS: bool;
	fn parts(&self, canon: bool) -> Parts;
	/// Name tables against the declaration (latest declarations only).
	fn tables() -> Result<(), String> {
		Ok(())
	}
	/// For optimised enums: for each revision, (discriminant, size class, body
	/// length where it is fixed) of every variant alive; `None` for revisions
	/// that are not optimised.
	const TAGS: &'static [Option<&'static [(u32, Size, usize)]>] = &[];

	fn bounds(&self) -> (Vec<u8>, Vec<usize>) {
		self.parts(false).assemble(Self::REV)
	}
}

pub fn piece(f: impl FnOnce(&mut Vec<u8>)) -> Vec<u8> {
	let mut o = Vec::new();
	f(&mut o);
	o
}

/// Bytes of a field with an encoding override, whatever the features.
pub trait Raw: Sized {
	fn raw(&self) -> Vec<u8>;
	fn unraw(b: &mut &[u8]) -> Got<Self>;
}
macro_rules! raw_int {
	($($t:ty)*) => {$(
		impl Raw for $t {
			fn raw(&self) -> Vec<u8> {
				self.to_le_bytes().to_vec()
			}
			fn unraw(b: &mut &[u8]) -> Got<Self> {
				Ok(<$t>::from_le_bytes(refdec::take(b, size_of::<$t>())?.try_into().unwrap()))
			}
		}
	)*};
}
raw_int!(u32 i32 u64 i64 u128 i128);
macro_rules! raw_vec {
	($($t:ty)*) => {$(
		impl Raw for Vec<$t> {
			fn raw(&self) -> Vec<u8> {
				let mut o = Vec::new();
				refenc::len(self.len(), &mut o);
				for x in self {
					o.extend_from_slice(&x.to_le_bytes());
				}
				o
			}
			fn unraw(b: &mut &[u8]) -> Got<Self> {
				refdec::bulk(b, <$t>::from_le_bytes)
			}
		}
	)*};
}
raw_vec!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 f32 f64);
impl Raw for Vec<bool> {
	fn raw(&self) -> Vec<u8> {
		let mut o = Vec::new();
		refenc::len(self.len(), &mut o);
		let at = o.len();
		o.resize(at + self.len().div_ceil(8), 0);
		for (i, b) in self.iter().enumerate() {
			if *b {
				o[at + i / 8] |= 1 << (i % 8);
			}
		}
		o
	}
	fn unraw(b: &mut &[u8]) -> Got<Self> {
		refdec::bits(b)
	}
}

// ---------------------------------------------------------------- migration

/// The documented value of `self` (declared at some revisions) under the
/// declaration `N`, or why decoding has to fail.
pub trait Migrate<N> {
	fn migrate(&self) -> Result<N, String>;
}

/// What generated conversion functions leave behind of what they were given.
pub fn fold(acc: u64, tag: u64, rev: u16, digest: u64) -> u64 {
	mix(acc.rotate_left(9) ^ mix(tag ^ ((rev as u64) << 48)) ^ digest)
}

macro_rules! same_type {
	($($t:ty)*) => {$(
		impl Migrate<$t> for $t {
			fn migrate(&self) -> Result<$t, String> {
				Ok(self.clone())
			}
		}
	)*};
}
same_type!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize bool char f32 f64 String);
impl<const N: usize> Migrate<[u8; N]> for [u8; N] {
	fn migrate(&self) -> Result<[u8; N], String> {
		Ok(*self)
	}
}
impl<A: Migrate<B>, B> Migrate<Vec<B>> for Vec<A> {
	fn migrate(&self) -> Result<Vec<B>, String> {
		self.iter().map(|x| x.migrate()).collect()
	}
}
impl<A: Migrate<B>, B: Ord> Migrate<BTreeSet<B>> for BTreeSet<A> {
	fn migrate(&self) -> Result<BTreeSet<B>, String> {
		self.iter().map(|x| x.migrate()).collect()
	}
}
impl<A: Migrate<B>, B: Eq + Hash> Migrate<HashSet<B>> for HashSet<A> {
	fn migrate(&self) -> Result<HashSet<B>, String> {
		self.iter().map(|x| x.migrate()).collect()
	}
}
impl<A: Migrate<B>, B> Migrate<Option<B>> for Option<A> {
	fn migrate(&self) -> Result<Option<B>, String> {
		self.as_ref().map(|x| x.migrate()).transpose()
	}
}
impl<A: Migrate<B>, B, C: Migrate<D>, D> Migrate<Result<B, D>> for Result<A, C> {
	fn migrate(&self) -> Result<Result<B, D>, String> {
		Ok(match self {
			Ok(x) => Ok(x.migrate()?),
			Err(x) => Err(x.migrate()?),
		})
	}
}
impl<A: Migrate<B>, B> Migrate<Box<B>> for Box<A> {
	fn migrate(&self) -> Result<Box<B>, String> {
		Ok(Box::new((**self).migrate()?))
	}
}
impl<A: Migrate<B>, B> Migrate<Arc<B>> for Arc<A> {
	fn migrate(&self) -> Result<Arc<B>, String> {
		Ok(Arc::new((**self).migrate()?))
	}
}
impl<A: Migrate<X>, X, B: Migrate<Y>, Y> Migrate<(X, Y)> for (A, B) {
	fn migrate(&self) -> Result<(X, Y), String> {
		Ok((self.0.migrate()?, self.1.migrate()?))
	}
}
impl<A: Migrate<X>, X, B: Migrate<Y>, Y, C: Migrate<Z>, Z> Migrate<(X, Y, Z)> for (A, B, C) {
	fn migrate(&self) -> Result<(X, Y, Z), String> {
		Ok((self.0.migrate()?, self.1.migrate()?, self.2.migrate()?))
	}
}
impl<A: Migrate<X>, X: Ord, B: Migrate<Y>, Y> Migrate<BTreeMap<X, Y>> for BTreeMap<A, B> {
	fn migrate(&self) -> Result<BTreeMap<X, Y>, String> {
		self.iter().map(|(k, v)| Ok((k.migrate()?, v.migrate()?))).collect()
	}
}
impl<A: Migrate<X>, X: Eq + Hash, B: Migrate<Y>, Y> Migrate<HashMap<X, Y>> for HashMap<A, B> {
	fn migrate(&self) -> Result<HashMap<X, Y>, String> {
		self.iter().map(|(k, v)| Ok((k.migrate()?, v.migrate()?))).collect()
	}
}

// ---------------------------------------------------------------- walking

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
	/// Reading from the reader itself, field after field.
	Wire,
	/// Over the borrowed payload of an indexed struct, fields in any order.
	Indexed,
	/// Over the borrowed body of an optimised enum's variant.
	Optimised,
	/// Over the migrated value, encoded again at the latest revision.
	Owned,
}

pub struct Info {
	pub id: usize,
	pub name: &'static str,
	/// Has conversions, which a walk over an older revision has to honour.
	pub converts: bool,
	pub is_enum: bool,
	/// By revision.
	pub forms: &'static [Form],
}

/// Where a walker stands.
#[derive(Clone, Copy)]
pub struct At {
	pub mode: Mode,
	/// Revision of the bytes in the input.
	pub wire: u16,
	pub latest: u16,
	/// Form of the bytes the walker reads from.
	pub form: Form,
}

impl At {
	/// Revision whose layout the walker's bytes have.
	pub fn rev(&self) -> u16 {
		if self.mode == Mode::Owned { self.latest } else { self.wire }
	}
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
	Plain,
	/// `indexed_map`, `indexed_seq` or `indexed_set`
	Indexed,
	/// `fixed` or `specialised`
	Raw,
}

/// A field of the latest declaration.
pub struct Field {
	pub name: &'static str,
	pub kind: Kind,
	/// By revision: its number among the fields on the wire; where it is absent,
	/// -1 - n with n the number of the next field on the wire.
	pub pos: &'static [i8],
}

impl Field {
	pub fn present(&self, at: &At) -> bool {
		self.pos[at.rev() as usize - 1] >= 0
	}
	fn start(&self, at: &At) -> usize {
		let p = self.pos[at.rev() as usize - 1];
		if p < 0 { (-1 - p) as usize } else { p as usize }
	}
	/// Whether its bytes are in the encoding of its type.
	fn plain(&self, at: &At) -> bool {
		match self.kind {
			Kind::Plain => true,
			Kind::Indexed => at.form == Form::Legacy,
			Kind::Raw => at.form != Form::Legacy,
		}
	}
}

impl Cx<'_> {
	pub fn at_type(&self, i: &Info) -> At {
		let latest = i.forms.len() as u16;
		let wire = self.revs.get(i.id).copied().unwrap_or(latest);
		let f = i.forms[wire as usize - 1];
		let mode = if i.converts && wire != latest {
			Mode::Owned
		} else if i.is_enum && f != Form::Legacy {
			Mode::Optimised
		} else if f == Form::Indexed {
			Mode::Indexed
		} else {
			Mode::Wire
		};
		let form = if mode == Mode::Owned { i.forms[latest as usize - 1] } else { f };
		At { mode, wire, latest, form }
	}
	/// The walker is given up before the field number `n` of the wire.
	pub fn halt(&mut self, at: &At, n: usize) {
		if at.mode == Mode::Wire && self.depth == 0 && !self.lenient {
			self.stop = Some(self.bounds[n]);
		}
	}
	fn slice_of(&self, what: &str, b: &Cow<'_, [u8]>, at: &At, from: usize, to: usize) -> Res {
		if at.mode == Mode::Owned || self.lenient {
			return Ok(());
		}
		let lo = self.buf.as_ptr() as usize;
		let p = b.as_ptr() as usize;
		ensure!(
			matches!(b, Cow::Borrowed(_)) && (b.is_empty() || (p >= lo && p + b.len() <= lo + self.buf.len())),
			"{what} gave bytes that are not borrowed from the input | {}",
			self.trace()
		);
		if self.depth == 0 {
			let want = &self.buf[self.bounds[from]..self.bounds[to]];
			ensure!(**b == *want, "{what} gave {} instead of {} | {}", hex(b), hex(want), self.trace());
		}
		Ok(())
	}
}

pub enum Op {
	Decode,
	Skip,
	Walk,
	IntoWalk,
	IntoBytes,
	Drop,
}

/// What to do with a field. `last`: no field follows.
pub fn op<T: Drive>(v: &T, f: &Field, last: bool, at: &At, s: &mut Src, cx: &mut Cx) -> Op {
	// giving the walker up is fine where nothing of the value is left unread
	let free = at.mode != Mode::Wire || cx.depth == 0;
	let end = if last { 12 } else if free { 3 } else { 0 };
	let drop_ = if free { 2 } else { 0 };
	match s.weighted(&[30, 15, 30, end, end, drop_]) {
		1 => Op::Skip,
		2 if walk_ok(v, f, at, cx) => Op::Walk,
		3 if into_ok(v, f, at, cx) => Op::IntoWalk,
		4 => Op::IntoBytes,
		5 => Op::Drop,
		_ => Op::Decode,
	}
}

/// `walk_<field>` of a field in its type's own encoding. Whether it consumed
/// the field.
pub fn walked<'r, T: Drive, R: BorrowedReader + 'r>(
	v: &T,
	f: &Field,
	at: &At,
	what: &str,
	r: Result<T::Walker<'r, R>, Error>,
	s: &mut Src,
	cx: &mut Cx,
) -> Result<bool, Fail> {
	cx.descents += 1;
	if cx.lenient {
		let Ok(w) = r else { return Ok(false) };
		v.drive(w, s, cx)?;
		return Ok(true);
	}
	if at.mode != Mode::Wire || !f.present(at) || !f.plain(at) || !T::WALKABLE {
		cx.refused(&format!("{what}_{}", f.name), r)?;
		return Ok(false);
	}
	let w = cx.ok(&format!("{what}_{}", f.name), r)?;
	cx.note(format!("{what}_{}", f.name));
	cx.depth += 1;
	v.drive(w, s, cx)?;
	cx.depth -= 1;
	Ok(true)
}

/// Whether opening a walker over the field does not involve decoding or encoding.
pub fn opens_on<T: Drive>(_: &T, f: &Field, at: &At, cx: &Cx) -> bool {
	at.mode != Mode::Owned
		&& f.present(at)
		&& match f.kind {
			Kind::Indexed => !f.plain(at),
			_ => f.plain(at) && T::calm(cx),
		}
}

/// Where a walk into the field could not be followed to its end.
pub fn walk_ok<T: Drive>(v: &T, f: &Field, at: &At, cx: &Cx) -> bool {
	f.kind == Kind::Indexed || at.mode != Mode::Wire || !f.present(at) || !f.plain(at) || !T::WALKABLE || v.drivable(cx)
}
/// Likewise for one that gives up the walker of the struct.
pub fn into_ok<T: Drive>(v: &T, f: &Field, at: &At, cx: &Cx) -> bool {
	f.kind == Kind::Indexed
		|| at.mode != Mode::Wire
		|| !f.present(at)
		|| if f.plain(at) && T::WALKABLE { v.drivable(cx) } else { cx.depth == 0 }
}

/// The walker was given up by an operation on the field.
pub fn ended(f: &Field, at: &At, consumed: bool, cx: &mut Cx) {
	cx.halt(at, f.start(at) + (consumed && f.present(at)) as usize);
}

fn view<'r, V>(f: &Field, at: &At, what: &str, r: Result<V, Error>, cx: &mut Cx) -> Result<Option<V>, Fail> {
	cx.descents += 1;
	let what = format!("{what}_{}", f.name);
	if !f.present(at) && !cx.lenient {
		cx.refused(&what, r.map(|_| ()))?;
		return Ok(None);
	}
	cx.note(what.clone());
	Ok(Some(cx.ok(&what, r)?))
}

fn one<T: DeserializeRevisioned>(what: &str, b: &[u8], cx: &Cx) -> Result<T, Fail> {
	let mut r: &[u8] = b;
	let v = cx.ok(what, T::deserialize_revisioned(&mut r))?;
	ensure!(r.is_empty(), "{what} leaves {} of the bytes {} | {}", r.len(), hex(b), cx.trace());
	Ok(v)
}

fn within_field(f: &Field, at: &At, what: &str, b: &Cow<'_, [u8]>, cx: &Cx) -> Res {
	if at.mode == Mode::Owned || f.plain(at) {
		// encoded again
		return Ok(());
	}
	let n = f.start(at);
	cx.slice_of(&format!("{what}_{}", f.name), b, at, n, n + 1)
}

fn pairs<'a, K: Subject, V: Subject>(it: impl Iterator<Item = (&'a K, &'a V)>) -> Vec<(Vec<u8>, Vec<u8>)> {
	let mut v: Vec<_> = it.map(|(k, v)| (k.canon(), v.canon())).collect();
	v.sort();
	v
}

/// The view of an `indexed_map` field.
pub fn map_view<'a, K: Drive, V: Drive>(
	want: impl Iterator<Item = (&'a K, &'a V)>,
	f: &Field,
	at: &At,
	what: &str,
	r: Result<IndexedMapView<'_, K, V>, Error>,
	s: &mut Src,
	cx: &mut Cx,
) -> Result<bool, Fail> {
	let Some(view) = view(f, at, what, r, cx)? else { return Ok(false) };
	let want = pairs(want);
	let w = cx.ok("IndexedMapView::walker", view.walker())?;
	cx.evals += 1;
	if cx.lenient {
		let _ = (w.len(), w.is_empty(), w.is_indexed());
		let mut keys: Vec<&[u8]> = Vec::new();
		if let Some(it) = w.entries() {
			for (k, v) in it.take(300) {
				let _ = (from_slice::<K>(k), from_slice::<V>(v));
				keys.push(k);
			}
		}
		for _ in 0..3 {
			let t: &[u8] = if keys.is_empty() { &[1] } else { keys[s.below(keys.len())] };
			if let Ok(Some(v)) = w.find_value_bytes(|k| k.cmp(t)) {
				let _ = from_slice::<V>(v);
			}
		}
		if let Some(mut r) = w.legacy_body() {
			for _ in 0..w.len().min(20) {
				let _ = (K::deserialize_revisioned(&mut r), V::deserialize_revisioned(&mut r));
			}
		}
		let _ = view.into_bytes();
		return Ok(true);
	}
	ensure!(w.len() == want.len(), "{what}_{}: {} entries instead of {} | {}", f.name, w.len(), want.len(), cx.trace());
	ensure!(
		w.is_indexed() == (want.len() >= refenc::THRESHOLD),
		"{what}_{}: is_indexed() is {} with {} entries | {}",
		f.name,
		w.is_indexed(),
		want.len(),
		cx.trace()
	);
	let mut got: Vec<(K, V)> = Vec::new();
	match w.entries() {
		Some(it) => {
			for (k, v) in it {
				got.push((one("key of a view", k, cx)?, one("value of a view", v, cx)?));
			}
			let keys: Vec<&[u8]> = w.entries().unwrap().map(|e| e.0).collect();
			let t = keys[s.below(keys.len())];
			let hit = cx.ok("find_value_bytes", w.find_value_bytes(|k| k.cmp(t)))?;
			let Some(hit) = hit else { fail!("a key of {what}_{} is not found | {}", f.name, cx.trace()) };
			let i = keys.iter().position(|k| *k == t).unwrap();
			let v: V = one("found value", hit, cx)?;
			ensure!(v.same(&got[i].1), "find_value_bytes shows another value | {}", cx.trace());
		}
		None => {
			let Some(mut r) = w.legacy_body() else { fail!("no entries at all | {}", cx.trace()) };
			for _ in 0..w.len() {
				let k = cx.ok("key in a view", K::deserialize_revisioned(&mut r))?;
				let v = cx.ok("value in a view", V::deserialize_revisioned(&mut r))?;
				got.push((k, v));
			}
			ensure!(r.is_empty(), "{} bytes behind the entries of {what}_{}", r.len(), f.name);
		}
	}
	let got = pairs(got.iter().map(|(k, v)| (k, v)));
	ensure!(got == want, "{what}_{} shows other entries than decoding | {}", f.name, cx.trace());
	within_field(f, at, what, &view.into_bytes(), cx)?;
	Ok(true)
}

fn items<T: Drive>(w: &optimised::IndexedSeqWalker<'_, T>, n: usize, name: &str, cx: &mut Cx) -> Result<Vec<T>, Fail> {
	cx.evals += 1;
	if cx.lenient {
		let m = w.len();
		for i in (0..m.min(100)).chain([m.wrapping_sub(1), m, m.wrapping_add(1), usize::MAX, n]) {
			if let Ok(b) = w.element_bytes(i) {
				let _ = from_slice::<T>(b);
			}
		}
		let mut r = w.body();
		for _ in 0..m.min(20) {
			let _ = T::deserialize_revisioned(&mut r);
		}
		return Err(Fail::new("seen"));
	}
	ensure!(w.len() == n, "{name}: {} elements instead of {n} | {}", w.len(), cx.trace());
	ensure!(
		w.is_indexed() == (n >= refenc::THRESHOLD),
		"{name}: is_indexed() is {} with {n} elements | {}",
		w.is_indexed(),
		cx.trace()
	);
	let mut got = Vec::new();
	if w.is_indexed() {
		for i in 0..n {
			let b = cx.ok("element_bytes", w.element_bytes(i))?;
			got.push(one("element of a view", b, cx)?);
		}
		ensure!(w.element_bytes(n).is_err(), "an element behind the last | {}", cx.trace());
	} else {
		let mut r = w.body();
		for _ in 0..n {
			got.push(cx.ok("element in a view", T::deserialize_revisioned(&mut r))?);
		}
		ensure!(r.is_empty(), "{} bytes behind the elements of {name}", r.len());
	}
	Ok(got)
}

/// The view of an `indexed_seq` field.
pub fn seq_view<'a, T: Drive>(
	want: impl Iterator<Item = &'a T>,
	f: &Field,
	at: &At,
	what: &str,
	r: Result<IndexedSeqView<'_, T>, Error>,
	cx: &mut Cx,
) -> Result<bool, Fail> {
	let Some(view) = view(f, at, what, r, cx)? else { return Ok(false) };
	let want: Vec<&T> = want.collect();
	let w = cx.ok("IndexedSeqView::walker", view.walker())?;
	let got = items(&w, want.len(), f.name, cx)?;
	for (i, (a, b)) in got.iter().zip(&want).enumerate() {
		ensure!(b.same(a), "{what}_{} shows {} at {i} instead of {} | {}", f.name, a.show(), b.show(), cx.trace());
	}
	within_field(f, at, what, &view.into_bytes(), cx)?;
	Ok(true)
}

/// The view of an `indexed_set` field.
pub fn set_view<'a, T: Drive>(
	want: impl Iterator<Item = &'a T>,
	f: &Field,
	at: &At,
	what: &str,
	r: Result<IndexedSetView<'_, T>, Error>,
	cx: &mut Cx,
) -> Result<bool, Fail> {
	let Some(view) = view(f, at, what, r, cx)? else { return Ok(false) };
	let mut want: Vec<_> = want.map(|x| x.canon()).collect();
	let w = cx.ok("IndexedSetView::walker", view.walker())?;
	let mut got: Vec<_> = items(&w, want.len(), f.name, cx)?.iter().map(|x| x.canon()).collect();
	want.sort();
	got.sort();
	ensure!(got == want, "{what}_{} shows other elements than decoding | {}", f.name, cx.trace());
	within_field(f, at, what, &view.into_bytes(), cx)?;
	Ok(true)
}

/// `into_<field>_bytes`; `special` checks bytes that are not in the type's own
/// encoding.
pub fn bytes_of<T: Drive>(
	v: &T,
	f: &Field,
	at: &At,
	r: Result<Cow<'_, [u8]>, Error>,
	special: impl Fn(&[u8]) -> Result<bool, Error>,
	s: &mut Src,
	cx: &mut Cx,
) -> Res {
	let what = format!("into_{}_bytes", f.name);
	if !f.present(at) && !cx.lenient {
		return cx.refused(&what, r);
	}
	cx.note(what.clone());
	let b = cx.ok(&what, r)?;
	cx.evals += 1;
	let n = f.start(at);
	cx.slice_of(&what, &b, at, n, n + 1)?;
	if !f.plain(at) {
		let good = cx.ok(&what, special(&b))?;
		ensure!(good, "{what} gave {} for {} | {}", hex(&b), v.show(), cx.trace());
		return Ok(());
	}
	let got: T = one(&what, &b, cx)?;
	ensure!(v.same(&got), "{what} gave {} instead of {} | {}", got.show(), v.show(), cx.trace());
	if at.mode != Mode::Owned && T::WALKABLE && v.drivable(cx) && s.bool() {
		// the bytes are there to be walked
		cx.note("walking them");
		cx.depth += 1;
		let mut r = SliceReader::new(&b);
		root(v, &mut r, s, cx)?;
		cx.depth -= 1;
		ensure!(r.remaining().is_empty(), "walking the bytes leaves {} | {}", r.remaining().len(), cx.trace());
	}
	Ok(())
}

pub fn is_map<T: Subject + optimised::indexed::IndexedMapEncoded>(v: &T, b: &[u8]) -> Result<bool, Error> {
	let mut r: &[u8] = b;
	let got = T::deserialize_indexed_map(&mut r)?;
	Ok(r.is_empty() && v.same(&got))
}
pub fn is_seq<T: Subject + optimised::indexed::IndexedSeqEncoded>(v: &T, b: &[u8]) -> Result<bool, Error> {
	let mut r: &[u8] = b;
	let got = T::deserialize_indexed_seq(&mut r)?;
	Ok(r.is_empty() && v.same(&got))
}
pub fn is_set<T: Subject + optimised::indexed::IndexedSetEncoded>(v: &T, b: &[u8]) -> Result<bool, Error> {
	let mut r: &[u8] = b;
	let got = T::deserialize_indexed_set(&mut r)?;
	Ok(r.is_empty() && v.same(&got))
}
pub fn is_raw<T: Raw>(v: &T, b: &[u8]) -> Result<bool, Error> {
	Ok(v.raw() == b)
}

/// Order in which to visit the fields of a struct.
pub fn order(n: usize, at: &At, s: &mut Src) -> Vec<usize> {
	if at.mode != Mode::Indexed || n == 0 {
		return (0..n).collect();
	}
	let m = s.below(2 * n + 1);
	(0..m).map(|_| s.below(n)).collect()
}

pub struct Variant {
	pub name: &'static str,
	/// Discriminant by revision, where alive.
	pub disc: &'static [Option<u32>],
}

/// What an enum's walker says about the variant it stands at.
pub fn enum_head(
	vs: &[Variant],
	me: usize,
	at: &At,
	revision: u16,
	disc: u32,
	is: &[bool],
	name: fn(u16, u32) -> Option<&'static str>,
	cx: &mut Cx,
) -> Res {
	cx.evals += 1;
	if cx.lenient {
		let _ = name(revision, disc);
		return Ok(());
	}
	ensure!(revision == at.rev(), "revision() is {revision} instead of {} | {}", at.rev(), cx.trace());
	let want = vs[me].disc[at.rev() as usize - 1];
	ensure!(Some(disc) == want, "discriminant() is {disc} instead of {want:?} for {} | {}", vs[me].name, cx.trace());
	for (i, b) in is.iter().enumerate() {
		ensure!(
			*b == (i == me),
			"is_{}() is {b} for the variant {} | {}",
			vs[i].name,
			vs[me].name,
			cx.trace()
		);
	}
	let n = name(revision, disc);
	ensure!(n == Some(vs[me].name), "the variant {} is called {n:?} | {}", vs[me].name, cx.trace());
	Ok(())
}

/// Whether to ask for another variant, and which.
pub fn wrong(n: usize, me: usize, at: &At, s: &mut Src, cx: &mut Cx) -> Option<usize> {
	if cx.lenient && n >= 2 && s.chance(1, 2) {
		return Some(s.below(n));
	}
	if n < 2 || !cx.misuse || (cx.depth > 0 && at.mode == Mode::Wire) || !s.chance(1, 3) {
		return None;
	}
	let k = s.below(n - 1);
	Some(if k >= me { k + 1 } else { k })
}

/// `<variant>_view` of a variant with a single field.
pub fn variant_view<T: Drive>(
	v: &T,
	f: &Field,
	at: &At,
	r: Result<VariantView<'_, T>, Error>,
	cx: &mut Cx,
) -> Res {
	let what = format!("{}_view", f.name);
	cx.note(what.clone());
	cx.evals += 1;
	let b = cx.ok(&what, r)?.into_bytes();
	if at.mode == Mode::Optimised && f.present(at) {
		cx.slice_of(&what, &b, at, 0, 1)?;
	}
	let got: T = one(&what, &b, cx)?;
	ensure!(v.same(&got), "{what} shows {} instead of {} | {}", got.show(), v.show(), cx.trace());
	Ok(())
}

/// `<variant>_view` of any other variant; `read` goes through the fields.
pub fn body_view(
	name: &str,
	n: usize,
	at: &At,
	r: Result<VariantView<'_, ()>, Error>,
	read: impl FnOnce(&mut &[u8]) -> Result<bool, Error>,
	cx: &mut Cx,
) -> Res {
	let what = format!("{name}_view");
	if at.mode == Mode::Wire && !cx.lenient {
		return cx.refused(&what, r);
	}
	cx.note(what.clone());
	cx.evals += 1;
	let b = cx.ok(&what, r)?.into_bytes();
	cx.slice_of(&what, &b, at, 0, n)?;
	let mut rd: &[u8] = &b;
	let good = cx.ok(&what, read(&mut rd))?;
	ensure!(good && rd.is_empty(), "{what} shows {} | {}", hex(&b), cx.trace());
	Ok(())
}
pub fn take<T: Subject>(v: &T, b: &mut &[u8]) -> Result<bool, Error> {
	Ok(v.same(&T::deserialize_revisioned(b)?))
}
pub fn take_raw<T: Raw>(v: &T, b: &mut &[u8]) -> Result<bool, Error> {
	let want = v.raw();
	let good = b.starts_with(&want);
	if good {
		*b = &b[want.len()..];
	}
	Ok(good)
}

/// What a struct's walker says about itself.
pub fn struct_head(i: &Info, at: &At, revision: u16, cx: &mut Cx) -> Res {
	cx.evals += 1;
	ensure!(
		cx.lenient || revision == at.rev(),
		"revision() of a walker of {} is {revision} instead of {} | {}",
		i.name,
		at.rev(),
		cx.trace()
	);
	Ok(())
}

/// The tables of variants, by revision, are those of the declaration.
pub fn variant_tables(
	rows: &[&[(&str, u32)]],
	table: impl Fn(u16) -> &'static [(&'static str, u32)],
	name: impl Fn(u16, u32) -> Option<&'static str>,
) -> Result<(), String> {
	for rev in (0..=rows.len() as u16 + 2).chain([u16::MAX]) {
		let want: &[(&str, u32)] = if rev == 0 { &[] } else { rows.get(rev as usize - 1).copied().unwrap_or(&[]) };
		let mut got: Vec<(u32, &str)> = table(rev).iter().map(|(n, d)| (*d, *n)).collect();
		got.sort();
		let mut exp: Vec<(u32, &str)> = want.iter().map(|(n, d)| (*d, *n)).collect();
		exp.sort();
		if got != exp {
			return Err(format!("variant table of revision {rev} is {got:?} instead of {exp:?}"));
		}
		for d in want.iter().map(|x| x.1).chain(0..40).chain([250, 251, 65536, u32::MAX]) {
			let exp = want.iter().find(|x| x.1 == d).map(|x| x.0);
			let got = name(rev, d);
			if got != exp {
				return Err(format!("discriminant {d} of revision {rev} is called {got:?} instead of {exp:?}"));
			}
		}
	}
	Ok(())
}

/// The table of field names, by revision, is that of the declaration.
pub fn field_tables(rows: &[&[&str]], names: impl Fn(u16) -> &'static [&'static str]) -> Result<(), String> {
	for rev in (0..=rows.len() as u16 + 2).chain([u16::MAX]) {
		let want: &[&str] = if rev == 0 { &[] } else { rows.get(rev as usize - 1).copied().unwrap_or(&[]) };
		if names(rev) != want {
			return Err(format!("fields of revision {rev} are {:?} instead of {want:?}", names(rev)));
		}
	}
	Ok(())
}


use crate::refdec::{self, Bad, Got, Unknown};
use crate::refenc::{self, bytes, len, sint, uint};
use crate::{SPEC, Subject};
use engine::Src;
use revision::*;
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::num::Wrapping;
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

macro_rules! raw_vec {
	() => {
		const BULK: bool = SPEC;
		fn emit_vec(v: &[Self], o: &mut Vec<u8>, c: bool) {
			len(v.len(), o);
			for x in v {
				if SPEC {
					o.extend_from_slice(&x.to_le_bytes());
				} else {
					x.emit(o, c);
				}
			}
		}
		fn read_vec(b: &mut &[u8]) -> Got<Vec<Self>> {
			if SPEC { refdec::bulk(b, Self::from_le_bytes) } else { refdec::list(b, Self::read) }
		}
	};
}

macro_rules! unsigned {
	($($t:ty, $w:expr);*) => {$(
		impl Subject for $t {
			const CHEAP: bool = true;
			fn gen_(s: &mut Src, _d: u32) -> Self {
				s.uint(8 * $w) as $t
			}
			fn emit(&self, o: &mut Vec<u8>, _c: bool) {
				uint(*self as u128, $w, o)
			}
			fn read(b: &mut &[u8]) -> Got<Self> {
				Ok(refdec::uint(b, $w)? as $t)
			}
			raw_vec!();
		}
	)*};
}
macro_rules! signed {
	($($t:ty, $w:expr);*) => {$(
		impl Subject for $t {
			const CHEAP: bool = true;
			fn gen_(s: &mut Src, _d: u32) -> Self {
				let m = s.uint(8 * $w);
				// half through zig-zag (varint boundaries), half direct
				if s.bool() {
					((m >> 1) as $t) ^ (-((m & 1) as i128) as $t)
				} else {
					m as $t
				}
			}
			fn emit(&self, o: &mut Vec<u8>, _c: bool) {
				sint(*self as i128, $w, o)
			}
			fn read(b: &mut &[u8]) -> Got<Self> {
				Ok(refdec::sint(b, $w)? as $t)
			}
			raw_vec!();
		}
	)*};
}
unsigned!(u16, 2; u32, 4; u64, 8; u128, 16);
signed!(i16, 2; i32, 4; i64, 8; i128, 16);

impl Subject for u8 {
	const CHEAP: bool = true;
	fn gen_(s: &mut Src, _d: u32) -> Self {
		s.uint(8) as u8
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		o.push(*self)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		refdec::byte(b)
	}
	raw_vec!();
}
impl Subject for i8 {
	const CHEAP: bool = true;
	fn gen_(s: &mut Src, _d: u32) -> Self {
		s.uint(8) as u8 as i8
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		o.push(*self as u8)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(refdec::byte(b)? as i8)
	}
	raw_vec!();
}
impl Subject for usize {
	const CHEAP: bool = true;
	fn gen_(s: &mut Src, _d: u32) -> Self {
		s.uint(64) as usize
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		uint(*self as u128, 8, o)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(refdec::uint(b, 8)? as usize)
	}
}
impl Subject for isize {
	const CHEAP: bool = true;
	fn gen_(s: &mut Src, d: u32) -> Self {
		i64::gen_(s, d) as isize
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		sint(*self as i128, 8, o)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(refdec::sint(b, 8)? as isize)
	}
}
impl Subject for bool {
	const VEC_STRICT: bool = !SPEC;
	const CHEAP: bool = true;
	fn gen_(s: &mut Src, _d: u32) -> Self {
		s.bool()
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		o.push(*self as u8)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		match refdec::byte(b)? {
			0 => Ok(false),
			1 => Ok(true),
			_ => Err(Bad),
		}
	}
	fn read_vec(b: &mut &[u8]) -> Got<Vec<Self>> {
		if SPEC { refdec::bits(b) } else { refdec::list(b, Self::read) }
	}
	const BULK: bool = SPEC;
	fn emit_vec(v: &[Self], o: &mut Vec<u8>, _c: bool) {
		len(v.len(), o);
		if !SPEC {
			o.extend(v.iter().map(|b| *b as u8));
			return;
		}
		let at = o.len();
		o.resize(at + v.len().div_ceil(8), 0);
		for (i, b) in v.iter().enumerate() {
			if *b {
				o[at + i / 8] |= 1 << (i % 8);
			}
		}
	}
}

pub fn gen_f64(s: &mut Src) -> f64 {
	match s.weighted(&[2, 4, 3]) {
		0 => s.draw(100) as f64,
		1 => *s.pick(&[
			0.0,
			-0.0,
			1.5,
			-1.0,
			f64::INFINITY,
			f64::NEG_INFINITY,
			f64::NAN,
			-f64::NAN,
			f64::MIN_POSITIVE,
			f64::MAX,
			f64::MIN,
			5e-324,
		]),
		_ => f64::from_bits(s.draw(u64::MAX)),
	}
}
/// No NaN.
pub fn gen_f64_num(s: &mut Src) -> f64 {
	let f = gen_f64(s);
	if f.is_nan() { 0.25 } else { f }
}
impl Subject for f64 {
	const CHEAP: bool = true;
	fn gen_(s: &mut Src, _d: u32) -> Self {
		gen_f64(s)
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		o.extend_from_slice(&self.to_bits().to_le_bytes())
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		let x = refdec::take(b, size_of::<f64>())?;
		Ok(f64::from_le_bytes(x.try_into().unwrap()))
	}
	raw_vec!();
}
impl Subject for f32 {
	const CHEAP: bool = true;
	fn gen_(s: &mut Src, _d: u32) -> Self {
		match s.weighted(&[2, 3, 3]) {
			0 => s.draw(100) as f32,
			1 => *s.pick(&[0.0, -0.0, 1.5, -1.0, f32::INFINITY, f32::NAN, f32::MAX, f32::MIN, 1e-45]),
			_ => f32::from_bits(s.draw(u32::MAX as u64) as u32),
		}
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		o.extend_from_slice(&self.to_bits().to_le_bytes())
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		let x = refdec::take(b, size_of::<f32>())?;
		Ok(f32::from_le_bytes(x.try_into().unwrap()))
	}
	raw_vec!();
}

pub fn gen_char(s: &mut Src) -> char {
	match s.weighted(&[10, 3, 3]) {
		0 => (b'a' + s.draw(25) as u8) as char,
		1 => *s.pick(&[
			'\0', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}',
			'\u{10000}', '\u{10ffff}', '€', '𝄞', '"', '\n',
		]),
		_ => char::from_u32(s.draw(0x10ffff) as u32).unwrap_or('\u{fffd}'),
	}
}
impl Subject for char {
	const CHEAP: bool = true;
	fn gen_(s: &mut Src, _d: u32) -> Self {
		gen_char(s)
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		let mut b = [0; 4];
		o.extend_from_slice(self.encode_utf8(&mut b).as_bytes())
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		refdec::char_(b)
	}
}
pub fn gen_string(s: &mut Src) -> String {
	let n = s.len(true);
	if n > 40 {
		let mut t = s.sub();
		let ascii = t.bool();
		let mut r = String::with_capacity(n + 4);
		while r.len() < n {
			r.push(if ascii { (b' ' + t.draw(90) as u8) as char } else { gen_char(&mut t) });
		}
		return r;
	}
	(0..n).map(|_| gen_char(s)).collect()
}
impl Subject for String {
	fn gen_(s: &mut Src, _d: u32) -> Self {
		gen_string(s)
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		bytes(self.as_bytes(), o)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(refdec::text(b)?.into())
	}
}
impl Subject for Box<str> {
	fn gen_(s: &mut Src, _d: u32) -> Self {
		gen_string(s).into()
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		bytes(self.as_bytes(), o)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(refdec::text(b)?.into())
	}
}
impl Subject for Arc<str> {
	fn gen_(s: &mut Src, _d: u32) -> Self {
		gen_string(s).into()
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		bytes(self.as_bytes(), o)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(refdec::text(b)?.into())
	}
}
impl Subject for Cow<'static, str> {
	fn gen_(s: &mut Src, _d: u32) -> Self {
		if s.bool() {
			Cow::Borrowed(*s.pick(&["", "a", "borrowed", "é𝄞"]))
		} else {
			Cow::Owned(gen_string(s))
		}
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		bytes(self.as_bytes(), o)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(Cow::Owned(refdec::text(b)?.into()))
	}
}
impl Subject for PathBuf {
	fn gen_(s: &mut Src, _d: u32) -> Self {
		gen_string(s).into()
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		bytes(self.to_str().unwrap().as_bytes(), o)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(refdec::text(b)?.into())
	}
}
pub fn gen_nanos(s: &mut Src) -> u32 {
	match s.below(3) {
		0 => 0,
		1 => *s.pick(&[1u32, 250, 251, 65535, 65536, 999_999_999, 500_000_000]),
		_ => s.draw(999_999_999) as u32,
	}
}
impl Subject for Duration {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, _d: u32) -> Self {
		Duration::new(s.uint(64) as u64, gen_nanos(s))
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		uint(self.as_secs() as u128, 8, o);
		uint(self.subsec_nanos() as u128, 4, o);
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		let (s, n) = (u64::read(b)?, u32::read(b)?);
		// nanoseconds past a second carry into the seconds
		Duration::from_secs(s).checked_add(Duration::from_nanos(n as u64)).ok_or(Bad)
	}
}
impl Subject for SystemTime {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, _d: u32) -> Self {
		let d = Duration::new(s.uint(63) as u64, gen_nanos(s));
		UNIX_EPOCH.checked_add(d).unwrap_or(UNIX_EPOCH)
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		let d = self.duration_since(UNIX_EPOCH).unwrap();
		uint(d.as_secs() as u128, 8, o);
		uint(d.subsec_nanos() as u128, 4, o);
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		UNIX_EPOCH.checked_add(Duration::read(b)?).ok_or(Bad)
	}
}

// ---------------------------------------------------------------- wrappers

impl<T: Subject> Subject for Option<T> {
	const STRICT: bool = T::STRICT;
	const CHEAP: bool = T::CHEAP;
	fn gen_(s: &mut Src, d: u32) -> Self {
		if s.chance(2, 3) { Some(T::gen_(s, d + 1)) } else { None }
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		o.push(self.is_some() as u8);
		if let Some(x) = self {
			x.emit(o, c)
		}
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		match refdec::byte(b)? {
			0 => Ok(None),
			1 => Ok(Some(T::read(b)?)),
			_ => Err(Bad),
		}
	}
}
impl<T: Subject, E: Subject> Subject for Result<T, E> {
	const STRICT: bool = T::STRICT && E::STRICT;
	fn gen_(s: &mut Src, d: u32) -> Self {
		if s.bool() { Err(E::gen_(s, d + 1)) } else { Ok(T::gen_(s, d + 1)) }
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		match self {
			Ok(x) => {
				uint(0, 4, o);
				x.emit(o, c)
			}
			Err(x) => {
				uint(1, 4, o);
				x.emit(o, c)
			}
		}
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		match refdec::uint(b, 4)? {
			0 => Ok(Ok(T::read(b)?)),
			1 => Ok(Err(E::read(b)?)),
			_ => Err(Bad),
		}
	}
}
impl<T: Subject> Subject for Bound<T> {
	const STRICT: bool = T::STRICT;
	fn gen_(s: &mut Src, d: u32) -> Self {
		match s.below(3) {
			0 => Bound::Unbounded,
			1 => Bound::Included(T::gen_(s, d + 1)),
			_ => Bound::Excluded(T::gen_(s, d + 1)),
		}
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		match self {
			Bound::Unbounded => uint(0, 4, o),
			Bound::Included(x) => {
				uint(1, 4, o);
				x.emit(o, c)
			}
			Bound::Excluded(x) => {
				uint(2, 4, o);
				x.emit(o, c)
			}
		}
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		match refdec::uint(b, 4)? {
			0 => Ok(Bound::Unbounded),
			1 => Ok(Bound::Included(T::read(b)?)),
			2 => Ok(Bound::Excluded(T::read(b)?)),
			_ => Err(Bad),
		}
	}
}
impl<T: Subject> Subject for Range<T> {
	const STRICT: bool = T::STRICT;
	fn gen_(s: &mut Src, d: u32) -> Self {
		T::gen_(s, d + 1)..T::gen_(s, d + 1)
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		self.start.emit(o, c);
		self.end.emit(o, c);
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(T::read(b)?..T::read(b)?)
	}
}
macro_rules! transparent {
	($($w:ident ($make:expr) ($get:expr)),*) => {$(
		impl<T: Subject> Subject for $w<T> {
			const STRICT: bool = T::STRICT;
			const CHEAP: bool = T::CHEAP;
			fn gen_(s: &mut Src, d: u32) -> Self {
				$make(T::gen_(s, d))
			}
			fn emit(&self, o: &mut Vec<u8>, c: bool) {
				let f: fn(&Self) -> &T = $get;
				f(self).emit(o, c)
			}
			fn read(b: &mut &[u8]) -> Got<Self> {
				Ok($make(T::read(b)?))
			}
		}
	)*};
}
transparent!(
	Box (Box::new) (|x| x),
	Arc (Arc::new) (|x| x),
	Wrapping (Wrapping) (|x| &x.0),
	Reverse (Reverse) (|x| &x.0)
);
impl<T: Subject + Clone + DeserializeRevisioned> Subject for Cow<'static, T> {
	const STRICT: bool = T::STRICT;
	fn gen_(s: &mut Src, d: u32) -> Self {
		Cow::Owned(T::gen_(s, d))
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		T::emit(self, o, c)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(Cow::Owned(T::read(b)?))
	}
}

macro_rules! tuples {
	($(($($n:ident $i:tt),*))*) => {$(
		impl<$($n: Subject),*> Subject for ($($n,)*) {
			const STRICT: bool = $($n::STRICT &&)* true;
			fn gen_(s: &mut Src, d: u32) -> Self {
				($($n::gen_(s, d + 1),)*)
			}
			fn emit(&self, o: &mut Vec<u8>, c: bool) {
				$(self.$i.emit(o, c);)*
			}
			fn read(b: &mut &[u8]) -> Got<Self> {
				Ok(($($n::read(b)?,)*))
			}
		}
	)*};
}
tuples! { (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4) (A 0, B 1, C 2, D 3, E 4, F 5) }

macro_rules! arrays {
	($($n:literal)*) => {$(
		impl<T: Subject + Copy + Default> Subject for [T; $n] {
			const STRICT: bool = T::STRICT;
			fn gen_(s: &mut Src, d: u32) -> Self {
				let mut a = [T::default(); $n];
				for x in &mut a {
					*x = T::gen_(s, d + 1);
				}
				a
			}
			fn emit(&self, o: &mut Vec<u8>, c: bool) {
				for x in self {
					x.emit(o, c)
				}
			}
			fn read(b: &mut &[u8]) -> Got<Self> {
				let mut a = [T::default(); $n];
				for x in &mut a {
					*x = T::read(b)?;
				}
				Ok(a)
			}
		}
	)*};
}
arrays! { 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 }

// ---------------------------------------------------------------- containers

pub fn gen_items<T: Subject>(s: &mut Src, d: u32) -> Vec<T> {
	let mut n = s.len(T::CHEAP);
	if d >= 3 && n > 3 {
		n %= 4;
	}
	if n > 40 {
		let mut t = s.sub();
		return (0..n).map(|_| T::gen_(&mut t, d + 1)).collect();
	}
	(0..n).map(|_| T::gen_(s, d + 1)).collect()
}
pub fn gen_pairs<K: Subject, V: Subject>(s: &mut Src, d: u32) -> Vec<(K, V)> {
	let mut n = s.len(K::CHEAP && V::CHEAP);
	if d >= 3 && n > 3 {
		n %= 4;
	}
	if n > 40 {
		let mut t = s.sub();
		return (0..n.min(3000)).map(|_| (K::gen_(&mut t, d + 1), V::gen_(&mut t, d + 1))).collect();
	}
	(0..n).map(|_| (K::gen_(s, d + 1), V::gen_(s, d + 1))).collect()
}
pub fn canon_items<'a, T: Subject>(it: impl Iterator<Item = &'a T>, n: usize, o: &mut Vec<u8>, c: bool, sort: bool) {
	len(n, o);
	if c && sort {
		let mut v: Vec<Vec<u8>> = it.map(|x| x.canon()).collect();
		v.sort();
		for x in v {
			o.extend(x)
		}
	} else {
		for x in it {
			x.emit(o, c)
		}
	}
}
pub fn canon_pairs<'a, K: Subject, V: Subject>(
	it: impl Iterator<Item = (&'a K, &'a V)>,
	n: usize,
	o: &mut Vec<u8>,
	c: bool,
	sort: bool,
) {
	len(n, o);
	if c && sort {
		let mut v: Vec<Vec<u8>> = it
			.map(|(k, x)| {
				let mut b = k.canon();
				b.extend(x.canon());
				b
			})
			.collect();
		v.sort();
		for x in v {
			o.extend(x)
		}
	} else {
		for (k, x) in it {
			k.emit(o, c);
			x.emit(o, c)
		}
	}
}

/// Which of two elements that are equal but not the same is kept is nobody's
/// business.
pub fn read_set<S: Default, T: Subject>(b: &mut &[u8], replace: fn(&mut S, T) -> Option<T>) -> Got<S> {
	let mut s = S::default();
	refdec::items(b, T::read, |x| {
		let id = x.canon();
		if replace(&mut s, x).is_some_and(|old| old.canon() != id) { Err(Unknown) } else { Ok(()) }
	})?;
	Ok(s)
}
/// Of the values of a key that comes again, the last one counts.
pub fn read_map<M: Default, K: Subject, V: Subject>(
	b: &mut &[u8],
	key: for<'a> fn(&'a M, &K) -> Option<&'a K>,
	insert: fn(&mut M, K, V) -> Option<V>,
) -> Got<M> {
	let mut m = M::default();
	refdec::items(b, |b| Ok((K::read(b)?, V::read(b)?)), |(k, v)| {
		if key(&m, &k).is_some_and(|old| !old.same(&k)) {
			return Err(Unknown);
		}
		insert(&mut m, k, v);
		Ok(())
	})?;
	Ok(m)
}

impl<T: Subject> Subject for Vec<T> {
	const STRICT: bool = T::VEC_STRICT;
	fn gen_(s: &mut Src, d: u32) -> Self {
		gen_items(s, d)
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		T::emit_vec(self, o, c)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		T::read_vec(b)
	}
}
impl<T: Subject + Ord> Subject for BTreeSet<T> {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, d: u32) -> Self {
		gen_items(s, d).into_iter().collect()
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		canon_items(self.iter(), self.len(), o, c, false)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		read_set(b, BTreeSet::replace)
	}
}
impl<T: Subject + Eq + Hash> Subject for HashSet<T> {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, d: u32) -> Self {
		gen_items(s, d).into_iter().collect()
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		canon_items(self.iter(), self.len(), o, c, true)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		read_set(b, HashSet::replace)
	}
}
impl<T: Subject + Ord> Subject for BinaryHeap<T> {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, d: u32) -> Self {
		gen_items(s, d).into_iter().collect()
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		canon_items(self.iter(), self.len(), o, c, true)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(refdec::list(b, T::read)?.into())
	}
}
impl<K: Subject + Ord, V: Subject> Subject for BTreeMap<K, V> {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, d: u32) -> Self {
		gen_pairs(s, d).into_iter().collect()
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		canon_pairs(self.iter(), self.len(), o, c, false)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		read_map(b, |m, k| m.get_key_value(k).map(|e| e.0), BTreeMap::insert)
	}
}
impl<K: Subject + Eq + Hash, V: Subject> Subject for HashMap<K, V> {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, d: u32) -> Self {
		gen_pairs(s, d).into_iter().collect()
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		canon_pairs(self.iter(), self.len(), o, c, true)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		read_map(b, |m, k| m.get_key_value(k).map(|e| e.0), HashMap::insert)
	}
}

/// Values in the order an indexed field writes them.
pub fn emit_indexed_map<'a, K: Subject, V: Subject>(it: impl Iterator<Item = (&'a K, &'a V)>, o: &mut Vec<u8>, c: bool) {
	let one = |c: bool, k: &K, v: &V| {
		let (mut a, mut b) = (Vec::new(), Vec::new());
		k.emit(&mut a, c);
		v.emit(&mut b, c);
		(a, b)
	};
	refenc::indexed_map(it.map(|(k, v)| one(c, k, v)).collect(), o)
}
pub fn emit_indexed_seq<'a, T: Subject>(it: impl Iterator<Item = &'a T>, o: &mut Vec<u8>, c: bool) {
	refenc::indexed_seq(
		it.map(|x| {
			let mut a = Vec::new();
			x.emit(&mut a, c);
			a
		})
		.collect(),
		o,
	)
}
pub fn emit_indexed_set<'a, T: Subject>(it: impl Iterator<Item = &'a T>, o: &mut Vec<u8>, c: bool) {
	refenc::indexed_set(
		it.map(|x| {
			let mut a = Vec::new();
			x.emit(&mut a, c);
			a
		})
		.collect(),
		o,
	)
}

pub fn read_indexed_map<K: Subject, V: Subject, M: FromIterator<(K, V)>>(b: &mut &[u8]) -> Got<M> {
	Ok(refdec::indexed_map(b, K::read, V::read)?.into_iter().collect())
}
pub fn read_indexed_seq<T: Subject, C: FromIterator<T>>(b: &mut &[u8]) -> Got<C> {
	Ok(refdec::indexed_seq(b, false, T::read)?.into_iter().collect())
}
pub fn read_indexed_set<T: Subject, C: FromIterator<T>>(b: &mut &[u8]) -> Got<C> {
	Ok(refdec::indexed_seq(b, true, T::read)?.into_iter().collect())
}

// `()` has no skip impl, so it is handled apart.
pub fn unit_is_empty() -> bool {
	to_vec(&()).is_ok_and(|v| v.is_empty())
}

#[allow(dead_code)]
fn _assert_debug<T: Debug>() {}

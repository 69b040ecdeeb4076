//! Carrier structs with one indexed field between two plain ones, for every
//! kind of indexed collection, and what to do with them.
use crate::*;

/// What was done with the indexed field.
pub enum Out<C> {
	Value(C),
	Skipped,
	View { bytes: Vec<u8>, len: usize, indexed: bool },
	Bytes(Vec<u8>),
}

pub trait Carrier:
	SerializeRevisioned + DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned + WalkRevisioned + Sized + 'static
{
	type C: Coll;
	/// The struct as a whole carries an offset table.
	const INDEXED_STRUCT: bool;
	fn new(a: u32, c: Self::C, z: String) -> Self;
	fn parts(&self) -> (u32, &Self::C, &str);
	/// Walk: `a` and `z` are decoded (0), skipped (1); the field in between is
	/// decoded (0), skipped (1), viewed (2), viewed consuming the walker (3),
	/// or taken as bytes consuming the walker (4).
	fn walk<R: BorrowedReader>(r: &mut R, a: u8, c: u8, z: u8) -> Result<(Option<u32>, Out<Self::C>, Option<String>), Error>;
}

#[macro_export]
macro_rules! carrier {
	($name:ident, $attr:ident, $ty:ty, $is:literal, $($enc:ident),*) => {
		#[revisioned(revision(1, $($enc),*))]
		pub struct $name {
			pub a: u32,
			#[revision($attr)]
			pub c: $ty,
			pub z: String,
		}
		impl $crate::ix::Carrier for $name {
			type C = $ty;
			const INDEXED_STRUCT: bool = $is;
			fn new(a: u32, c: $ty, z: String) -> Self {
				$name { a, c, z }
			}
			fn parts(&self) -> (u32, &$ty, &str) {
				(self.a, &self.c, &self.z)
			}
			fn walk<R: BorrowedReader>(
				r: &mut R,
				a: u8,
				c: u8,
				z: u8,
			) -> Result<(Option<u32>, $crate::ix::Out<$ty>, Option<String>), Error> {
				use $crate::ix::Out;
				let mut w = <$name as WalkRevisioned>::walk_revisioned(r)?;
				let a = if a == 0 { Some(w.decode_a()?) } else { w.skip_a()?; None };
				let c = match c {
					0 => Out::Value(w.decode_c()?),
					1 => {
						w.skip_c()?;
						Out::Skipped
					}
					2 => {
						let v = w.walk_c()?;
						let k = v.walker()?;
						Out::View { bytes: v.as_bytes().to_vec(), len: k.len(), indexed: k.is_indexed() }
					}
					3 => {
						let v = w.into_walk_c()?;
						let k = v.walker()?;
						let o = Out::View { bytes: v.as_bytes().to_vec(), len: k.len(), indexed: k.is_indexed() };
						return Ok((a, o, None));
					}
					_ => return Ok((a, Out::Bytes(w.into_c_bytes()?.into_owned()), None)),
				};
				let z = if z == 0 { Some(w.decode_z()?) } else { w.skip_z()?; None };
				Ok((a, c, z))
			}
		}
	};
}

fn rev_header() -> usize {
	if FIXED { 2 } else { 1 }
}

/// The indexed field's bytes inside a carrier's encoding.
pub fn payload_of<T: Carrier>(enc: &[u8], a: u32, z: &str) -> Result<Vec<u8>, Fail> {
	let h = rev_header() + 4;
	let body = &enc[h.min(enc.len())..];
	let al = revision::to_vec(&a).unwrap().len();
	let zl = revision::to_vec(&z.to_string()).unwrap().len();
	let t = if T::INDEXED_STRUCT { 12 } else { 0 };
	if body.len() < al + zl + t {
		fail!("carrier encoding {} is too short", hex(enc));
	}
	Ok(body[t + al..body.len() - zl].to_vec())
}

pub fn encode<T: Carrier>(a: u32, c: T::C, z: &str) -> Result<(Vec<u8>, Vec<u8>, T), Fail> {
	let t = T::new(a, c, z.to_string());
	let enc = match revision::to_vec(&t) {
		Ok(e) => e,
		Err(e) => fail!("encoding {} failed: {e}", tname::<T>()),
	};
	let p = payload_of::<T>(&enc, a, z)?;
	Ok((enc, p, t))
}

/// Sizes on both sides of the threshold and of the varint and chunk bounds.
pub fn gen_n(s: &mut Src) -> usize {
	match s.weighted(&[30, 40, 20, 5]) {
		0 => s.below(7),
		1 => s.range(6, 10),
		2 => s.range(11, 40),
		_ if engine::small() => 41,
		_ => *s.pick(&[63usize, 64, 249, 250, 251, 252, 256, 300]),
	}
}

#[derive(PartialEq, Clone, Copy)]
pub enum Kind {
	Map,
	Seq,
	Set,
}

/// A collection under test, seen as encoded (key, value) or (element, empty)
/// pairs: sorted by bytes for maps and sets, in order for sequences.
pub trait Coll: Clone + Sized + 'static {
	type Item: Clone + 'static;
	const KIND: Kind;
	fn items(s: &mut Src) -> Vec<Self::Item>;
	fn bytes(i: &Self::Item) -> (Vec<u8>, Vec<u8>);
	/// Same key, another value (the same item for sets).
	fn other(i: &Self::Item, s: &mut Src) -> Self::Item;
	fn empty(s: &mut Src) -> Self;
	fn put(&mut self, i: Self::Item);
	fn del(&mut self, i: &Self::Item);
	fn content(&self) -> Vec<(Vec<u8>, Vec<u8>)>;

	fn build(items: &[Self::Item]) -> Self {
		let mut c = Self::empty(&mut Src::replay(vec![]));
		for i in items {
			c.put(i.clone());
		}
		c
	}
	/// The same content, reached in some other way.
	fn history(items: &[Self::Item], s: &mut Src) -> Self {
		let mut c = Self::empty(s);
		if Self::KIND == Kind::Seq {
			// junk behind the prefix already in place, taken away again
			for i in items {
				if s.chance(1, 4) {
					let j = s.pick(items).clone();
					c.put(j.clone());
					c.del(&j);
				}
				c.put(i.clone());
			}
			return c;
		}
		let mut order: Vec<usize> = (0..items.len()).collect();
		match s.below(3) {
			0 => order.reverse(),
			1 => {
				for i in (1..order.len()).rev() {
					order.swap(i, s.below(i + 1));
				}
			}
			_ => {
				let k = s.below(order.len().max(1));
				order.rotate_left(k);
			}
		}
		let junk = match s.weighted(&[4, 3, 1]) {
			0 => vec![],
			1 => {
				let mut t = s.sub();
				t.budget = 40;
				Self::items(&mut t)
			}
			_ => {
				let mut t = s.sub();
				t.budget = 400;
				let mut v = Self::items(&mut t);
				for _ in 0..4 {
					v.extend(Self::items(&mut t));
				}
				v
			}
		};
		for j in &junk {
			c.put(j.clone());
		}
		let early = s.bool();
		if early {
			for j in &junk {
				c.del(j);
			}
		}
		for k in &order {
			let i = &items[*k];
			match s.weighted(&[6, 1, 1]) {
				0 => {}
				1 => c.put(Self::other(i, s)),
				_ => {
					c.put(Self::other(i, s));
					c.del(i);
				}
			}
			c.put(i.clone());
		}
		if !early {
			let keep: std::collections::HashSet<Vec<u8>> = items.iter().map(|i| Self::bytes(i).0).collect();
			for j in &junk {
				if !keep.contains(&Self::bytes(j).0) {
					c.del(j);
				}
			}
		}
		c
	}
}

/// Drop earlier duplicates (by encoded key) so that every item counts.
pub fn distinct<C: Coll>(items: Vec<C::Item>) -> Vec<C::Item> {
	if C::KIND == Kind::Seq {
		return items;
	}
	let mut seen = std::collections::HashSet::new();
	items.into_iter().filter(|i| seen.insert(C::bytes(i).0)).collect()
}

pub fn gen_items<C: Coll>(s: &mut Src) -> Vec<C::Item> {
	distinct::<C>(C::items(s))
}

pub fn reference<C: Coll>(items: &[C::Item]) -> Vec<u8> {
	let pairs: Vec<_> = items.iter().map(C::bytes).collect();
	let mut o = Vec::new();
	match C::KIND {
		Kind::Map => refenc::indexed_map(pairs, &mut o),
		Kind::Seq => refenc::indexed_seq(pairs.into_iter().map(|p| p.0).collect(), &mut o),
		Kind::Set => refenc::indexed_set(pairs.into_iter().map(|p| p.0).collect(), &mut o),
	}
	o
}

macro_rules! map_coll {
	($t:ty; $($b:tt)*) => {
		impl<K: Subject + Clone + $($b)*, V: Subject + Clone> Coll for $t {
			type Item = (K, V);
			const KIND: Kind = Kind::Map;
			fn items(s: &mut Src) -> Vec<(K, V)> {
				gen_list::<(K, V)>(s)
			}
			fn bytes(i: &(K, V)) -> (Vec<u8>, Vec<u8>) {
				(i.0.enc(), i.1.enc())
			}
			fn other(i: &(K, V), s: &mut Src) -> (K, V) {
				(i.0.clone(), V::gen_(s, 3))
			}
			fn empty(_: &mut Src) -> Self {
				Default::default()
			}
			fn put(&mut self, i: (K, V)) {
				self.insert(i.0, i.1);
			}
			fn del(&mut self, i: &(K, V)) {
				self.remove(&i.0);
			}
			fn content(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
				let mut v: Vec<_> = self.iter().map(|(k, v)| (k.enc(), v.enc())).collect();
				v.sort();
				v
			}
		}
	};
}
macro_rules! set_coll {
	($t:ty; $($b:tt)*) => {
		impl<T: Subject + Clone + $($b)*> Coll for $t {
			type Item = T;
			const KIND: Kind = Kind::Set;
			fn items(s: &mut Src) -> Vec<T> {
				gen_list::<T>(s)
			}
			fn bytes(i: &T) -> (Vec<u8>, Vec<u8>) {
				(i.enc(), vec![])
			}
			fn other(i: &T, _: &mut Src) -> T {
				i.clone()
			}
			fn empty(_: &mut Src) -> Self {
				Default::default()
			}
			fn put(&mut self, i: T) {
				self.insert(i);
			}
			fn del(&mut self, i: &T) {
				self.remove(i);
			}
			fn content(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
				let mut v: Vec<_> = self.iter().map(|k| (k.enc(), vec![])).collect();
				v.sort();
				v
			}
		}
	};
}
macro_rules! seq_coll {
	($t:ty, $push:ident, $pop:ident) => {
		impl<T: Subject + Clone> Coll for $t {
			type Item = T;
			const KIND: Kind = Kind::Seq;
			fn items(s: &mut Src) -> Vec<T> {
				gen_list::<T>(s)
			}
			fn bytes(i: &T) -> (Vec<u8>, Vec<u8>) {
				(i.enc(), vec![])
			}
			fn other(i: &T, _: &mut Src) -> T {
				i.clone()
			}
			fn empty(_: &mut Src) -> Self {
				Default::default()
			}
			fn put(&mut self, i: T) {
				self.$push(i);
			}
			fn del(&mut self, _: &T) {
				self.$pop();
			}
			fn content(&self) -> Vec<(Vec<u8>, Vec<u8>)> {
				self.iter().map(|k| (k.enc(), vec![])).collect()
			}
		}
	};
}
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
map_coll!(BTreeMap<K, V>; Ord);
map_coll!(HashMap<K, V>; Eq + Hash);
map_coll!(HashMap<K, V, PoorState>; Eq + Hash);
set_coll!(BTreeSet<T>; Ord);
set_coll!(HashSet<T>; Eq + Hash);
set_coll!(HashSet<T, PoorState>; Eq + Hash);
seq_coll!(Vec<T>, push, pop);
#[cfg(feature = "third")]
mod third {
	use super::*;
	use subjects::ext::*;
	map_coll!(OrdMap<K, V>; Ord);
	map_coll!(IHashMap<K, V>; Eq + Hash);
	set_coll!(OrdSet<T>; Ord);
	set_coll!(IHashSet<T>; Eq + Hash);
	seq_coll!(Vector<T>, push_back, pop_back);
}

pub fn gen_list<T: Subject>(s: &mut Src) -> Vec<T> {
	let n = gen_n(s);
	if n > 40 {
		let mut t = s.sub();
		t.budget = 8 * n as i64;
		return (0..n).map(|_| T::gen_(&mut t, 3)).collect();
	}
	(0..n).map(|_| T::gen_(s, 2)).collect()
}

/// Every way of getting over or into the indexed field inside its struct.
pub fn walk_carrier<T: Carrier>(s: &mut Src, cx: &mut Ctx) -> Res {
	let items = gen_items::<T::C>(s);
	walk_carrier_of::<T>(items, s, cx)
}

pub fn walk_carrier_of<T: Carrier>(items: Vec<<T::C as Coll>::Item>, s: &mut Src, cx: &mut Ctx) -> Res {
	let a = s.uint(32) as u32;
	let z: String = String::gen_(s, 3);
	let n = items.len();
	let c = T::C::build(&items);
	let (enc, payload, v) = encode::<T>(a, c, &z)?;
	let junk = tail(s);
	let mut buf = enc.clone();
	buf.extend(junk);
	cx.key(&buf);
	cx.nontrivial = n >= 2;
	cx.label(if n >= 8 { "offset table" } else { "plain body" });
	cx.sample(|| format!("{} with {n} entries: {}", tname::<T>(), hex(&payload)));
	for (oa, oc, oz) in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 2, 0), (1, 2, 0), (0, 3, 0), (1, 3, 0), (0, 4, 0), (1, 4, 0), (0, 0, 1), (1, 2, 1)] {
		cx.evals += 1;
		let what = format!("{} walked with a:{oa} c:{oc} z:{oz}", tname::<T>());
		let mut r = SliceReader::new(&buf);
		let (ga, gc, gz) = match no_panic(|| T::walk(&mut r, oa, oc, oz)) {
			Ok(Ok(x)) => x,
			Ok(Err(e)) => fail!("{what} failed: {e}: {}", hex(&enc)),
			Err(p) => fail!("{what} panicked: {p}: {}", hex(&enc)),
		};
		ensure!(ga.is_none_or(|x| x == a), "{what}: a is {ga:?} instead of {a}");
		if let Some(gz) = gz {
			ensure!(gz == z, "{what}: z is {gz:?} instead of {z:?}: {}", hex(&enc));
		}
		match gc {
			Out::Value(x) => ensure!(x.content() == v.parts().1.content(), "{what}: decode_c gave another value: {}", hex(&enc)),
			Out::View { bytes, len, indexed } => {
				ensure!(bytes == payload, "{what}: the view spans {} instead of {}", hex(&bytes), hex(&payload));
				ensure!(len == n, "{what}: len() is {len} instead of {n}");
				ensure!(indexed == (n >= 8), "{what}: is_indexed() is {indexed} for {n} entries");
			}
			Out::Bytes(b) => ensure!(b == payload, "{what}: bytes are {} instead of {}", hex(&b), hex(&payload)),
			Out::Skipped => {}
		}
		if oc <= 2 {
			ensure!(
				r.position() == enc.len(),
				"{what}: the reader stands at {} instead of {}",
				r.position(),
				enc.len()
			);
		}
	}
	// skipping the whole record
	for (name, x) in generic::skips_of::<T>(&buf) {
		cx.evals += 1;
		match x {
			Ok(k) => ensure!(k == enc.len(), "{name} on {} consumed {k} of {}", tname::<T>(), enc.len()),
			Err(e) => fail!("{name} on {} failed: {e}: {}", tname::<T>(), hex(&enc)),
		}
	}
	Ok(())
}

/// Getting over the indexed field alone lands on the next one.
pub fn skip_field<T: Carrier>(items: Vec<<T::C as Coll>::Item>, s: &mut Src, cx: &mut Ctx) -> Res {
	let a = s.uint(32) as u32;
	let z: String = String::gen_(s, 3);
	let n = items.len();
	let (enc, payload, _) = encode::<T>(a, T::C::build(&items), &z)?;
	let mut buf = enc.clone();
	buf.extend(tail(s));
	cx.key(&buf);
	cx.nontrivial = n >= 2;
	cx.label(len_label(payload.len()));
	cx.sample(|| format!("{} with {n} entries: {}", tname::<T>(), hex(&payload)));
	for (oa, oz) in [(0, 0), (1, 0), (0, 1), (1, 1)] {
		cx.evals += 1;
		let what = format!("skipping the field of {n} entries in {}", tname::<T>());
		let mut r = SliceReader::new(&buf);
		match no_panic(|| T::walk(&mut r, oa, 1, oz)) {
			Ok(Ok((_, _, gz))) => ensure!(gz.is_none_or(|x| x == z), "{what} does not lead to the next field: {}", hex(&enc)),
			Ok(Err(e)) => fail!("{what} failed: {e}: {}", hex(&enc)),
			Err(p) => fail!("{what} panicked: {p}: {}", hex(&enc)),
		}
		ensure!(r.position() == enc.len(), "{what}: the reader stands at {} instead of {}", r.position(), enc.len());
	}
	for (name, x) in generic::skips_of::<T>(&buf) {
		cx.evals += 1;
		match x {
			Ok(k) => ensure!(k == enc.len(), "{name} on {} consumed {k} of {}", tname::<T>(), enc.len()),
			Err(e) => fail!("{name} on {} failed: {e}: {}", tname::<T>(), hex(&enc)),
		}
	}
	Ok(())
}

/// Items beyond what two bytes can count, in a scrambled order.
pub fn many<T>(s: &mut Src, f: impl Fn(u32) -> T) -> Vec<T> {
	let n = *s.pick(&[65535usize, 65536, 65537, 66000, 70001]);
	scrambled(n, s, f)
}

/// Items beyond one byte's count, in a scrambled order.
pub fn several<T>(s: &mut Src, f: impl Fn(u32) -> T) -> Vec<T> {
	let n = *s.pick(&[301usize, 512, 1000, 1024, 1500, 2048, 4095, 4096, 5000, 8193]);
	scrambled(n, s, f)
}

fn scrambled<T>(n: usize, s: &mut Src, f: impl Fn(u32) -> T) -> Vec<T> {
	// odd multipliers permute the 32-bit integers
	let m = s.uint(32) as u32 | 1;
	let wide = s.bool();
	(0..n as u32).map(|i| f(if wide { i.wrapping_mul(m) } else { (i as u64 * (m as u64 % 1000 + 1) % 131071) as u32 })).collect()
}

/// `$m!(case name, carrier, C, kind...)` helpers: all collections under test.
#[macro_export]
macro_rules! ix_collections {
	($m:ident) => {
		$crate::ix_collections!(@maps $m;
			Ma, u64, u8; Mb, String, String; Mc, i32, Vec<u16>; Md, (u8, String), f64;
			Me, char, Option<String>; Mf, [u8; 4], u32; Mg, Vec<u8>, BTreeMap<u8, u8>);
		$crate::ix_collections!(@seqs $m;
			Qa, u64; Qb, u8; Qc, String; Qd, Vec<u8>; Qe, Option<i64>; Qf, f64; Qg, BTreeMap<u8, String>; Qh, bool);
		$crate::ix_collections!(@sets $m;
			Sa, u64; Sb, String; Sc, i32; Sd, (u8, String); Se, Vec<u8>; Sf, u8);
	};
	(@maps $m:ident; $($id:ident, $k:ty, $v:ty);*) => { $( $m!(map $id, $k, $v); )* };
	(@seqs $m:ident; $($id:ident, $t:ty);*) => { $( $m!(seq $id, $t); )* };
	(@sets $m:ident; $($id:ident, $t:ty);*) => { $( $m!(set $id, $t); )* };
}

/// A hasher that sends everything to a handful of buckets.
#[derive(Default, Clone)]
pub struct Poor(u64);
impl std::hash::Hasher for Poor {
	fn finish(&self) -> u64 {
		self.0 & 3
	}
	fn write(&mut self, b: &[u8]) {
		for x in b {
			self.0 = self.0.wrapping_add(*x as u64);
		}
	}
}
pub type PoorState = std::hash::BuildHasherDefault<Poor>;

#[macro_export]
macro_rules! ix_decl {
	(map $id:ident, $k:ty, $v:ty) => {
		#[allow(non_snake_case)]
		pub mod $id {
			use super::*;
			carrier!(B, indexed_map, BTreeMap<$k, $v>, false, optimised);
			carrier!(H, indexed_map, HashMap<$k, $v>, false, optimised);
			carrier!(P, indexed_map, HashMap<$k, $v, $crate::ix::PoorState>, false, optimised);
			carrier!(BI, indexed_map, BTreeMap<$k, $v>, true, optimised, indexed_struct);
			#[cfg(feature = "third")]
			carrier!(O, indexed_map, subjects::ext::OrdMap<$k, $v>, false, optimised);
			#[cfg(feature = "third")]
			carrier!(I, indexed_map, subjects::ext::IHashMap<$k, $v>, false, optimised);
		}
	};
	(seq $id:ident, $t:ty) => {
		#[allow(non_snake_case)]
		pub mod $id {
			use super::*;
			carrier!(V, indexed_seq, Vec<$t>, false, optimised);
			carrier!(VI, indexed_seq, Vec<$t>, true, optimised, indexed_struct);
			#[cfg(feature = "third")]
			carrier!(I, indexed_seq, subjects::ext::Vector<$t>, false, optimised);
		}
	};
	(set $id:ident, $t:ty) => {
		#[allow(non_snake_case)]
		pub mod $id {
			use super::*;
			carrier!(B, indexed_set, BTreeSet<$t>, false, optimised);
			carrier!(H, indexed_set, HashSet<$t>, false, optimised);
			carrier!(P, indexed_set, HashSet<$t, $crate::ix::PoorState>, false, optimised);
			carrier!(BI, indexed_set, BTreeSet<$t>, true, optimised, indexed_struct);
			#[cfg(feature = "third")]
			carrier!(O, indexed_set, subjects::ext::OrdSet<$t>, false, optimised);
			#[cfg(feature = "third")]
			carrier!(I, indexed_set, subjects::ext::IHashSet<$t>, false, optimised);
		}
	};
}

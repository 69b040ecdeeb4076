//! Indexed collections encoded on their own, through the traits that
//! hand-written code calls: `Ix<C>` is laid out as an indexed field.

use crate::Subject;
use crate::builtin::*;
use crate::refdec::Got;
use engine::Src;
use revision::optimised::indexed::serialize::{IndexedMapEncoded, IndexedSeqEncoded, IndexedSetEncoded};
use revision::{DeserializeRevisioned, Error, Revisioned, SerializeRevisioned, SkipCheckRevisioned, SkipRevisioned, SliceReader};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
use std::io::{Read, Write};

#[derive(Debug, Clone)]
pub struct Ix<C>(pub C);

macro_rules! wrap {
	([$($g:tt)*] $c:ty, $pairs:ident, $tr:ident, $ser:ident, $de:ident, $skip:ident, $emit:ident, $read:ident) => {
		impl<$($g)*> Revisioned for Ix<$c> {
			fn revision() -> u16 {
				1
			}
		}
		impl<$($g)*> SerializeRevisioned for Ix<$c> {
			fn serialize_revisioned<W: Write>(&self, w: &mut W) -> Result<(), Error> {
				$tr::$ser(&self.0, w)
			}
		}
		impl<$($g)*> DeserializeRevisioned for Ix<$c> {
			fn deserialize_revisioned<R: Read>(r: &mut R) -> Result<Self, Error> {
				Ok(Ix(<$c as $tr>::$de(r)?))
			}
		}
		impl<$($g)*> SkipRevisioned for Ix<$c> {
			fn skip_revisioned<R: Read>(r: &mut R) -> Result<(), Error> {
				<$c as $tr>::$de(r).map(drop)
			}
			fn skip_revisioned_slice(r: &mut SliceReader<'_>) -> Result<(), Error> {
				<$c as $tr>::$skip(r)
			}
		}
		impl<$($g)*> SkipCheckRevisioned for Ix<$c> {
			fn skip_check_revisioned<R: Read>(r: &mut R) -> Result<(), Error> {
				<$c as $tr>::$de(r).map(drop)
			}
		}
		impl<$($g)*> Subject for Ix<$c> {
			const STRICT: bool = false;
			fn gen_(s: &mut Src, d: u32) -> Self {
				// often just over the threshold
				let mut v = $pairs(s, d);
				if s.bool() {
					v.truncate(7 + s.below(4));
				}
				Ix(v.into_iter().collect())
			}
			fn emit(&self, o: &mut Vec<u8>, c: bool) {
				$emit(self.0.iter(), o, c)
			}
			fn read(b: &mut &[u8]) -> Got<Self> {
				$read(b).map(Ix)
			}
		}
	};
}
macro_rules! map {
	($c:ty; $($b:tt)*) => {
		wrap!([K: Subject + Clone + $($b)*, V: Subject + Clone] $c, gen_pairs, IndexedMapEncoded, serialize_indexed_map,
			deserialize_indexed_map, skip_indexed_map, emit_indexed_map, read_indexed_map);
	};
}
macro_rules! seq {
	($c:ty) => {
		wrap!([T: Subject + Clone] $c, gen_items, IndexedSeqEncoded, serialize_indexed_seq,
			deserialize_indexed_seq, skip_indexed_seq, emit_indexed_seq, read_indexed_seq);
	};
}
macro_rules! set {
	($c:ty; $($b:tt)*) => {
		wrap!([T: Subject + Clone + $($b)*] $c, gen_items, IndexedSetEncoded, serialize_indexed_set,
			deserialize_indexed_set, skip_indexed_set, emit_indexed_set, read_indexed_set);
	};
}
map!(BTreeMap<K, V>; Ord);
map!(HashMap<K, V>; Eq + Hash);
seq!(Vec<T>);
set!(BTreeSet<T>; Ord);
set!(HashSet<T>; Eq + Hash);
#[cfg(feature = "third")]
mod third {
	use super::*;
	use crate::ext::*;
	map!(OrdMap<K, V>; Ord);
	map!(IHashMap<K, V>; Eq + Hash);
	seq!(Vector<T>);
	set!(OrdSet<T>; Ord);
	set!(IHashSet<T>; Eq + Hash);
}

/// Call `$m!(Type; ...)` for such types.
#[macro_export]
macro_rules! indexed_types {
	($m:ident) => {
		use std::collections::{BTreeMap as Bm, BTreeSet as Bs, HashMap as Hm, HashSet as Hs};
		use ::subjects::indexed::Ix;
		$m!(
			Ix<Bm<u64, String>>; Ix<Bm<String, i32>>; Ix<Bm<(u8, String), Vec<u16>>>; Ix<Bm<i16, Option<bool>>>; Ix<Bm<u8, u8>>;
			Ix<Hm<String, u64>>; Ix<Hm<i64, Vec<u8>>>; Ix<Hm<Option<u16>, Bm<u8, u8>>>;
			Ix<Vec<u8>>; Ix<Vec<bool>>; Ix<Vec<u64>>; Ix<Vec<String>>; Ix<Vec<Vec<bool>>>; Ix<Vec<Option<i128>>>; Ix<Vec<(u8, f64)>>;
			Ix<Bs<i32>>; Ix<Bs<String>>; Ix<Bs<Vec<u8>>>; Ix<Hs<u64>>; Ix<Hs<String>>; Ix<Hs<(bool, i8)>>
		);
		#[cfg(feature = "third")]
		$m!(
			Ix<subjects::ext::OrdMap<String, u32>>; Ix<subjects::ext::IHashMap<u64, String>>; Ix<subjects::ext::Vector<i64>>;
			Ix<subjects::ext::Vector<String>>; Ix<subjects::ext::OrdSet<u32>>; Ix<subjects::ext::IHashSet<String>>
		);
	};
}

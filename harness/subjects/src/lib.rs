//! Types under test: how to generate a value, and an independent encoder for
//! the documented wire format (the oracle). Nothing here calls the encoders of
//! the crate under test.

pub mod builtin;
pub mod derive;
pub mod indexed;
pub mod refdec;
pub mod refenc;
#[cfg(feature = "third")]
pub mod third;
pub mod walkers;

use engine::Src;
use revision::{DeserializeRevisioned, SerializeRevisioned, SkipCheckRevisioned, SkipRevisioned};
use std::fmt::Debug;

pub const FIXED: bool = cfg!(feature = "fixed");
pub const SPEC: bool = cfg!(feature = "spec");

pub trait Subject:
	Sized
	+ Debug
	+ 'static
	+ SerializeRevisioned
	+ DeserializeRevisioned
	+ SkipRevisioned
	+ SkipCheckRevisioned
{
	/// Elements are small enough for containers of thousands.
	const CHEAP: bool = false;

	/// Two different byte strings that decode denote different values, except
	/// for non-shortest variable-length integers.
	const STRICT: bool = true;
	const VEC_STRICT: bool = Self::STRICT;

	fn gen_(s: &mut Src, d: u32) -> Self;

	/// Append the documented encoding. With `canon`, containers without a
	/// defined order are emitted in a sorted order instead, which makes the
	/// result an exact (bit for bit) identity of the value.
	fn emit(&self, o: &mut Vec<u8>, canon: bool);

	/// Encoding of `Vec<Self>`.
	fn emit_vec(v: &[Self], o: &mut Vec<u8>, canon: bool) {
		refenc::len(v.len(), o);
		for x in v {
			x.emit(o, canon);
		}
	}

	/// The value that the bytes start with, by the documented format.
	fn read(b: &mut &[u8]) -> refdec::Got<Self>;

	/// Likewise for a `Vec`.
	fn read_vec(b: &mut &[u8]) -> refdec::Got<Vec<Self>> {
		refdec::list(b, Self::read)
	}

	/// Whether a `Vec` of this uses the bulk layout.
	const BULK: bool = false;

	fn enc(&self) -> Vec<u8> {
		let mut o = Vec::new();
		self.emit(&mut o, false);
		o
	}
	fn canon(&self) -> Vec<u8> {
		let mut o = Vec::new();
		self.emit(&mut o, true);
		o
	}
	fn same(&self, other: &Self) -> bool {
		self.canon() == other.canon()
	}
	fn digest(&self) -> u64 {
		engine::fnv(&self.canon())
	}
	fn from_seed(seed: u64) -> Self {
		let mut s = Src::random(engine::mix(seed ^ 0xabcd));
		s.budget = 12;
		Self::gen_(&mut s, 3)
	}
	fn show(&self) -> String {
		let mut t = String::new();
		use std::fmt::Write;
		struct Cap<'a>(&'a mut String);
		impl Write for Cap<'_> {
			fn write_str(&mut self, s: &str) -> std::fmt::Result {
				if self.0.len() > 600 {
					return Err(std::fmt::Error);
				}
				self.0.push_str(s);
				Ok(())
			}
		}
		if write!(Cap(&mut t), "{self:?}").is_err() {
			t.push('…');
		}
		t
	}
}

/// Call `$m!(Type; ...)` for every built-in type composition.
#[macro_export]
macro_rules! builtin_types {
	($m:ident) => {
		$crate::walkable_types!($m);
		$m!(Cow<'static, str>);
	};
}

/// Those that implement `WalkRevisioned`.
#[macro_export]
macro_rules! walkable_types {
	($m:ident) => {
		use std::borrow::Cow;
		use std::cmp::Reverse;
		use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
		use std::num::Wrapping;
		use std::ops::{Bound, Range};
		use std::path::PathBuf;
		use std::sync::Arc;
		use std::time::{Duration, SystemTime};
		$m!(u8; i8; u16; i16; u32; i32; u64; i64; u128; i128; usize; isize; bool; f32; f64; char);
		$m!(String; Box<str>; Arc<str>; PathBuf; Duration; SystemTime);
		$m!(
			Vec<u8>; Vec<i8>; Vec<u16>; Vec<i16>; Vec<u32>; Vec<i32>; Vec<u64>; Vec<i64>; Vec<u128>;
			Vec<i128>; Vec<usize>; Vec<isize>; Vec<bool>; Vec<f32>; Vec<f64>; Vec<char>; Vec<String>;
			Vec<Vec<u8>>; Vec<Vec<bool>>; Vec<Vec<Vec<i64>>>; Vec<Option<u16>>; Vec<(u8, u64)>;
			Vec<Box<u32>>; Vec<Wrapping<i32>>; Vec<[u16; 3]>; Vec<Duration>; Vec<BTreeMap<u8, Vec<i16>>>
		);
		$m!(
			Option<u8>; Option<Option<i64>>; Option<String>; Option<Vec<bool>>; Option<Box<u128>>;
			Result<u32, String>; Result<Vec<i32>, Option<char>>; Result<Result<u8, i8>, bool>;
			Bound<u64>; Bound<String>; Bound<Vec<u16>>; Range<i32>; Range<u64>; Range<String>; Range<Bound<u8>>;
			(u8, i64); (String, Vec<u8>, bool); (u16, i16, u32, i32); (f32, char, usize, isize, u128);
			(i128, bool, String, Option<u8>, Vec<u64>, f64); ((u8, u16), (u32, (u64, i8)));
			[u8; 1]; [u8; 32]; [u16; 2]; [i64; 7]; [bool; 8]; [f64; 5]; [char; 4]; [u128; 31]; [Option<u16>; 9]; [[u32; 3]; 3];
			Box<i64>; Box<Vec<u8>>; Arc<u64>; Arc<Vec<i32>>; Wrapping<u64>; Wrapping<i128>; Reverse<i16>; Reverse<String>;
			Cow<'static, u64>; Cow<'static, String>; Cow<'static, Vec<i64>>; Box<Option<Arc<String>>>
		);
		$m!(
			BTreeMap<u8, u8>; BTreeMap<u64, i64>; BTreeMap<String, u32>; BTreeMap<i32, String>; BTreeMap<String, Vec<bool>>;
			BTreeMap<(u8, String), Option<u64>>; BTreeMap<char, BTreeMap<u16, String>>; BTreeMap<Vec<u8>, Vec<u8>>;
			BTreeMap<Box<str>, Arc<str>>; BTreeMap<Reverse<u32>, bool>; BTreeMap<String, BTreeSet<String>>;
			HashMap<u8, i16>; HashMap<String, u64>; HashMap<i64, Vec<String>>; HashMap<u32, HashMap<u8, u8>>;
			HashSet<u16>; HashSet<String>; HashSet<Vec<u8>>; HashSet<Option<i32>>;
			BTreeSet<u8>; BTreeSet<i64>; BTreeSet<String>; BTreeSet<Vec<i16>>; BTreeSet<Box<u128>>;
			BinaryHeap<u32>; BinaryHeap<i64>; BinaryHeap<String>; BinaryHeap<Reverse<u16>>;
			Vec<HashSet<u8>>; Vec<BinaryHeap<i8>>; Option<HashMap<String, Option<i8>>>
		);
		#[cfg(feature = "third")]
		use ::subjects::ext::*;
		#[cfg(feature = "third")]
		$m!(
			Bytes; Uuid; Decimal; Vec<Uuid>; Vec<Decimal>; Vec<Bytes>; Option<Uuid>; Option<Decimal>; BTreeMap<Uuid, Decimal>;
			Regex; Option<Regex>; Vec<Regex>; RoaringBitmap; RoaringTreemap; Vec<RoaringBitmap>;
			DateTime<Utc>; NaiveDate; NaiveTime; ChronoDuration; Vec<DateTime<Utc>>; Option<NaiveTime>; BTreeMap<String, NaiveDate>
		);
		#[cfg(feature = "third")]
		$m!(
			Coord; Point; LineString; Polygon; MultiPoint; MultiLineString; MultiPolygon; Vec<Point>; Option<Polygon>;
			NotNan<f32>; NotNan<f64>; Vec<NotNan<f64>>; BTreeMap<NotNan<f64>, u8>;
			Vector<u8>; Vector<u64>; Vector<String>; Vector<Vector<i16>>; OrdMap<String, u64>; OrdMap<u32, Vec<u8>>;
			OrdSet<i32>; OrdSet<String>; IHashMap<String, i64>; IHashMap<u16, Vector<u8>>; IHashSet<u64>; IHashSet<String>
		);
	};
}

#[cfg(feature = "third")]
pub mod ext {
	pub use bytes::Bytes;
	pub use chrono::{DateTime, Duration as ChronoDuration, NaiveDate, NaiveTime, Utc};
	pub use geo::{
		Coord, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon,
	};
	pub use imbl::{HashMap as IHashMap, HashSet as IHashSet, OrdMap, OrdSet, Vector};
	pub use ordered_float::NotNan;
	pub use regex::Regex;
	pub use roaring::{RoaringBitmap, RoaringTreemap};
	pub use rust_decimal::Decimal;
	pub use uuid::Uuid;
}

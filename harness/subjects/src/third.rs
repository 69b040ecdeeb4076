use crate::Subject;
use crate::builtin::{read_map, read_set, canon_items, canon_pairs, gen_f64_num, gen_items, gen_nanos, gen_pairs, gen_string};
use crate::refdec::{self, Bad, Got};
use crate::refenc::{bytes, len, sint, uint};
use engine::Src;
use std::hash::Hash;

use bytes::Bytes;
use chrono::{DateTime, Datelike, Duration as ChronoDuration, NaiveDate, NaiveTime, Timelike, Utc};
use geo::{Coord, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};
use imbl::{HashMap as IHashMap, HashSet as IHashSet, OrdMap, OrdSet, Vector};
use ordered_float::{FloatCore, NotNan};
use regex::Regex;
use roaring::{RoaringBitmap, RoaringTreemap};
use rust_decimal::Decimal;
use uuid::Uuid;

impl Subject for Bytes {
	fn gen_(s: &mut Src, _d: u32) -> Self {
		let n = s.len(true);
		s.bytes(n).into()
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		bytes(self, o)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(Bytes::copy_from_slice(refdec::bytes(b)?))
	}
}
impl Subject for Uuid {
	const CHEAP: bool = true;
	fn gen_(s: &mut Src, _d: u32) -> Self {
		match s.below(4) {
			0 => Uuid::nil(),
			1 => Uuid::max(),
			_ => Uuid::from_u64_pair(s.draw(u64::MAX), s.draw(u64::MAX)),
		}
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		o.extend_from_slice(self.as_bytes())
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(Uuid::from_bytes(refdec::take(b, 16)?.try_into().unwrap()))
	}
	const BULK: bool = crate::SPEC;
}
impl Subject for Decimal {
	const STRICT: bool = false;
	const CHEAP: bool = true;
	fn gen_(s: &mut Src, _d: u32) -> Self {
		let part = |s: &mut Src| s.uint(32) as u32;
		let (a, b, c) = (part(s), part(s), part(s));
		let neg = s.bool();
		Decimal::from_parts(a, b, c, neg, s.draw(28) as u32)
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		let u = self.unpack();
		let flags = (u.scale << 16) | ((u.negative as u32) << 31);
		for w in [flags, u.lo, u.mid, u.hi] {
			o.extend_from_slice(&w.to_le_bytes())
		}
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(Decimal::deserialize(refdec::take(b, 16)?.try_into().unwrap()))
	}
	const BULK: bool = crate::SPEC;
}
impl Subject for Regex {
	fn gen_(s: &mut Src, _d: u32) -> Self {
		let mut p = String::new();
		for _ in 0..s.draw(4) {
			if s.bool() {
				p.push_str(*s.pick(&["a+", "[a-z]*", "(x|y)", "\\d{2,3}", "^", "$", "é?", "(?i)q", "."]));
			} else {
				let lit: String = gen_string(s).chars().take(300).collect();
				p.push_str(&regex::escape(&lit));
			}
		}
		Regex::new(&p).unwrap_or_else(|_| Regex::new("a").unwrap())
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		bytes(self.as_str().as_bytes(), o)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Regex::new(refdec::text(b)?).map_err(|_| Bad)
	}
}
fn bitmap(s: &mut Src) -> RoaringBitmap {
	let mut b = RoaringBitmap::new();
	for _ in 0..s.draw(6) {
		match s.below(3) {
			0 => {
				b.insert(s.uint(32) as u32);
			}
			1 => {
				let a = s.uint(32) as u32;
				b.insert_range(a..a.saturating_add(s.draw(5000) as u32));
			}
			_ => {
				let base = (s.draw(3) as u32) << 16;
				let n = s.draw(5000);
				let mut t = s.sub();
				for _ in 0..n {
					b.insert(base + t.draw(0xffff) as u32);
				}
			}
		}
	}
	b
}
impl Subject for RoaringBitmap {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, _d: u32) -> Self {
		bitmap(s)
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		if c {
			// content, whatever container kinds are in use
			len(self.len() as usize, o);
			for x in self {
				o.extend_from_slice(&x.to_le_bytes())
			}
		} else {
			self.serialize_into(o).unwrap()
		}
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		// its own format, which its crate defines
		Self::deserialize_from(b).map_err(|_| Bad)
	}
}
impl Subject for RoaringTreemap {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, _d: u32) -> Self {
		let mut t = RoaringTreemap::new();
		for _ in 0..s.draw(5) {
			let hi = s.uint(32) as u64;
			for lo in bitmap(s).iter().take(3000) {
				t.insert((hi << 32) | lo as u64);
			}
		}
		t
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		if c {
			len(self.len() as usize, o);
			for x in self {
				o.extend_from_slice(&x.to_le_bytes())
			}
		} else {
			self.serialize_into(o).unwrap()
		}
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		// its own format, which its crate defines
		Self::deserialize_from(b).map_err(|_| Bad)
	}
}

// ---------------------------------------------------------------- chrono

fn date(s: &mut Src) -> NaiveDate {
	match s.below(4) {
		0 => NaiveDate::from_ymd_opt(1970 + s.draw(100) as i32, 1, 1).unwrap(),
		1 => *s.pick(&[NaiveDate::MIN, NaiveDate::MAX]),
		2 => {
			let y = *s.pick(&[0i32, -1, 4, 1900, 2000, 2024, -400, 262000]);
			NaiveDate::from_ymd_opt(y, 2, if s.bool() { 28 } else { 29 })
				.unwrap_or(NaiveDate::from_ymd_opt(y, 12, 31).unwrap())
		}
		_ => {
			let y = s.draw(520_000) as i32 - 260_000;
			NaiveDate::from_yo_opt(y, 1 + s.draw(364) as u32).unwrap()
		}
	}
}
/// A time of day; leap seconds (over 10^9 nanoseconds) included. chrono allows
/// them at any second.
fn time(s: &mut Src) -> NaiveTime {
	let h = s.draw(23) as u32;
	let m = *s.pick(&[0, 1, 30, 58, 59]);
	let sec = *s.pick(&[0, 1, 30, 58, 59]);
	let mut n = gen_nanos(s);
	if s.chance(1, 5) {
		n += 1_000_000_000;
	}
	NaiveTime::from_hms_opt(h, m, sec).unwrap().with_nanosecond(n).unwrap()
}
impl Subject for NaiveDate {
	fn gen_(s: &mut Src, _d: u32) -> Self {
		date(s)
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		sint(self.year() as i128, 4, o);
		uint(self.month() as u128, 4, o);
		uint(self.day() as u128, 4, o);
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		NaiveDate::from_ymd_opt(i32::read(b)?, u32::read(b)?, u32::read(b)?).ok_or(Bad)
	}
}
impl Subject for NaiveTime {
	fn gen_(s: &mut Src, _d: u32) -> Self {
		time(s)
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		uint(self.hour() as u128, 4, o);
		uint(self.minute() as u128, 4, o);
		uint(self.second() as u128, 4, o);
		uint(self.nanosecond() as u128, 4, o);
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		let (h, m, s, n) = (u32::read(b)?, u32::read(b)?, u32::read(b)?, u32::read(b)?);
		NaiveTime::from_hms_opt(h, m, s).and_then(|t| t.with_nanosecond(n)).ok_or(Bad)
	}
}
impl Subject for DateTime<Utc> {
	fn gen_(s: &mut Src, _d: u32) -> Self {
		match s.below(8) {
			0 => DateTime::<Utc>::MIN_UTC,
			1 => DateTime::<Utc>::MAX_UTC,
			_ => date(s).and_time(time(s)).and_utc(),
		}
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		sint(self.timestamp() as i128, 8, o);
		uint(self.timestamp_subsec_nanos() as u128, 4, o);
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		let (s, n) = (i64::read(b)?, u32::read(b)?);
		// whichever way chrono takes it
		DateTime::from_timestamp(s, n)
			.or_else(|| DateTime::from_timestamp(s, 0)?.with_nanosecond(n))
			.ok_or(Bad)
	}
}
impl Subject for ChronoDuration {
	fn gen_(s: &mut Src, _d: u32) -> Self {
		match s.below(6) {
			0 => ChronoDuration::MIN,
			1 => ChronoDuration::MAX,
			2 => ChronoDuration::nanoseconds(s.draw(4_000_000_000) as i64 - 2_000_000_000),
			_ => {
				let lim = i64::MAX / 1000 - 1;
				let secs = (s.uint(64) as u64 as i64) % lim;
				ChronoDuration::new(secs, gen_nanos(s)).unwrap()
			}
		}
	}
	fn emit(&self, o: &mut Vec<u8>, _c: bool) {
		// floor to seconds, nanoseconds always positive
		let t = self.num_seconds() as i128 * 1_000_000_000 + self.subsec_nanos() as i128;
		sint(t.div_euclid(1_000_000_000), 8, o);
		sint(t.rem_euclid(1_000_000_000), 4, o);
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		let (s, n) = (i64::read(b)?, i32::read(b)?);
		ChronoDuration::new(s, n.try_into().map_err(|_| Bad)?).ok_or(Bad)
	}
}

// ---------------------------------------------------------------- geo

impl Subject for Coord {
	const CHEAP: bool = true;
	fn gen_(s: &mut Src, _d: u32) -> Self {
		Coord {
			x: gen_f64_num(s),
			y: gen_f64_num(s),
		}
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		self.x.emit(o, c);
		self.y.emit(o, c);
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(Coord { x: f64::read(b)?, y: f64::read(b)? })
	}
}
impl Subject for Point {
	const CHEAP: bool = true;
	fn gen_(s: &mut Src, d: u32) -> Self {
		Point(Coord::gen_(s, d))
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		self.0.emit(o, c)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(Point(Coord::read(b)?))
	}
}
impl Subject for LineString {
	fn gen_(s: &mut Src, d: u32) -> Self {
		LineString(gen_items(s, d))
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		Coord::emit_vec(&self.0, o, c)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(LineString(Coord::read_vec(b)?))
	}
}
impl Subject for Polygon {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, d: u32) -> Self {
		Polygon::new(LineString::gen_(s, d + 1), gen_items(s, d + 1))
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		self.exterior().emit(o, c);
		LineString::emit_vec(self.interiors(), o, c);
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(Polygon::new(LineString::read(b)?, LineString::read_vec(b)?))
	}
}
impl Subject for MultiPoint {
	fn gen_(s: &mut Src, d: u32) -> Self {
		MultiPoint(gen_items(s, d))
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		Point::emit_vec(&self.0, o, c)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(MultiPoint(Point::read_vec(b)?))
	}
}
impl Subject for MultiLineString {
	fn gen_(s: &mut Src, d: u32) -> Self {
		MultiLineString(gen_items(s, d + 1))
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		LineString::emit_vec(&self.0, o, c)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(MultiLineString(LineString::read_vec(b)?))
	}
}
impl Subject for MultiPolygon {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, d: u32) -> Self {
		MultiPolygon(gen_items(s, d + 1))
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		Polygon::emit_vec(&self.0, o, c)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(MultiPolygon(Polygon::read_vec(b)?))
	}
}

// ---------------------------------------------------------------- wrappers

impl<T: Subject + FloatCore> Subject for NotNan<T> {
	const CHEAP: bool = true;
	fn gen_(s: &mut Src, d: u32) -> Self {
		NotNan::new(T::gen_(s, d)).unwrap_or_else(|_| NotNan::new(T::zero()).unwrap())
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		self.into_inner().emit(o, c)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		NotNan::new(T::read(b)?).map_err(|_| Bad)
	}
}
impl<T: Subject + Clone> Subject for Vector<T> {
	const STRICT: bool = T::STRICT;
	fn gen_(s: &mut Src, d: u32) -> Self {
		// built in more than one piece, so that its inner tree varies
		let mut v: Vector<T> = gen_items(s, d).into_iter().collect();
		if s.chance(1, 4) {
			let w: Vector<T> = gen_items(s, d).into_iter().collect();
			v.append(w);
		}
		v
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		canon_items(self.iter(), self.len(), o, c, false)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		Ok(refdec::list(b, T::read)?.into_iter().collect())
	}
}
impl<T: Subject + Clone + Ord> Subject for OrdSet<T> {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, d: u32) -> Self {
		gen_items(s, d).into_iter().collect()
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		canon_items(self.iter(), self.len(), o, c, false)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		read_set(b, OrdSet::insert)
	}
}
impl<T: Subject + Clone + Hash + Eq> Subject for IHashSet<T> {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, d: u32) -> Self {
		gen_items(s, d).into_iter().collect()
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		canon_items(self.iter(), self.len(), o, c, true)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		read_set(b, IHashSet::insert)
	}
}
impl<K: Subject + Clone + Ord, V: Subject + Clone> Subject for OrdMap<K, V> {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, d: u32) -> Self {
		gen_pairs(s, d).into_iter().collect()
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		canon_pairs(self.iter(), self.len(), o, c, false)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		read_map(b, |m, k| m.get_key_value(k).map(|e| e.0), OrdMap::insert)
	}
}
impl<K: Subject + Clone + Hash + Eq, V: Subject + Clone> Subject for IHashMap<K, V> {
	const STRICT: bool = false;
	fn gen_(s: &mut Src, d: u32) -> Self {
		gen_pairs(s, d).into_iter().collect()
	}
	fn emit(&self, o: &mut Vec<u8>, c: bool) {
		canon_pairs(self.iter(), self.len(), o, c, true)
	}
	fn read(b: &mut &[u8]) -> Got<Self> {
		read_map(b, |m, k| m.get_key_value(k).map(|e| e.0), IHashMap::insert)
	}
}

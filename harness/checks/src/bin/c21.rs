//! C21: which error is reported. Built-in types under failing readers and
//! writers, invalid values in every place, and indexed payloads with one fault.
use checks::*;
use errors::Broken;
use revision::optimised::indexed::{IndexedMapEncoded, IndexedSeqEncoded};
use revision::optimised::{IndexedMapWalker, IndexedSeqWalker, IndexedStructWalker};
use revision::*;
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::hash::Hash;
use std::io::{Read, Write};
use std::ops::{Bound, Range};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::{Duration, SystemTime};

/// Is written as the given bytes.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Raw(Vec<u8>);
impl Revisioned for Raw {
	fn revision() -> u16 {
		1
	}
}
impl SerializeRevisioned for Raw {
	fn serialize_revisioned<W: Write>(&self, w: &mut W) -> Result<(), Error> {
		w.write_all(&self.0).map_err(Error::Io)
	}
}
impl DeserializeRevisioned for Raw {
	fn deserialize_revisioned<R: Read>(_: &mut R) -> Result<Self, Error> {
		unreachable!()
	}
}
impl SkipRevisioned for Raw {
	fn skip_revisioned<R: Read>(_: &mut R) -> Result<(), Error> {
		unreachable!()
	}
}
impl SkipCheckRevisioned for Raw {
	fn skip_check_revisioned<R: Read>(_: &mut R) -> Result<(), Error> {
		unreachable!()
	}
}
impl WalkRevisioned for Raw {
	type Walker<'r, R: BorrowedReader + 'r> = LeafWalker<'r, Raw, R>;
	fn walk_revisioned<'r, R: BorrowedReader>(r: &'r mut R) -> Result<Self::Walker<'r, R>, Error> {
		Ok(LeafWalker::new(r))
	}
}
fn raw<T: SerializeRevisioned>(v: &T) -> Raw {
	Raw(to_vec(v).unwrap())
}

/// Bytes that are no value of the type, and what has to be said about them.
pub struct Bad {
	bytes: Vec<u8>,
	want: Box<dyn Fn(&Error) -> bool>,
	text: String,
}
fn bad(bytes: Vec<u8>, text: impl Into<String>, want: impl Fn(&Error) -> bool + 'static) -> Bad {
	Bad { bytes, want: Box::new(want), text: text.into() }
}
fn deserialize(e: &Error) -> bool {
	matches!(e, Error::Deserialize(_))
}

pub trait Leaf: DeserializeRevisioned + SerializeRevisioned + SkipRevisioned + SkipCheckRevisioned + Sized + 'static {
	/// Vectors of it may be written in bulk, in another form.
	const BULK: bool = false;
	/// Opening a walker has to look at what may be wrong.
	fn opens(_: &[u8]) -> Option<Result<(), Error>> {
		None
	}
	fn good(s: &mut Src) -> Self;
	fn bad(s: &mut Src) -> Bad;
}

impl Leaf for bool {
	const BULK: bool = true;
	fn good(s: &mut Src) -> Self {
		s.bool()
	}
	fn bad(s: &mut Src) -> Bad {
		let b = 2 + s.below(254) as u8;
		bad(vec![b], format!("InvalidBoolValue({b})"), move |e| matches!(e, Error::InvalidBoolValue(x) if *x == b))
	}
}
impl Leaf for char {
	fn good(s: &mut Src) -> Self {
		char::from_u32(s.below(0xd800) as u32).unwrap()
	}
	fn bad(s: &mut Src) -> Bad {
		let b: Vec<u8> = match s.below(6) {
			0 => vec![0x80 + s.below(0x40) as u8],
			1 => vec![0xf8 + s.below(8) as u8],
			2 => vec![0xed, 0xa0 + s.below(0x20) as u8, 0x80],
			3 => vec![0xf4, 0x90 + s.below(0x30) as u8, 0x80, 0x80],
			4 => vec![0xc0 + s.below(2) as u8, 0x80 + s.below(0x40) as u8],
			_ => vec![0xe2, 0x82, s.below(0x80) as u8],
		};
		bad(b, "InvalidCharEncoding", |e| matches!(e, Error::InvalidCharEncoding))
	}
}
/// A length-prefixed string that is not UTF-8, or whose length is not an integer.
fn bad_text(s: &mut Src) -> Bad {
	if !FIXED && s.chance(1, 4) {
		return bad(vec![255, 0, 0], "InvalidIntegerEncoding", |e| matches!(e, Error::InvalidIntegerEncoding));
	}
	let n = s.below(6);
	let mut t: Vec<u8> = (0..n).map(|_| b'a' + s.below(26) as u8).collect();
	t.extend_from_slice(s.pick(&[&[0x80u8][..], &[0xff], &[0xc3, 0x28], &[0xe2, 0x82], &[0xf0, 0x9f], &[0xed, 0xa0, 0x80], &[0xc3, 0xa9, 0xfe]]));
	if s.bool() {
		t.extend_from_slice(b"xyz");
	}
	let want = std::str::from_utf8(&t).unwrap_err();
	let mut b = Vec::new();
	refenc::len(t.len(), &mut b);
	b.extend(t);
	bad(b, format!("Utf8Error({want:?})"), move |e| matches!(e, Error::Utf8Error(x) if *x == want))
}
macro_rules! text {
	($($t:ty)*) => {$(
		impl Leaf for $t {
			fn good(s: &mut Src) -> Self {
				let n = s.below(5);
				(0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect::<String>().into()
			}
			fn bad(s: &mut Src) -> Bad {
				bad_text(s)
			}
		}
	)*};
}
text!(String Box<str> Arc<str> PathBuf);
macro_rules! ints {
	($($t:ty, $u:ty, $n:expr;)*) => {$(
		impl Leaf for $t {
			const BULK: bool = true;
			fn good(s: &mut Src) -> Self {
				s.below(100) as $t
			}
			fn bad(s: &mut Src) -> Bad {
				let fit = size_of::<$t>().min(16);
				// above the type's range, in a form wide enough for it
				let wide = [(252u8, 4usize), (253, 8), (254, 16)];
				let wide: Vec<_> = wide.into_iter().filter(|w| w.1 > fit).collect();
				if wide.is_empty() || s.chance(1, 3) {
					let mut b = vec![255];
					b.extend(s.bytes(3));
					return bad(b, "InvalidIntegerEncoding", |e| matches!(e, Error::InvalidIntegerEncoding));
				}
				let (tag, n) = *s.pick(&wide);
				let x = (<$u>::MAX as u128).saturating_add(1 + s.draw(1000) as u128);
				let mut b = vec![tag];
				b.extend_from_slice(&x.to_le_bytes()[..n]);
				bad(b, "IntegerOverflow", |e| matches!(e, Error::IntegerOverflow))
			}
		}
	)*};
}
ints!(u16, u16, 2; i16, u16, 2; u32, u32, 4; i32, u32, 4; u64, u64, 8; i64, u64, 8; u128, u128, 16; i128, u128, 16; usize, usize, 8; isize, usize, 8;);

fn variant_index(x: u32) -> Vec<u8> {
	to_vec(&x).unwrap()
}
impl Leaf for Option<u8> {
	fn opens(b: &[u8]) -> Option<Result<(), Error>> {
		let mut r = SliceReader::new(b);
		Some(<Self as WalkRevisioned>::walk_revisioned(&mut r).map(|_| ()))
	}
	fn good(s: &mut Src) -> Self {
		s.bool().then_some(3)
	}
	fn bad(s: &mut Src) -> Bad {
		bad(vec![2 + s.below(254) as u8, 0], "Deserialize", deserialize)
	}
}
impl Leaf for Result<u8, i8> {
	fn opens(b: &[u8]) -> Option<Result<(), Error>> {
		let mut r = SliceReader::new(b);
		Some(<Self as WalkRevisioned>::walk_revisioned(&mut r).map(|_| ()))
	}
	fn good(s: &mut Src) -> Self {
		if s.bool() { Ok(1) } else { Err(2) }
	}
	fn bad(s: &mut Src) -> Bad {
		let mut b = variant_index(2 + s.draw(1 << 32).min(0xffff_fff0) as u32);
		b.push(0);
		bad(b, "Deserialize", deserialize)
	}
}
impl Leaf for Duration {
	fn good(s: &mut Src) -> Self {
		Duration::from_nanos(s.draw(1 << 40))
	}
	fn bad(s: &mut Src) -> Bad {
		let mut b = to_vec(&(u64::MAX - s.below(2) as u64)).unwrap();
		b.extend(to_vec(&(2_000_000_000u32 + s.below(1000) as u32)).unwrap());
		bad(b, "Deserialize", deserialize)
	}
}
impl Leaf for SystemTime {
	fn good(s: &mut Src) -> Self {
		SystemTime::UNIX_EPOCH + Duration::good(s)
	}
	fn bad(s: &mut Src) -> Bad {
		if s.bool() {
			return Duration::bad(s);
		}
		bad(to_vec(&Duration::new(u64::MAX, 0)).unwrap(), "Deserialize", deserialize)
	}
}

// declared types

macro_rules! ok_bad {
	($t:ty, $good:expr, $bad:expr $(, $open:ident)?) => {
		impl Leaf for $t {
			$(fn opens(b: &[u8]) -> Option<Result<(), Error>> {
				let mut $open = SliceReader::new(b);
				Some(<Self as WalkRevisioned>::walk_revisioned(&mut $open).map(|_| ()))
			})?
			fn good(s: &mut Src) -> Self {
				let f: fn(&mut Src) -> Self = $good;
				f(s)
			}
			fn bad(s: &mut Src) -> Bad {
				let f: fn(&mut Src) -> Bad = $bad;
				f(s)
			}
		}
	};
}
#[revisioned(revision = 3)]
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Rev {
	a: u8,
}
fn unknown_revision(s: &mut Src, first: u16) -> Bad {
	let r = *s.pick(&[0u16, first, first + 1, 250, 251, 252, 65535]);
	let mut b = to_vec(&r).unwrap();
	b.extend([0; 6]);
	bad(b, "Deserialize", deserialize)
}
ok_bad!(Rev, |s| Rev { a: s.below(9) as u8 }, |s| unknown_revision(s, 4), r);

#[revisioned(revision = 1)]
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Var {
	A,
	B(u8),
}
ok_bad!(Var, |s| if s.bool() { Var::A } else { Var::B(4) }, |s| {
	let mut b = to_vec(&1u16).unwrap();
	b.extend(variant_index(2 + s.draw(1 << 32).min(0xffff_fff0) as u32));
	bad(b, "Deserialize", deserialize)
});

#[revisioned(revision(1, optimised))]
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Tag {
	#[revision(size = "inline")]
	A,
	#[revision(size = "varlen")]
	B(u8),
}
ok_bad!(Tag, |s| if s.bool() { Tag::A } else { Tag::B(4) }, |s| {
	if s.chance(1, 5) {
		return unknown_revision(s, 2);
	}
	let mut b = to_vec(&1u16).unwrap();
	let tag = match s.below(3) {
		0 => 0x60 | s.below(32) as u8,
		1 => 0x80 | s.below(128) as u8,
		_ => {
			// a size class without a variant of that number
			b.push(2 + s.below(30) as u8);
			return bad(b, "Deserialize", deserialize);
		}
	};
	b.push(tag);
	b.extend([0; 4]);
	bad(b, format!("InvalidOptimisedTag({tag})"), move |e| matches!(e, Error::InvalidOptimisedTag(x) if *x == tag))
}, r);

#[revisioned(revision = 1)]
struct Conv1 {
	a: String,
}
#[revisioned(revision = 2)]
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Conv {
	#[revision(end = 2, convert_fn = "refuse")]
	a: String,
	#[revision(start = 2)]
	b: u8,
}
impl Conv {
	fn refuse(&mut self, _: u16, a: String) -> Result<(), Error> {
		Err(Error::Conversion(a))
	}
}
ok_bad!(Conv, |s| Conv { b: s.below(9) as u8 }, |s| {
	let a: String = Leaf::good(s);
	bad(to_vec(&Conv1 { a: a.clone() }).unwrap(), format!("Conversion({a:?})"), move |e| matches!(e, Error::Conversion(x) if *x == a))
});

// a variant that is gone, fields of variants that are, and the same in envelopes
macro_rules! conversions {
	($m:ident, ($($o:tt)*), ($($n:tt)*), $(#[$size:meta])?) => {
		pub mod $m {
			use super::*;
			#[revisioned($($o)*)]
			pub enum Old {
				$(#[$size])?
				A(String),
				$(#[$size])?
				B {
					a: String,
				},
				$(#[$size])?
				C(u8, String),
			}
			#[revisioned($($n)*)]
			#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
			pub enum New {
				$(#[$size])?
				#[revision(end = 2, convert_fn = "gone")]
				A(String),
				$(#[$size])?
				B {
					#[revision(end = 2, convert_fn = "named")]
					a: String,
					#[revision(start = 2)]
					b: u8,
				},
				$(#[$size])?
				C(u8, #[revision(end = 2, convert_fn = "unnamed")] String),
			}
			impl New {
				fn gone(f: NewAFields, _: u16) -> Result<Self, Error> {
					say(f.0)
				}
				fn named(_: &mut NewBFields, _: u16, a: String) -> Result<(), Error> {
					say(a)
				}
				fn unnamed(_: &mut NewCFields, _: u16, a: String) -> Result<(), Error> {
					say(a)
				}
			}
			ok_bad!(New, |s| if s.bool() { New::B { b: 1 } } else { New::C(2) }, |s| {
				let (a, text, want) = complaint(s);
				let v = match s.below(3) {
					0 => Old::A(a),
					1 => Old::B { a },
					_ => Old::C(7, a),
				};
				Bad { bytes: to_vec(&v).unwrap(), want, text }
			});
		}
	};
}
/// What conversion functions say is up to them.
fn say<T>(a: String) -> Result<T, Error> {
	Err(match a.strip_prefix('=') {
		Some("path") => Error::InvalidPath,
		Some("overflow") => Error::IntegerOverflow,
		Some("bool") => Error::InvalidBoolValue(77),
		Some(m) => Error::Deserialize(m.to_string()),
		None => Error::Conversion(a),
	})
}
fn complaint(s: &mut Src) -> (String, String, Box<dyn Fn(&Error) -> bool>) {
	let a: String = match s.below(6) {
		0 => "=path".into(),
		1 => "=overflow".into(),
		2 => "=bool".into(),
		3 => "=something else".into(),
		_ => Leaf::good(s),
	};
	let want = say::<()>(a.clone()).unwrap_err();
	(a, format!("{want:?}"), Box::new(move |e| format!("{e:?}") == format!("{want:?}")))
}
conversions!(plain, (revision = 1), (revision = 2),);
conversions!(packed, (revision(1, optimised)), (revision(1, optimised), revision(2, optimised)), #[revision(size = "varlen")]);

#[revisioned(revision(1, optimised, indexed_struct))]
struct Packed1 {
	k: u16,
	a: String,
}
#[revisioned(revision(1, optimised, indexed_struct), revision(2, optimised))]
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Packed {
	k: u16,
	#[revision(end = 2, convert_fn = "refuse")]
	a: String,
}
impl Packed {
	fn refuse(&mut self, _: u16, a: String) -> Result<(), Error> {
		say(a)
	}
}
ok_bad!(Packed, |s| Packed { k: s.below(9) as u16 }, |s| {
	let (a, text, want) = complaint(s);
	Bad { bytes: to_vec(&Packed1 { k: 3, a }).unwrap(), want, text }
});

#[cfg(feature = "third")]
mod third {
	use super::*;
	use subjects::ext::*;
	ok_bad!(NaiveDate, |s| NaiveDate::from_ymd_opt(2000 + s.below(9) as i32, 2, 3).unwrap(), |s| {
		let mut b = to_vec(&2000i32).unwrap();
		b.extend(to_vec(&(13 + s.below(200) as u32)).unwrap());
		b.extend(to_vec(&1u32).unwrap());
		bad(b, "Deserialize", deserialize)
	});
	ok_bad!(Regex, |_| Regex::new("a+").unwrap(), |s| {
		if s.bool() {
			return bad_text(s);
		}
		bad(to_vec(&"a(".to_string()).unwrap(), "Deserialize", deserialize)
	});
	pub type F = NotNan<f64>;
	ok_bad!(F, |s| F::new(s.below(9) as f64).unwrap(), |_| bad(to_vec(&f64::NAN).unwrap(), "Deserialize", deserialize));
}

// ---------------------------------------------------------------- places

/// The text says what the error holds.
fn shown(e: &Error) -> Res {
	let t = e.to_string();
	let has = match e {
		Error::Io(x) => t.contains(&x.to_string()),
		Error::Utf8Error(x) => t.contains(&x.to_string()),
		Error::Serialize(m) | Error::Deserialize(m) | Error::Conversion(m) | Error::BorrowedReaderContractViolation(m) => t.contains(m),
		Error::OptimisedOffsetOutOfRange { offset, payload_len } => t.contains(&offset.to_string()) && t.contains(&payload_len.to_string()),
		_ => !t.is_empty(),
	};
	ensure!(has, "{e:?} is shown as {t:?}");
	Ok(())
}

struct Trial<'a> {
	bad: &'a Bad,
	c: &'a mut Ctx,
	pieces: Vec<usize>,
}
impl Trial<'_> {
	fn said<T>(&mut self, how: &str, r: Result<T, Error>, b: &[u8]) -> Res {
		self.c.evals += 1;
		match r {
			Ok(_) => fail!("{how} accepts {} instead of reporting {}", hex(b), self.bad.text),
			Err(e) => {
				ensure!((self.bad.want)(&e), "{how} of {} reports {e:?} instead of {}", hex(b), self.bad.text);
				shown(&e)?;
				let src = std::error::Error::source(&e).map(|x| x.to_string());
				match &e {
					Error::Io(x) => ensure!(src == Some(x.to_string()), "the source of {e:?} is {src:?}"),
					Error::Utf8Error(x) => ensure!(src == Some(x.to_string()), "the source of {e:?} is {src:?}"),
					_ => ensure!(src.is_none(), "the source of {e:?} is {src:?}"),
				}
				Ok(())
			}
		}
	}
	/// Everything that has to look at the value.
	fn run<T: DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned>(&mut self, b: &[u8]) -> Res {
		let n = tname::<T>();
		self.said(&format!("from_slice::<{n}>"), from_slice::<T>(b), b)?;
		let mut r = Broken::new(b, self.pieces.clone(), None, 0);
		self.said(&format!("from_reader::<{n}>"), from_reader::<_, T>(&mut r), b)?;
		self.said(&format!("skip_check_slice::<{n}>"), skip_check_slice::<T>(b), b)?;
		let mut r = Broken::new(b, self.pieces.clone(), None, 0);
		self.said(&format!("skip_check_reader::<{n}>"), skip_check_reader::<T, _>(&mut r), b)?;
		// what is passed over may go unnoticed, but not be called something else
		let r = skip_slice::<T>(b);
		if r.is_err() {
			self.said(&format!("skip_slice::<{n}>"), r, b)?;
		}
		let mut r = Broken::new(b, self.pieces.clone(), None, 0);
		let r = skip_reader::<T, _>(&mut r);
		if r.is_err() {
			self.said(&format!("skip_reader::<{n}>"), r, b)?;
		}
		Ok(())
	}
	fn of<T: DeserializeRevisioned + SkipRevisioned + SkipCheckRevisioned>(&mut self, v: impl SerializeRevisioned) -> Res {
		self.run::<T>(&to_vec(&v).unwrap())
	}
}

/// Good ones around the bad one, which stands at the index returned.
fn among<T: Leaf>(s: &mut Src, x: &Raw) -> (Vec<Raw>, usize) {
	let n = s.below(11);
	let mut v: Vec<Raw> = (0..n).map(|_| raw(&T::good(s))).collect();
	let at = s.below(n + 1);
	v.insert(at, x.clone());
	(v, at)
}

fn places<T: Leaf>(s: &mut Src, c: &mut Ctx) -> Res {
	let b = T::bad(s);
	let x = Raw(b.bytes.clone());
	let k = s.below(12);
	let pieces = crate::io::gen_pieces(s);
	c.key(&x.0);
	c.key(&[k as u8]);
	c.nontrivial = true;
	c.label(["alone", "option", "vector", "box", "arc", "tuple", "result", "bound", "range", "map value", "nested", "reader"][k]);
	c.sample(|| format!("{} {} in place {k}: {}", tname::<T>(), hex(&x.0), b.text));
	let (v, at) = among::<T>(s, &x);
	let mut t = Trial { bad: &b, c, pieces };
	match k {
		0 => {
			if let Some(r) = T::opens(&x.0) {
				t.said("opening a walker", r, &x.0)?;
				t.said("skip_slice", skip_slice::<T>(&x.0), &x.0)?;
			}
			t.run::<T>(&x.0)
		}
		1 => {
			t.of::<Option<T>>(Some(x.clone()))?;
			t.of::<Option<Option<T>>>(Some(Some(x)))
		}
		2 if T::BULK && SPEC => Ok(()),
		2 => t.of::<Vec<T>>(v),
		3 => t.of::<Box<T>>(x),
		4 => t.of::<Arc<T>>(x),
		5 => {
			t.of::<(T, u8)>((x.clone(), 1u8))?;
			t.of::<(u8, T, u8)>((1u8, x.clone(), 1u8))?;
			t.of::<(u8, u8, u8, u8, String, T)>((1u8, 1u8, 2u8, 3u8, String::new(), x))
		}
		6 => {
			t.of::<Result<T, u8>>(Ok::<_, u8>(x.clone()))?;
			t.of::<Result<u8, T>>(Err::<u8, _>(x.clone()))?;
			t.of::<Result<Result<u8, T>, u8>>(Ok::<_, u8>(Err::<u8, _>(x)))
		}
		7 => {
			t.of::<Bound<T>>(Bound::Included(x.clone()))?;
			t.of::<Bound<T>>(Bound::Excluded(x))
		}
		8 => {
			let g = raw(&T::good(s));
			t.of::<Range<T>>(x.clone()..g.clone())?;
			t.of::<Range<T>>(g..x)
		}
		9 => {
			let m: BTreeMap<u32, Raw> = v.into_iter().enumerate().map(|(i, x)| (i as u32, x)).collect();
			t.of::<BTreeMap<u32, T>>(m.clone())?;
			t.of::<HashMap<u32, T>>(m.clone())?;
			#[cfg(feature = "third")]
			{
				t.of::<subjects::ext::OrdMap<u32, Wrap<T>>>(m.clone())?;
			}
			let mut p = Vec::new();
			m.serialize_indexed_map(&mut p).unwrap();
			t.said("deserialize_indexed_map into a BTreeMap", BTreeMap::<u32, Wrap<T>>::deserialize_indexed_map(&mut &p[..]), &p)?;
			t.said("deserialize_indexed_map into a HashMap", HashMap::<u32, Wrap<T>>::deserialize_indexed_map(&mut &p[..]), &p)?;
			// and through a walker
			let b = to_vec(&m).unwrap();
			let mut r = SliceReader::new(&b);
			let mut w = BTreeMap::<u32, Wrap<T>>::walk_revisioned(&mut r).unwrap();
			for i in 0..=at {
				let Some(mut e) = w.next_entry() else { fail!("no entry {i} of {}", hex(&b)) };
				if i < at {
					if let Err(x) = e.decode_pair() {
						fail!("decoding entry {i} of {} reports {x:?}", hex(&b));
					}
				} else if s.bool() {
					t.said("MapEntry::decode_pair", e.decode_pair(), &b)?;
					break;
				} else {
					let _ = e.decode_key();
					t.said("MapEntry::decode_value", e.decode_value(), &b)?;
					break;
				}
			}
			Ok(())
		}
		10 => {
			t.of::<Box<Option<(u8, Result<Box<T>, u8>)>>>(Some((1u8, Ok::<_, u8>(x.clone()))))?;
			t.of::<Vec<Option<T>>>(v.iter().cloned().map(Some).collect::<Vec<_>>())?;
			t.of::<BTreeMap<String, Vec<Option<T>>>>(BTreeMap::from([("k".to_string(), v.into_iter().map(Some).collect::<Vec<_>>())]))
		}
		_ => {
			// one element at a time
			let mut p = Vec::new();
			v.serialize_indexed_seq(&mut p).unwrap();
			t.said("deserialize_indexed_seq", Vec::<T>::deserialize_seq(&mut &p[..]), &p)?;
			let b = to_vec(&v).unwrap();
			let mut r = SliceReader::new(&b);
			let w = Vec::<Wrap<T>>::walk_revisioned(&mut r);
			let Ok(mut w) = w else { fail!("walking {} is refused", hex(&b)) };
			for i in 0..=at {
				let Some(it) = w.next_item() else { fail!("no item {i} of {}", hex(&b)) };
				let r = it.decode();
				if i == at {
					t.said("SeqItem::decode", r, &b)?;
				} else if let Err(e) = r {
					fail!("decoding item {i} of {} reports {e:?}", hex(&b));
				}
			}
			let o = to_vec(&Some(x)).unwrap();
			let mut r = SliceReader::new(&o);
			let Ok(w) = Option::<Wrap<T>>::walk_revisioned(&mut r) else { fail!("walking {} is refused", hex(&o)) };
			t.said("OptionWalker::decode", w.decode(), &o)
		}
	}
}

/// Reading an indexed sequence of any element.
trait SeqOf: Sized {
	fn deserialize_seq<R: Read>(r: &mut R) -> Result<Self, Error>;
}
impl<T: Leaf> SeqOf for Vec<T> {
	fn deserialize_seq<R: Read>(r: &mut R) -> Result<Self, Error> {
		Ok(Vec::<Wrap<T>>::deserialize_indexed_seq(r)?.into_iter().map(|x| x.0).collect())
	}
}

/// A type with everything a collection asks of it. Not written in bulk.
pub struct Wrap<T>(T);
impl<T> Clone for Wrap<T> {
	fn clone(&self) -> Self {
		unreachable!()
	}
}
impl<T: Leaf> Revisioned for Wrap<T> {
	fn revision() -> u16 {
		T::revision()
	}
}
impl<T: Leaf> SerializeRevisioned for Wrap<T> {
	fn serialize_revisioned<W: Write>(&self, w: &mut W) -> Result<(), Error> {
		self.0.serialize_revisioned(w)
	}
}
impl<T: Leaf> DeserializeRevisioned for Wrap<T> {
	fn deserialize_revisioned<R: Read>(r: &mut R) -> Result<Self, Error> {
		Ok(Wrap(T::deserialize_revisioned(r)?))
	}
}
impl<T: Leaf> SkipRevisioned for Wrap<T> {
	fn skip_revisioned<R: Read>(r: &mut R) -> Result<(), Error> {
		T::skip_check_revisioned(r)
	}
}
impl<T: Leaf> SkipCheckRevisioned for Wrap<T> {
	fn skip_check_revisioned<R: Read>(r: &mut R) -> Result<(), Error> {
		T::skip_check_revisioned(r)
	}
}
impl<T: Leaf> WalkRevisioned for Wrap<T> {
	type Walker<'r, R: BorrowedReader + 'r> = LeafWalker<'r, Wrap<T>, R>;
	fn walk_revisioned<'r, R: BorrowedReader>(r: &'r mut R) -> Result<Self::Walker<'r, R>, Error> {
		Ok(LeafWalker::new(r))
	}
}

/// As keys and elements of ordered and hashed collections.
fn keys<T: Leaf + Ord + Hash + Clone>(s: &mut Src, c: &mut Ctx) -> Res {
	let b = T::bad(s);
	let x = Raw(b.bytes.clone());
	let pieces = crate::io::gen_pieces(s);
	c.key(&x.0);
	c.nontrivial = true;
	let (v, _) = among::<T>(s, &x);
	for x in &v {
		c.key(&x.0);
	}
	c.sample(|| format!("{} {} among {}: {}", tname::<T>(), hex(&x.0), v.len(), b.text));
	let set: BTreeSet<Raw> = v.iter().cloned().collect();
	let map: BTreeMap<Raw, u8> = v.iter().cloned().map(|x| (x, 7)).collect();
	let mut t = Trial { bad: &b, c, pieces };
	match s.below(6) {
		0 => t.of::<BTreeSet<T>>(set),
		1 => t.of::<HashSet<T>>(set),
		2 => t.of::<BinaryHeap<T>>(set),
		3 => t.of::<BTreeMap<T, u8>>(map),
		4 => t.of::<HashMap<T, u8>>(map),
		_ => {
			#[cfg(feature = "third")]
			{
				use subjects::ext::*;
				t.of::<OrdSet<T>>(set.clone())?;
				t.of::<IHashSet<T>>(set.clone())?;
				t.of::<OrdMap<T, u8>>(map.clone())?;
				t.of::<IHashMap<T, u8>>(map.clone())?;
			}
			t.of::<Reverse<T>>(x.clone())?;
			t.of::<Cow<'static, T>>(x)
		}
	}
}

macro_rules! shapes {
	($m:ident, $t:ty) => {
		mod $m {
			use super::*;
			#[allow(unused)]
			type Leaf = $t;
			#[revisioned(revision = 1)]
			pub struct Plain {
				pub a: u8,
				pub x: $t,
				pub y: Option<$t>,
			}
			#[revisioned(revision(1, optimised))]
			pub struct Opt {
				pub a: u8,
				pub x: $t,
				#[revision(indexed_seq)]
				pub y: Vec<$t>,
			}
			#[revisioned(revision(1, optimised, indexed_struct))]
			pub struct Ix {
				pub a: u8,
				pub x: $t,
				#[revision(indexed_map)]
				pub y: BTreeMap<u32, $t>,
			}
			#[revisioned(revision = 1)]
			pub enum Way {
				A(u8, $t),
				B {
					x: $t,
				},
			}
			#[revisioned(revision(1, optimised))]
			pub enum OptWay {
				#[revision(size = "varlen")]
				A(u8, $t),
				#[revision(size = "varlen")]
				B {
					x: $t,
				},
			}
		}
	};
}
shapes!(of_raw, Raw);
macro_rules! declared {
	($($m:ident: $t:ty;)*) => {
		$(shapes!($m, $t);)*
		fn declared_cases(cs: &mut Cases) {
			$(cs.add(format!("fields {}", stringify!($m)), 3.0, |s, c| {
				let b = <$t as Leaf>::bad(s);
				let x = Raw(b.bytes.clone());
				let g = raw(&<$t as Leaf>::good(s));
				let pieces = crate::io::gen_pieces(s);
				c.key(&x.0);
				c.nontrivial = true;
				let k = s.below(9);
				c.key(&[k as u8]);
				c.sample(|| format!("{} {} in a field ({k}): {}", tname::<$t>(), hex(&x.0), b.text));
				let (v, _) = among::<$t>(s, &x);
				let m: BTreeMap<u32, Raw> = v.iter().cloned().enumerate().map(|(i, x)| (i as u32, x)).collect();
				let mut t = Trial { bad: &b, c, pieces };
				match k {
					0 => t.of::<$m::Plain>(of_raw::Plain { a: 1, x, y: None }),
					1 => t.of::<$m::Plain>(of_raw::Plain { a: 1, x: g, y: Some(x) }),
					2 => t.of::<$m::Opt>(of_raw::Opt { a: 1, x, y: vec![] }),
					3 => t.of::<$m::Opt>(of_raw::Opt { a: 1, x: g, y: v }),
					4 => t.of::<$m::Ix>(of_raw::Ix { a: 1, x, y: BTreeMap::new() }),
					5 => t.of::<$m::Ix>(of_raw::Ix { a: 1, x: g, y: m }),
					6 => {
						t.of::<$m::Way>(of_raw::Way::A(1, x.clone()))?;
						t.of::<$m::Way>(of_raw::Way::B { x })
					}
					7 => {
						t.of::<$m::OptWay>(of_raw::OptWay::A(1, x.clone()))?;
						t.of::<$m::OptWay>(of_raw::OptWay::B { x })
					}
					_ => {
						// walkers
						let b = to_vec(&of_raw::Plain { a: 1, x: x.clone(), y: None }).unwrap();
						let mut r = SliceReader::new(&b);
						let Ok(mut w) = $m::Plain::walk_revisioned(&mut r) else { fail!("no walker over {}", hex(&b)) };
						let _ = w.skip_a();
						t.said("decode_x", w.decode_x(), &b)?;
						let b = to_vec(&of_raw::Ix { a: 1, x, y: BTreeMap::new() }).unwrap();
						let mut r = SliceReader::new(&b);
						let Ok(mut w) = $m::Ix::walk_revisioned(&mut r) else { fail!("no walker over {}", hex(&b)) };
						t.said("decode_x of an indexed struct", w.decode_x(), &b)
					}
				}
			});)*
		}
	};
}
declared! {
	of_bool: bool;
	of_char: char;
	of_string: String;
	of_path: PathBuf;
	of_option: Option<u8>;
	of_result: Result<u8, i8>;
	of_duration: Duration;
	of_rev: Rev;
	of_var: Var;
	of_tag: Tag;
	of_conv: Conv;
	of_packed: Packed;
	of_gone: plain::New;
	of_packed_gone: packed::New;
}

// ------------------------------------------------------- indexed payloads

fn word(b: &mut [u8], at: usize, x: u32) {
	b[at..at + 4].copy_from_slice(&x.to_le_bytes());
}
fn get(b: &[u8], at: usize) -> u32 {
	u32::from_le_bytes(b[at..at + 4].try_into().unwrap())
}
fn verdict<T>(what: &str, r: Result<T, Error>, want: &str, ok: impl Fn(&Error) -> bool, b: &[u8], c: &mut Ctx) -> Res {
	c.evals += 1;
	match r {
		Ok(_) => fail!("{what} over {} succeeds instead of reporting {want}", hex(b)),
		Err(e) => {
			ensure!(ok(&e), "{what} over {} reports {e:?} instead of {want}", hex(b));
			shown(&e)
		}
	}
}

/// An indexed map with a single fault.
fn faulty_map(s: &mut Src, c: &mut Ctx) -> Res {
	// keys of one length, so that they can change places
	let n = s.range(8, 20);
	let m: BTreeMap<String, String> = (0..n).map(|i| (format!("k{i:03}"), "v".repeat(1 + s.below(4)))).collect();
	let mut p = Vec::new();
	m.serialize_indexed_map(&mut p).unwrap();
	let head = p.len();
	let table = 2;
	let lens = table + 8 * n;
	let region = lens + 8;
	let klen = get(&p, lens);
	let vlen = get(&p, lens + 4);
	let _ = head;
	let i = 1 + s.below(n - 1);
	let open = |p: &[u8]| IndexedMapWalker::<String, String>::from_payload(p).map(|_| ());
	if let Err(e) = open(&p) {
		fail!("{} is refused: {e}", hex(&p));
	}
	c.nontrivial = true;
	let k = s.below(10);
	c.label(["key offset", "value offset", "equal offsets", "falling offsets", "keys exchanged", "cut in the tables", "cut in the regions", "short keys", "short values", "flags only"][k]);
	let over = s.draw(1000) as u32;
	match k {
		7 | 8 => {
			// a region that ends before the last entries begin
			let col = 4 * (k - 7);
			let new = s.draw(get(&p, table + 8 * (n - 1) + col) as u64 - 1) as u32;
			word(&mut p, lens + col, new);
			c.key(&p);
			let o = (0..n).map(|j| get(&p, table + 8 * j + col)).find(|o| *o > new).unwrap();
			verdict("IndexedMapWalker::from_payload", open(&p), &format!("OptimisedOffsetOutOfRange({o})"), |e| matches!(e, Error::OptimisedOffsetOutOfRange { offset, payload_len } if *offset == o && *payload_len == new), &p, c)
		}
		0 | 1 => {
			let o = if k == 0 { klen } else { vlen } + 1 + over;
			let from = if s.bool() { n - 1 } else { i };
			for j in from..n {
				word(&mut p, table + 8 * j + 4 * k, o + (j - from) as u32);
			}
			c.key(&p);
			verdict("IndexedMapWalker::from_payload", open(&p), &format!("OptimisedOffsetOutOfRange({o})"), |e| matches!(e, Error::OptimisedOffsetOutOfRange { offset, .. } if *offset == o), &p, c)?;
			// found without having been checked
			let Ok(w) = IndexedMapWalker::<String, String>::from_payload_unvalidated(&p) else { return Ok(()) };
			let last = to_vec(&format!("k{:03}", n - 1)).unwrap();
			let r = w.find_value_bytes(|x| x.cmp(&last));
			verdict("find_value_bytes", r, "OptimisedOffsetOutOfRange", |e| matches!(e, Error::OptimisedOffsetOutOfRange { .. }), &p, c)
		}
		2 | 3 => {
			let col = 4 * s.below(2);
			let prev = get(&p, table + 8 * (i - 1) + col);
			let o = if k == 2 { prev } else { prev.saturating_sub(1 + over % 3) };
			word(&mut p, table + 8 * i + col, o);
			c.key(&p);
			verdict("IndexedMapWalker::from_payload", open(&p), "OptimisedOffsetsNonMonotonic", |e| matches!(e, Error::OptimisedOffsetsNonMonotonic), &p, c)
		}
		4 => {
			let w = (klen as usize) / n;
			let (a, b) = (region + w * (i - 1), region + w * i);
			if s.bool() {
				for j in 0..w {
					p.swap(a + j, b + j);
				}
			} else {
				p.copy_within(a..a + w, b);
			}
			c.key(&p);
			verdict("IndexedMapWalker::from_payload", open(&p), "OptimisedKeyRegionNotAscending", |e| matches!(e, Error::OptimisedKeyRegionNotAscending), &p, c)
		}
		5 | 6 => {
			let end = if k == 5 { s.range(table, region - 1) } else { s.range(region, p.len() - 1) };
			p.truncate(end);
			c.key(&p);
			let over = |e: &Error| matches!(e, Error::OptimisedSubReaderOverrun);
			verdict("IndexedMapWalker::from_payload", open(&p), "OptimisedSubReaderOverrun", over, &p, c)?;
			let r = IndexedMapWalker::<String, String>::from_payload_unvalidated(&p);
			verdict("IndexedMapWalker::from_payload_unvalidated", r, "OptimisedSubReaderOverrun", over, &p, c)
		}
		_ => {
			let b = [1u8];
			let p = &b[..s.below(2)];
			c.key(p);
			verdict("IndexedMapWalker::from_payload", open(p), "OptimisedSubReaderOverrun", |e| matches!(e, Error::OptimisedSubReaderOverrun), p, c)
		}
	}
}

fn faulty_seq(s: &mut Src, c: &mut Ctx) -> Res {
	let n = s.range(8, 20);
	let v: Vec<String> = (0..n).map(|_| "v".repeat(s.below(5))).collect();
	let mut p = Vec::new();
	v.serialize_indexed_seq(&mut p).unwrap();
	let table = 2;
	let body = table + 4 * n;
	let i = 1 + s.below(n - 1);
	let open = |p: &[u8]| IndexedSeqWalker::<String>::from_payload(p).map(|_| ());
	if let Err(e) = open(&p) {
		fail!("{} is refused: {e}", hex(&p));
	}
	c.nontrivial = true;
	let over = s.draw(1000) as u32;
	match s.below(4) {
		0 => {
			let o = (p.len() - body) as u32 + 1 + over;
			let from = if s.bool() { n - 1 } else { i };
			for j in from..n {
				word(&mut p, table + 4 * j, o + (j - from) as u32);
			}
			c.key(&p);
			verdict("IndexedSeqWalker::from_payload", open(&p), &format!("OptimisedOffsetOutOfRange({o})"), |e| matches!(e, Error::OptimisedOffsetOutOfRange { offset, .. } if *offset == o), &p, c)
		}
		1 => {
			let prev = get(&p, table + 4 * (i - 1));
			word(&mut p, table + 4 * i, prev.saturating_sub(over % 3));
			c.key(&p);
			verdict("IndexedSeqWalker::from_payload", open(&p), "OptimisedOffsetsNonMonotonic", |e| matches!(e, Error::OptimisedOffsetsNonMonotonic), &p, c)
		}
		2 => {
			p.truncate(s.range(table, body - 1));
			c.key(&p);
			let over = |e: &Error| matches!(e, Error::OptimisedSubReaderOverrun);
			verdict("IndexedSeqWalker::from_payload", open(&p), "OptimisedSubReaderOverrun", over, &p, c)?;
			let r = IndexedSeqWalker::<String>::from_payload_unvalidated(&p);
			verdict("IndexedSeqWalker::from_payload_unvalidated", r, "OptimisedSubReaderOverrun", over, &p, c)
		}
		_ => {
			c.key(&p);
			let Ok(w) = IndexedSeqWalker::<String>::from_payload(&p) else { return Ok(()) };
			let at = n + over as usize;
			verdict("element_bytes behind the end", w.element_bytes(at), "Deserialize", deserialize, &p, c)
		}
	}
}

fn faulty_struct(s: &mut Src, c: &mut Ctx) -> Res {
	let n = 1 + s.below(12);
	let mut p = vec![0; 4 * n];
	for i in 0..n {
		let at = p.len() as u32;
		word(&mut p, 4 * i, at);
		let k = 1 + s.below(5);
		p.extend(s.bytes(k));
	}
	let open = |p: &[u8]| IndexedStructWalker::from_payload(p, 1, n as u16).map(|_| ());
	if let Err(e) = open(&p) {
		fail!("{} with {n} fields is refused: {e}", hex(&p));
	}
	c.nontrivial = true;
	let over = s.draw(1000) as u32;
	match s.below(5) {
		0 => {
			let o = p.len() as u32 + 1 + over;
			let from = if s.bool() { n - 1 } else { s.below(n) };
			for j in from..n {
				word(&mut p, 4 * j, o + (j - from) as u32);
			}
			c.key(&p);
			verdict("IndexedStructWalker::from_payload", open(&p), &format!("OptimisedOffsetOutOfRange({o})"), |e| matches!(e, Error::OptimisedOffsetOutOfRange { offset, .. } if *offset == o), &p, c)
		}
		1 if n > 1 => {
			let i = 1 + s.below(n - 1);
			let prev = get(&p, 4 * (i - 1));
			word(&mut p, 4 * i, prev - over % 3);
			c.key(&p);
			verdict("IndexedStructWalker::from_payload", open(&p), "OptimisedOffsetsNonMonotonic", |e| matches!(e, Error::OptimisedOffsetsNonMonotonic), &p, c)
		}
		2 => {
			// into the table itself
			let o = over % (4 * n as u32);
			word(&mut p, 0, o);
			c.key(&p);
			verdict("IndexedStructWalker::from_payload", open(&p), &format!("OptimisedOffsetOutOfRange({o})"), |e| matches!(e, Error::OptimisedOffsetOutOfRange { offset, .. } if *offset == o), &p, c)
		}
		3 => {
			let Ok(w) = IndexedStructWalker::from_payload(&p, 1, n as u16) else { return Ok(()) };
			c.key(&p);
			let i = (n as u32 + over).min(65535) as u16;
			verdict("field_bytes behind the last field", w.field_bytes(i), "Deserialize", deserialize, &p, c)
		}
		_ => {
			p.truncate(s.below(4 * n));
			c.key(&p);
			let over = |e: &Error| matches!(e, Error::OptimisedSubReaderOverrun);
			verdict("IndexedStructWalker::from_payload", open(&p), "OptimisedSubReaderOverrun", over, &p, c)?;
			let r = IndexedStructWalker::from_payload_unvalidated(&p, 1, n as u16);
			verdict("IndexedStructWalker::from_payload_unvalidated", r, "OptimisedSubReaderOverrun", over, &p, c)
		}
	}
}

/// A reader whose rest grows, against its contract, once `turn` is passed. What
/// it hands out stays valid.
struct Grows<'a> {
	all: &'a [u8],
	pos: usize,
	turn: usize,
}
impl Read for Grows<'_> {
	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
		let n = buf.len().min(self.all.len() - self.pos);
		buf[..n].copy_from_slice(&self.all[self.pos..self.pos + n]);
		self.pos += n;
		Ok(n)
	}
}
// SAFETY: deliberately none; everything handed out lies in `all`.
unsafe impl BorrowedReader for Grows<'_> {
	fn peek_bytes(&self, n: usize) -> Result<&[u8], Error> {
		self.all[self.pos..].get(..n).ok_or(Error::Io(std::io::ErrorKind::UnexpectedEof.into()))
	}
	fn advance(&mut self, n: usize) -> Result<(), Error> {
		self.peek_bytes(n)?;
		self.pos += n;
		Ok(())
	}
	fn position(&self) -> usize {
		self.pos
	}
	fn remaining(&self) -> &[u8] {
		if self.pos > self.turn { self.all } else { &self.all[self.pos..] }
	}
}
#[revisioned(revision(1, optimised))]
struct Fields {
	#[revision(indexed_map)]
	m: BTreeMap<u32, String>,
	#[revision(indexed_seq)]
	q: Vec<String>,
	#[revision(indexed_set)]
	s: BTreeSet<String>,
}
fn contract(s: &mut Src, c: &mut Ctx) -> Res {
	let texts = |s: &mut Src| (0..s.below(12)).map(|_| <String as Leaf>::good(s)).collect::<Vec<_>>();
	let v = Fields { m: texts(s).into_iter().enumerate().map(|(i, x)| (i as u32, x)).collect(), q: texts(s), s: texts(s).into_iter().collect() };
	let b = to_vec(&v).unwrap();
	let k = s.below(3);
	let own = s.bool();
	c.key(&b);
	c.key(&[k as u8, own as u8]);
	c.nontrivial = true;
	let mut r = Grows { all: &b, pos: 0, turn: usize::MAX };
	let whole = |e: &Error| matches!(e, Error::BorrowedReaderContractViolation(_));
	let at = {
		let mut w = Fields::walk_revisioned(&mut r).unwrap();
		for f in 0..k {
			let ok = if f == 0 { w.skip_m() } else { w.skip_q() };
			ensure!(ok.is_ok(), "skipping field {f} of {} fails", hex(&b));
		}
		drop(w);
		r.pos
	};
	r.pos = 0;
	r.turn = at;
	let mut w = Fields::walk_revisioned(&mut r).unwrap();
	for f in 0..k {
		let ok = if f == 0 { w.skip_m() } else { w.skip_q() };
		ensure!(ok.is_ok(), "skipping field {f} of {} fails", hex(&b));
	}
	let want = "BorrowedReaderContractViolation";
	match (k, own) {
		(0, false) => verdict("walk_m", w.walk_m().map(drop), want, whole, &b, c),
		(0, true) => verdict("into_walk_m", w.into_walk_m().map(drop), want, whole, &b, c),
		(1, false) => verdict("walk_q", w.walk_q().map(drop), want, whole, &b, c),
		(1, true) => verdict("into_walk_q", w.into_walk_q().map(drop), want, whole, &b, c),
		(_, false) => verdict("walk_s", w.walk_s().map(drop), want, whole, &b, c),
		(_, true) => verdict("into_walk_s", w.into_walk_s().map(drop), want, whole, &b, c),
	}
}

// ---------------------------------------------------------------- writing

/// Values that cannot be written are refused, wherever they stand.
fn unwritable(s: &mut Src, c: &mut Ctx) -> Res {
	use std::ffi::OsString;
	use std::os::unix::ffi::OsStringExt;
	let n = s.below(4);
	let mut t = s.bytes(n);
	t.push(0xff);
	let p = PathBuf::from(OsString::from_vec(t.clone()));
	c.key(&t);
	c.nontrivial = true;
	let old = SystemTime::UNIX_EPOCH - Duration::from_nanos(1 + s.draw(1 << 50));
	let k = s.below(8);
	c.key(&[k as u8]);
	let path = |e: &Error| matches!(e, Error::InvalidPath);
	let time = |e: &Error| matches!(e, Error::Serialize(_));
	match k {
		0 => verdict("to_vec of a path", to_vec(&p), "InvalidPath", path, &t, c),
		1 => verdict("to_vec of an optional path", to_vec(&Some(p)), "InvalidPath", path, &t, c),
		2 => verdict("to_vec of paths", to_vec(&vec![PathBuf::new(), p]), "InvalidPath", path, &t, c),
		3 => verdict("to_vec of a result", to_vec(&Err::<u8, _>(p)), "InvalidPath", path, &t, c),
		4 => verdict("to_vec of a struct", to_vec(&of_path::Opt { a: 1, x: PathBuf::new(), y: vec![p] }), "InvalidPath", path, &t, c),
		5 => verdict("to_vec of a struct", to_vec(&of_path::Ix { a: 1, x: PathBuf::new(), y: [(1, p)].into() }), "InvalidPath", path, &t, c),
		6 => verdict("to_vec of an enum", to_vec(&of_path::OptWay::A(1, p)), "InvalidPath", path, &t, c),
		_ => {
			verdict("to_vec of a time before the epoch", to_vec(&old), "Serialize", time, &t, c)?;
			verdict("to_vec of times", to_vec(&[(1u8, old)].into_iter().collect::<BTreeMap<_, _>>()), "Serialize", time, &t, c)
		}
	}
}

/// These report whatever their own library reports as a message.
fn foreign(name: &str) -> bool {
	name.contains("roaring")
}

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	macro_rules! add {
		($($t:ty);* $(;)?) => { $(
			if !foreign(std::any::type_name::<$t>()) {
				cs.add(format!("faults {}", tname::<$t>()), 0.5, errors::faults::<$t>);
				cs.add(format!("agree {}", tname::<$t>()), 0.3, errors::agree::<$t>);
			}
		)* };
	}
	{
		builtin_types!(add);
		subjects::indexed_types!(add);
	}
	macro_rules! leaves {
		($($t:ty),*) => { $(
			cs.add(format!("invalid {}", tname::<$t>()), 3.0, places::<$t>);
			cs.add(format!("invalid elements {}", tname::<$t>()), 2.0, keys::<$t>);
		)* };
	}
	leaves!(bool, char, String, Box<str>, Arc<str>, PathBuf, Option<u8>, Result<u8, i8>, Duration, SystemTime, Rev, Var, Tag, Conv, Packed, plain::New, packed::New);
	if !FIXED {
		leaves!(u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);
	}
	#[cfg(feature = "third")]
	{
		leaves!(subjects::ext::NaiveDate, third::F);
		cs.add("invalid Regex", 2.0, places::<subjects::ext::Regex>);
	}
	declared_cases(&mut cs);
	cs.add("faulty indexed map", 8.0, faulty_map);
	cs.add("faulty indexed sequence", 5.0, faulty_seq);
	cs.add("faulty indexed struct", 5.0, faulty_struct);
	cs.add("unwritable", 3.0, unwritable);
	cs.add("a reader whose rest grows", 2.0, contract);
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C21", |_| cases())
}

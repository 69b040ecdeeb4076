//! Reference decoders of the documented format: what any bytes denote.

use crate::FIXED;
use crate::derive::Size;
use crate::refenc::THRESHOLD;

pub enum Stop {
	/// No value has this encoding.
	Bad,
	/// The documentation does not say.
	Unknown,
}
pub use Stop::*;
pub type Got<T> = Result<T, Stop>;

pub fn take<'a>(b: &mut &'a [u8], n: usize) -> Got<&'a [u8]> {
	if n > b.len() {
		return Err(Bad);
	}
	let (x, rest) = b.split_at(n);
	*b = rest;
	Ok(x)
}

pub fn byte(b: &mut &[u8]) -> Got<u8> {
	Ok(take(b, 1)?[0])
}

fn le(x: &[u8]) -> u128 {
	x.iter().rev().fold(0, |a, b| a << 8 | *b as u128)
}

/// Always variable-length.
pub fn varint(b: &mut &[u8], width: usize) -> Got<u128> {
	let n = match byte(b)? {
		v @ 0..=250 => return Ok(v as u128),
		251 => 2,
		252 => 4,
		253 => 8,
		254 => 16,
		255 => return Err(Bad),
	};
	let wide = n == 16 && width < 16;
	let v = match take(b, n) {
		Ok(x) => le(x),
		Err(_) => return Err(Bad),
	};
	if width < 16 && v >> (8 * width) != 0 {
		return Err(Bad);
	}
	// refused, whatever the value; that it might fit makes it moot
	if wide { Err(Unknown) } else { Ok(v) }
}

/// Unsigned integer of the given byte width (2, 4, 8 or 16).
pub fn uint(b: &mut &[u8], width: usize) -> Got<u128> {
	if FIXED { Ok(le(take(b, width)?)) } else { varint(b, width) }
}

pub fn unzigzag(v: u128) -> i128 {
	if v & 1 == 0 { (v >> 1) as i128 } else { -((v >> 1) as i128) - 1 }
}

pub fn sint(b: &mut &[u8], width: usize) -> Got<i128> {
	Ok(unzigzag(uint(b, width)?))
}

pub fn len(b: &mut &[u8]) -> Got<usize> {
	Ok(uint(b, 8)? as usize)
}

pub fn bytes<'a>(b: &mut &'a [u8]) -> Got<&'a [u8]> {
	let n = len(b)?;
	take(b, n)
}

pub fn text<'a>(b: &mut &'a [u8]) -> Got<&'a str> {
	str::from_utf8(bytes(b)?).map_err(|_| Bad)
}

pub fn char_(b: &mut &[u8]) -> Got<char> {
	for n in 1..=b.len().min(4) {
		if let Ok(t) = str::from_utf8(&b[..n]) {
			*b = &b[n..];
			return Ok(t.chars().next().unwrap());
		}
	}
	Err(Bad)
}

/// A number of elements, one after another.
pub fn items<T>(b: &mut &[u8], mut one: impl FnMut(&mut &[u8]) -> Got<T>, mut add: impl FnMut(T) -> Got<()>) -> Got<()> {
	for _ in 0..len(b)? {
		add(one(b)?)?;
	}
	Ok(())
}

pub fn list<T>(b: &mut &[u8], one: impl FnMut(&mut &[u8]) -> Got<T>) -> Got<Vec<T>> {
	let mut v = Vec::new();
	items(b, one, |x| {
		v.push(x);
		Ok(())
	})?;
	Ok(v)
}

/// Elements of `n` bytes each, back to back behind their number.
pub fn bulk<const N: usize, T>(b: &mut &[u8], one: impl Fn([u8; N]) -> T) -> Got<Vec<T>> {
	let n = len(b)?;
	let x = take(b, n.checked_mul(N).ok_or(Bad)?)?;
	Ok(x.chunks(N).map(|c| one(c.try_into().unwrap())).collect())
}

/// Bits, from the lowest of the first byte on. Those behind the last are not
/// looked at.
pub fn bits(b: &mut &[u8]) -> Got<Vec<bool>> {
	let n = len(b)?;
	let x = take(b, n.div_ceil(8))?;
	Ok((0..n).map(|i| x[i / 8] >> (i % 8) & 1 == 1).collect())
}

// ---------------------------------------------------------------- derived

/// The revision number in front. Others than the declaration's own are either
/// earlier ones or, if it is not the `latest`, later ones.
pub fn head(b: &mut &[u8], rev: u16, latest: bool) -> Got<()> {
	match uint(b, 2)? as u16 {
		x if x == rev => Ok(()),
		0 => Err(Bad),
		x if latest && x > rev => Err(Bad),
		_ => Err(Unknown),
	}
}

/// Discriminant and size class of an optimised variant.
pub fn tag(b: &mut &[u8]) -> Got<(u8, Size)> {
	let t = byte(b)?;
	let size = match t >> 5 {
		0 => Size::Inline,
		1 => Size::Fixed,
		2 => Size::Varlen,
		_ => return Err(Bad),
	};
	Ok((t & 31, size))
}

fn le32(b: &mut &[u8]) -> Got<usize> {
	Ok(le(take(b, 4)?) as usize)
}

pub fn envelope<'a>(b: &mut &'a [u8]) -> Got<&'a [u8]> {
	let n = le32(b)?;
	take(b, n)
}

/// Nothing is said about bytes behind the last field.
pub fn end(e: &[u8]) -> Got<()> {
	if e.is_empty() { Ok(()) } else { Err(Unknown) }
}

/// Nothing is said about fields in other places than an encoder puts them.
pub fn starts(whole: &[u8], e: &[u8], k: usize) -> Got<()> {
	let at = le(&whole[4 * k..4 * k + 4]) as usize;
	if at == whole.len() - e.len() { Ok(()) } else { Err(Unknown) }
}

/// Flag and number of an indexed collection. Nothing is said about numbers
/// that go with the other flag, nor about other flags.
fn indexed(b: &mut &[u8]) -> Got<(bool, usize)> {
	let flag = byte(b)?;
	let n = varint(b, 8)? as usize;
	match flag {
		0 if n < THRESHOLD => Ok((false, n)),
		1 if n >= THRESHOLD => Ok((true, n)),
		_ => Err(Unknown),
	}
}

/// `n` pieces one after another, each where `at` says, which is its number to
/// its offset. Nothing is said about pieces elsewhere.
fn pieces<'a, T>(
	b: &mut &'a [u8],
	n: usize,
	at: impl Fn(usize) -> Option<usize>,
	one: impl Fn(&mut &[u8]) -> Got<T>,
) -> Got<Vec<(&'a [u8], T)>> {
	let all = *b;
	let mut v = Vec::new();
	for i in 0..=n {
		let from = all.len() - b.len();
		if at(i).is_some_and(|x| x != from) {
			return Err(Unknown);
		}
		if i < n {
			let x = one(b)?;
			v.push((&all[from..all.len() - b.len()], x));
		}
	}
	Ok(v)
}

fn ascending<T>(v: &[(&[u8], T)]) -> Got<()> {
	if v.windows(2).all(|w| w[0].0 < w[1].0) { Ok(()) } else { Err(Unknown) }
}

pub fn indexed_map<K, V>(
	b: &mut &[u8],
	key: impl Fn(&mut &[u8]) -> Got<K>,
	value: impl Fn(&mut &[u8]) -> Got<V>,
) -> Got<Vec<(K, V)>> {
	let (flag, n) = indexed(b)?;
	if !flag {
		let mut v = Vec::new();
		for _ in 0..n {
			let from = *b;
			let k = key(b)?;
			v.push((&from[..from.len() - b.len()], (k, value(b)?)));
		}
		ascending(&v)?;
		return Ok(v.into_iter().map(|x| x.1).collect());
	}
	let table = take(b, n.checked_add(1).and_then(|m| m.checked_mul(8)).ok_or(Bad)?)?;
	let at = |i: usize, c: usize| Some(le(&table[8 * i + 4 * c..][..4]) as usize);
	let keys = pieces(b, n, |i| at(i, 0), key)?;
	ascending(&keys)?;
	let values = pieces(b, n, |i| at(i, 1), value)?;
	Ok(keys.into_iter().zip(values).map(|((_, k), (_, v))| (k, v)).collect())
}

pub fn indexed_seq<T>(b: &mut &[u8], sorted: bool, one: impl Fn(&mut &[u8]) -> Got<T>) -> Got<Vec<T>> {
	let (flag, n) = indexed(b)?;
	let table = take(b, if flag { n.checked_mul(4).ok_or(Bad)? } else { 0 })?;
	let at = |i: usize| (flag && i < n).then(|| le(&table[4 * i..][..4]) as usize);
	let v = pieces(b, n, at, one)?;
	if sorted {
		ascending(&v)?;
	}
	Ok(v.into_iter().map(|x| x.1).collect())
}

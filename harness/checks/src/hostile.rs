//! Safe code that breaks its promises: readers and writers that lie about how
//! much they took, look at what they are given or panic, and element types
//! whose decoding, ordering or hashing misbehaves. Only a memory checker can
//! say whether anything went wrong.
use crate::*;
use engine::no_panic;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::hint::black_box;
use std::io::{self, Read, Write};

#[derive(Clone, Copy, Debug)]
enum Habit {
	/// reads the buffer it is to fill
	Looks,
	/// claims to have read or written more than fits
	Overstates(usize),
	/// claims more than it did, within the buffer
	Pretends,
	/// panics at this byte
	Panics(usize),
}

fn habit(s: &mut Src, n: usize) -> Habit {
	match s.below(5) {
		0 => Habit::Looks,
		1 => Habit::Overstates(*s.pick(&[1usize, 2, 8, 4096, usize::MAX >> 1])),
		2 => Habit::Pretends,
		_ => Habit::Panics(s.range(0, n)),
	}
}

struct Odd<'a> {
	data: &'a [u8],
	pos: usize,
	habit: Habit,
	/// how often it behaves before it does not
	calm: usize,
	seen: u64,
}

impl Odd<'_> {
	fn look(&mut self, b: &[u8]) {
		for x in b {
			if *x > 127 {
				self.seen += 1;
			}
		}
	}
	fn claim(&mut self, took: usize, room: usize) -> usize {
		if self.calm > 0 {
			self.calm -= 1;
			return took;
		}
		match self.habit {
			Habit::Overstates(k) => room.saturating_add(k),
			Habit::Pretends => room,
			_ => took,
		}
	}
}

impl Read for Odd<'_> {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		self.look(buf);
		let mut n = buf.len().min(self.data.len() - self.pos);
		if let Habit::Panics(at) = self.habit {
			if self.pos >= at {
				panic!("reader gives up");
			}
			n = n.min(at - self.pos);
		}
		buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
		self.pos += n;
		Ok(self.claim(n, buf.len()))
	}
}

impl Write for Odd<'_> {
	fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
		self.look(buf);
		self.pos += buf.len();
		if let Habit::Panics(at) = self.habit {
			if self.pos > at {
				panic!("writer gives up");
			}
		}
		Ok(self.claim(buf.len(), buf.len()))
	}
	fn flush(&mut self) -> io::Result<()> {
		Ok(())
	}
}

pub fn streams<T: Subject>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 1);
	let b = v.enc();
	let h = habit(s, b.len());
	let odd = |calm: usize| Odd {
		data: &b,
		pos: 0,
		habit: h,
		calm,
		seen: 0,
	};
	c.key(&b);
	c.nontrivial = b.len() >= 2;
	c.label(match h {
		Habit::Looks => "looks at the buffer",
		Habit::Overstates(_) => "overstates",
		Habit::Pretends => "pretends",
		Habit::Panics(_) => "panics",
	});
	c.sample(|| format!("{} through a stream that {h:?}", v.show()));
	let calm = s.below(4);
	c.evals += 4;
	// What is decoded is used, so that anything uninitialised in it is seen.
	let _ = black_box(no_panic(|| T::deserialize_revisioned(&mut odd(calm)).map(|v| v.enc().len())));
	let _ = black_box(no_panic(|| T::skip_revisioned(&mut odd(calm))));
	let _ = black_box(no_panic(|| T::skip_check_revisioned(&mut odd(calm))));
	let mut w = odd(calm);
	let _ = black_box(no_panic(|| v.serialize_revisioned(&mut w)));
	black_box(w.seen);
	Ok(())
}

thread_local! {
	static FUSE: Cell<u32> = const { Cell::new(u32::MAX) };
	static MOOD: Cell<u64> = const { Cell::new(0) };
}

fn mood() -> u64 {
	MOOD.with(|m| {
		let v = m.get();
		if v != 0 {
			m.set(engine::mix(v) | 1);
		}
		v
	})
}

/// An element that owns memory, and misbehaves when told to.
#[derive(Debug, Clone)]
pub struct Bomb(Box<u8>);

impl Revisioned for Bomb {
	fn revision() -> u16 {
		1
	}
}
impl SerializeRevisioned for Bomb {
	fn serialize_revisioned<W: Write>(&self, w: &mut W) -> Result<(), Error> {
		(*self.0).serialize_revisioned(w)
	}
}
impl DeserializeRevisioned for Bomb {
	fn deserialize_revisioned<R: Read>(r: &mut R) -> Result<Self, Error> {
		let left = FUSE.with(|f| {
			let v = f.get();
			f.set(v.saturating_sub(1));
			v
		});
		if left == 0 {
			panic!("element gives up");
		}
		Ok(Bomb(Box::new(u8::deserialize_revisioned(r)?)))
	}
}
impl PartialEq for Bomb {
	fn eq(&self, o: &Self) -> bool {
		self.cmp(o).is_eq()
	}
}
impl Eq for Bomb {}
impl PartialOrd for Bomb {
	fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for Bomb {
	fn cmp(&self, o: &Self) -> std::cmp::Ordering {
		match mood() >> 60 {
			1..=2 => std::cmp::Ordering::Less,
			3..=4 => std::cmp::Ordering::Greater,
			5 => panic!("comparison gives up"),
			_ => self.0.cmp(&o.0),
		}
	}
}
impl std::hash::Hash for Bomb {
	fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
		match mood() >> 60 {
			1..=3 => h.write_u64(mood()),
			5 => panic!("hashing gives up"),
			_ => self.0.hash(h),
		}
	}
}

fn bomb<T: DeserializeRevisioned + SerializeRevisioned>(b: &[u8]) {
	let _ = black_box(no_panic(|| {
		let v = T::deserialize_revisioned(&mut &*b);
		if let Ok(v) = &v {
			FUSE.with(|f| f.set(u32::MAX));
			let mut o = Vec::new();
			let _ = v.serialize_revisioned(&mut o);
			black_box(o);
		}
	}));
}

pub fn elements(s: &mut Src, c: &mut Ctx) -> Res {
	// a count, and elements for every shape
	let n = s.range(0, 9);
	let mut b = vec![n as u8];
	b.extend((0..4 * n + 12).map(|_| s.draw(250) as u8));
	let cut = s.chance(1, 4).then(|| s.range(0, b.len()));
	b.truncate(cut.unwrap_or(b.len()));
	FUSE.with(|f| f.set(if s.bool() { s.range(0, 10) as u32 } else { u32::MAX }));
	c.key(&b);
	c.nontrivial = n >= 2;
	let which = s.below(18);
	// the standard collections are safe under any ordering; others may not be
	MOOD.with(|m| m.set(if which < 14 && s.bool() { s.draw(u64::MAX) | 1 } else { 0 }));
	let what = [
		"Vec", "result", "pair", "triple", "map", "set", "heap", "hash map", "hash set", "option", "box", "vec of vec", "vec of pairs",
		"map of vec", "imbl vector", "imbl map", "imbl set", "imbl hash map",
	][which];
	c.sample(|| format!("{what} of elements that misbehave, from {}", hex(&b)));
	match which {
		0 => bomb::<Vec<Bomb>>(&b),
		1 => bomb::<Result<Bomb, Bomb>>(&b),
		2 => bomb::<(Bomb, Bomb)>(&b),
		3 => bomb::<(Bomb, String, Bomb)>(&b),
		4 => bomb::<BTreeMap<Bomb, Bomb>>(&b),
		5 => bomb::<BTreeSet<Bomb>>(&b),
		6 => bomb::<BinaryHeap<Bomb>>(&b),
		7 => bomb::<HashMap<Bomb, Bomb>>(&b),
		8 => bomb::<HashSet<Bomb>>(&b),
		9 => bomb::<Option<Bomb>>(&b),
		10 => bomb::<Box<Bomb>>(&b),
		11 => bomb::<Vec<Vec<Bomb>>>(&b),
		12 => bomb::<Vec<(Bomb, Bomb)>>(&b),
		13 => bomb::<BTreeMap<Bomb, Vec<Bomb>>>(&b),
		#[cfg(feature = "third")]
		14 => bomb::<subjects::ext::Vector<Bomb>>(&b),
		#[cfg(feature = "third")]
		15 => bomb::<subjects::ext::OrdMap<Bomb, Bomb>>(&b),
		#[cfg(feature = "third")]
		16 => bomb::<subjects::ext::OrdSet<Bomb>>(&b),
		#[cfg(feature = "third")]
		_ => bomb::<subjects::ext::IHashMap<Bomb, Bomb>>(&b),
		#[cfg(not(feature = "third"))]
		_ => {}
	}
	FUSE.with(|f| f.set(u32::MAX));
	MOOD.with(|m| m.set(0));
	Ok(())
}

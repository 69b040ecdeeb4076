//! Checks over generated declarations.
use crate::*;
use subjects::refdec::Stop;
use engine::{Risky, risky};
use generic::all_skips;
use subjects::derive::{Form, Instance, Migrate, Size};
use subjects::walkers::{Cx, Drive, root};

/// Module and type, without the crate.
pub fn iname<T>() -> String {
	tname::<T>().replace("derived::", "")
}

// ---------------------------------------------------------------- C02

pub fn header<T: Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 0);
	ensure!(T::revision() == T::REV, "{} reports revision {} instead of {}", iname::<T>(), T::revision(), T::REV);
	let Ok(b) = revision::to_vec(&v) else { fail!("to_vec({}) failed", v.show()) };
	c.key(&b);
	c.nontrivial = b.len() >= 4;
	c.sample(|| format!("{} -> {}", v.show(), hex(&b)));
	let mut head = Vec::new();
	refenc::uint(T::REV as u128, 2, &mut head);
	ensure!(b.starts_with(&head), "{} at revision {} encodes as {}", v.show(), T::REV, hex(&b));
	let mut r: &[u8] = &b;
	match revision::from_reader::<_, u16>(&mut r) {
		Ok(x) => ensure!(x == T::REV, "{} starts with revision {x}", hex(&b)),
		Err(e) => fail!("the revision of {} does not decode: {e}", hex(&b)),
	}
	c.evals = 3;
	Ok(())
}

// ---------------------------------------------------------------- old bytes

/// A value as declared then, its bytes, and what it is now.
fn old<O: Instance + Migrate<L>, L: Instance>(
	s: &mut Src,
	c: &mut Ctx,
) -> Result<(O, Vec<u8>, Result<L, String>), Fail> {
	let o = O::gen_(s, 0);
	let b = match revision::to_vec(&o) {
		Ok(b) => b,
		Err(e) => fail!("to_vec({}) at revision {} failed: {e}", o.show(), O::REV),
	};
	let m = o.migrate();
	c.key(&b);
	c.nontrivial = b.len() >= 3;
	c.label_if(m.is_err(), "refused by a conversion");
	c.label_if(O::REV == L::REV, "only nested types are older");
	Ok((o, b, m))
}

pub fn migrates<O: Instance + Migrate<L>, L: Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let (o, b, m) = old::<O, L>(s, c)?;
	let junk = tail(s);
	let mut buf = b.clone();
	buf.extend(&junk);
	c.sample(|| format!("{} r{} -> {} -> {}", o.show(), O::REV, hex(&b), m.as_ref().map(|v| v.show()).unwrap_or_default()));
	c.evals = 1;
	let mut r: &[u8] = &buf;
	let got = L::deserialize_revisioned(&mut r);
	match (&m, got) {
		(Ok(want), Ok(got)) => {
			ensure!(
				want.same(&got),
				"{} of revision {} ({}) decodes at revision {} to {} instead of {}",
				o.show(),
				O::REV,
				hex(&b),
				L::REV,
				got.show(),
				want.show()
			);
			ensure!(
				r == &junk[..],
				"decoding {} at revision {} consumed {} of {} bytes",
				hex(&b),
				L::REV,
				buf.len() - r.len(),
				b.len()
			);
			// a migrated value is as good as any
			match revision::to_vec(&got).and_then(|x| revision::from_slice::<L>(&x)) {
				Ok(again) => ensure!(want.same(&again), "{} does not survive another round: {}", want.show(), again.show()),
				Err(e) => fail!("{} does not survive another round: {e}", want.show()),
			}
		}
		(Err(_), Err(_)) => {}
		(Ok(_), Err(e)) => {
			fail!("{} of revision {} ({}) fails to decode at revision {}: {e}", o.show(), O::REV, hex(&b), L::REV)
		}
		(Err(e), Ok(got)) => {
			fail!("{} of revision {} decodes to {} though a conversion fails: {e}", o.show(), O::REV, got.show())
		}
	}
	Ok(())
}

/// The same through containers.
pub fn migrates_in<O: Instance + Migrate<L>, L: Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let n = s.below(4);
	let o: (Vec<O>, Option<Box<O>>) = ((0..n).map(|_| O::gen_(s, 1)).collect(), if s.bool() { Some(Box::new(O::gen_(s, 1))) } else { None });
	let b = match revision::to_vec(&o) {
		Ok(b) => b,
		Err(e) => fail!("to_vec({}) failed: {e}", o.show()),
	};
	c.key(&b);
	c.nontrivial = n > 0 && b.len() >= 4;
	c.evals = 1;
	let mut r: &[u8] = &b;
	let got = <(Vec<L>, Option<Box<L>>)>::deserialize_revisioned(&mut r);
	match (o.migrate(), got) {
		(Ok(want), Ok(got)) => {
			let want: (Vec<L>, Option<Box<L>>) = want;
			ensure!(want.same(&got), "{} ({}) decodes to {} instead of {}", o.show(), hex(&b), got.show(), want.show());
			ensure!(r.is_empty(), "decoding {} leaves {} bytes", hex(&b), r.len());
		}
		(Err(_), Err(_)) => {}
		(Ok(_), Err(e)) => fail!("{} ({}) fails to decode: {e}", o.show(), hex(&b)),
		(Err(e), Ok(got)) => fail!("{} decodes to {} though a conversion fails: {e}", o.show(), got.show()),
	}
	Ok(())
}

/// A revision the declaration does not know.
pub fn bad_revision<T: Drive + Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 1);
	let b = v.enc();
	let mut head = Vec::new();
	refenc::uint(T::REV as u128, 2, &mut head);
	let rev = match s.below(4) {
		0 => 0,
		1 => T::REV + 1,
		2 => u16::MAX,
		_ => s.range(T::REV as usize + 1, 65535) as u16,
	};
	let mut x = Vec::new();
	refenc::uint(rev as u128, 2, &mut x);
	x.extend(&b[head.len()..]);
	c.key(&x);
	c.nontrivial = true;
	c.sample(|| format!("{} of revision {} marked {rev}: {}", v.show(), T::REV, hex(&x)));
	let mut r: &[u8] = &x;
	match risky(|| T::deserialize_revisioned(&mut r).map(|v| v.show())) {
		Risky::Done(Ok(g)) => fail!("revision {rev} of {} latest revision {}: {} decodes to {g}", iname::<T>(), T::REV, hex(&x)),
		Risky::Panic(m) => fail!("decoding revision {rev} of {} panicked: {m}", iname::<T>()),
		_ => {}
	}
	c.evals = 1;
	match risky(|| all_skips::<T>(&x, false)) {
		Risky::Done(os) => {
			for (name, o) in os {
				c.evals += 1;
				if o.is_ok() {
					fail!("{name} accepts revision {rev} of {}: {}", iname::<T>(), hex(&x));
				}
			}
		}
		Risky::Panic(m) => fail!("skipping revision {rev} of {} panicked: {m}", iname::<T>()),
		Risky::Oversize => {}
	}
	let w = no_panic(|| {
		let mut r = SliceReader::new(&x);
		T::walk_revisioned(&mut r).is_ok()
	});
	c.evals += 1;
	match w {
		Ok(false) => Ok(()),
		Ok(true) => fail!("walking accepts revision {rev} of {}: {}", iname::<T>(), hex(&x)),
		Err(m) => fail!("walking revision {rev} of {} panicked: {m}", iname::<T>()),
	}
}

// ---------------------------------------------------------------- C04

pub fn skips_old<O: Instance + Migrate<L>, L: Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let (o, b, m) = old::<O, L>(s, c)?;
	let end = b.len();
	let mut buf = b;
	buf.extend(tail(s));
	c.sample(|| format!("{} r{} -> {}", o.show(), O::REV, hex(&buf[..end])));
	if m.is_err() {
		return Ok(());
	}
	generic::skip_valid::<L>(&buf, end, &format!("{} of revision {} under {}", o.show(), O::REV, L::REV), c)
}

/// With integers in wider forms than needed.
pub fn wide_old<O: Instance + Migrate<L>, L: Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let o = O::gen_(s, 0);
	match o.migrate() {
		Ok(v) => generic::wide_of(&o, &v, s, c),
		Err(_) => Ok(()),
	}
}

pub fn skip_check_old<O: Instance + Migrate<L>, L: Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let (_, b, _) = old::<O, L>(s, c)?;
	// a conversion that refuses a value is none of a skip's business
	if L::ERRS { Ok(()) } else { generic::skip_check_corrupt::<L>(&b, s, c) }
}

pub fn skip_check_latest<T: Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	if T::ERRS { Ok(()) } else { generic::skip_corrupt::<T>(s, c) }
}

// ---------------------------------------------------------------- C05

fn finish<T: Drive>(v: &T, b: &[u8], at: usize, mut cx: Cx, misuse: bool, s: &mut Src, c: &mut Ctx) -> Res {
	let mut r = SliceReader::new(b);
	let x = root(v, &mut r, s, &mut cx);
	for l in &cx.log {
		c.key(l.as_bytes());
	}
	c.evals = cx.evals;
	c.nontrivial = if misuse { cx.refused > 0 } else { cx.evals + cx.descents + cx.log.len() as u64 >= 3 };
	c.label_if(cx.descents > 0, "descended");
	c.label_if(cx.refused > 0, "refused requests");
	c.label_if(cx.stop.is_some(), "ended early");
	c.label_if(cx.log.iter().any(|l| l.contains("_bytes")), "bytes of a field");
	c.label_if(cx.log.iter().any(|l| l.contains("_view")), "view of a variant");
	let log = cx.log.join(", ");
	c.sample(|| format!("{}: {log}", v.show()));
	if cx.frugal {
		return walks::thrift(&cx, c);
	}
	x?;
	let want = cx.stop.unwrap_or(at);
	ensure!(r.position() == want, "the reader stands at {} instead of {want} | {}", r.position(), cx.trace());
	Ok(())
}

/// Walk the bytes of a value of the latest revision.
pub fn walk_latest<T: Drive + Instance>(misuse: bool, s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 0);
	let (mut b, bounds) = v.bounds();
	let end = b.len();
	c.key(&b);
	b.extend(tail(s));
	let mut cx = Cx::new(&b, misuse);
	cx.bounds = bounds;
	finish(&v, &b, end, cx, misuse, s, c)
}

/// The same walks, watched for allocations only.
pub fn walk_frugal<T: Drive + Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 0);
	let (b, bounds) = v.bounds();
	c.key(&b);
	let mut cx = Cx::new(&b, false);
	cx.bounds = bounds;
	cx.frugal = true;
	finish(&v, &b, b.len(), cx, false, s, c)
}
pub fn walk_old_frugal<O: Instance + Migrate<L>, L: Drive + Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let o = O::gen_(s, 0);
	let (b, bounds) = o.bounds();
	c.key(&b);
	let Ok(v) = o.migrate() else {
		c.label("refused by a conversion");
		return Ok(());
	};
	let mut cx = Cx::new(&b, false);
	cx.bounds = bounds;
	cx.revs = O::REVS.to_vec();
	cx.frugal = true;
	finish(&v, &b, b.len(), cx, false, s, c)
}

pub fn tables<T: Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let _ = s;
	c.evals = 1;
	c.nontrivial = true;
	c.key(iname::<T>().as_bytes());
	if let Err(e) = T::tables() {
		fail!("{}: {e}", iname::<T>());
	}
	Ok(())
}

/// Walk the bytes of an older revision.
pub fn walk_old<O: Instance + Migrate<L>, L: Drive + Instance>(misuse: bool, s: &mut Src, c: &mut Ctx) -> Res {
	let o = O::gen_(s, 0);
	let (mut b, bounds) = o.bounds();
	let end = b.len();
	c.key(&b);
	let v = match o.migrate() {
		Ok(v) => v,
		Err(_) => {
			c.label("refused by a conversion");
			return Ok(());
		}
	};
	b.extend(tail(s));
	let mut cx = Cx::new(&b, misuse);
	cx.bounds = bounds;
	cx.revs = O::REVS.to_vec();
	finish(&v, &b, end, cx, misuse, s, c)
}

/// Walk containers of older values.
pub fn walk_old_in<O: Instance + Migrate<L>, L: Drive + Instance>(misuse: bool, s: &mut Src, c: &mut Ctx) -> Res {
	let n = s.below(4);
	let o: Vec<Option<O>> = (0..n).map(|_| if s.chance(4, 5) { Some(O::gen_(s, 1)) } else { None }).collect();
	let b = o.enc();
	c.key(&b);
	let v: Vec<Option<L>> = match o.migrate() {
		Ok(v) => v,
		Err(_) => {
			c.label("refused by a conversion");
			return Ok(());
		}
	};
	let mut cx = Cx::new(&b, misuse);
	cx.revs = O::REVS.to_vec();
	let end = b.len();
	finish(&v, &b, end, cx, misuse, s, c)
}

// ---------------------------------------------------------------- C09

pub fn prefix_old<O: Instance + Migrate<L>, L: Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let (o, b, _) = old::<O, L>(s, c)?;
	c.sample(|| format!("{} r{} -> prefixes of {}", o.show(), O::REV, hex(&b)));
	generic::prefixes::<L>(&b, &format!("{} of revision {}", o.show(), O::REV), s, c)
}

pub fn corrupted_old<O: Instance + Migrate<L>, L: Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let (o, old, _) = old::<O, L>(s, c)?;
	let mut b = old.clone();
	generic::corrupt(s, &mut b);
	c.key(&b);
	c.nontrivial = b != old;
	c.sample(|| format!("{} r{} corrupted to {}", o.show(), O::REV, hex(&b)));
	let read = |b: &mut &[u8]| {
		let at = *b;
		match O::read(b) {
			Ok(o) => o.migrate().map_err(|_| Stop::Bad),
			Err(Stop::Bad) => Err(Stop::Bad),
			// perhaps corrupted to another revision
			Err(Stop::Unknown) => {
				*b = at;
				L::read(b)
			}
		}
	};
	generic::accepted_is_stable(&b, read, false, c)
}

/// Walk corrupted bytes of an older revision.
pub fn walk_corrupted_old<O: Instance + Migrate<L>, L: Drive + Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let (o, old, m) = old::<O, L>(s, c)?;
	let Ok(v) = m else {
		c.label("refused by a conversion");
		return Ok(());
	};
	let mut b = old.clone();
	generic::corrupt(s, &mut b);
	c.key(&b);
	c.nontrivial = b != old;
	c.sample(|| format!("{} r{} corrupted to {} and walked", o.show(), O::REV, hex(&b)));
	walks::astray(&v, &b, O::REVS, &[], s, c)
}

// ---------------------------------------------------------------- C11

pub fn chunked_old<O: Instance + Migrate<L>, L: Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let (o, b, m) = old::<O, L>(s, c)?;
	if m.is_err() {
		return Ok(());
	}
	let plan = io::Plan { pieces: io::gen_pieces(s), fault: io::Fault::None };
	let bad = io::Plan { pieces: io::gen_pieces(s), fault: io::gen_fault(s, b.len()) };
	io::chunked_bytes::<L>(&b, &format!("{} of revision {}", o.show(), O::REV), &plan, &bad, s, c)
}

// ---------------------------------------------------------------- C15

/// Everything that has to agree with the layout of an overridden field.
pub fn overridden<T: Drive + Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 0);
	let (b, bounds) = v.bounds();
	let end = b.len();
	c.key(&b);
	c.nontrivial = end >= 4;
	c.label(len_label(end));
	c.sample(|| format!("{} -> {}", v.show(), hex(&b)));
	let got = match revision::to_vec(&v) {
		Ok(g) => g,
		Err(e) => fail!("to_vec({}) failed: {e}", v.show()),
	};
	ensure!(got == b, "{} encodes as {} instead of {}", v.show(), hex(&got), hex(&b));
	let mut buf = b.clone();
	buf.extend(tail(s));
	let mut r: &[u8] = &buf;
	match T::deserialize_revisioned(&mut r) {
		Ok(g) => ensure!(
			v.same(&g) && buf.len() - r.len() == end,
			"{} decodes from {} as {}, consuming {} of {end} bytes",
			v.show(),
			hex(&b),
			g.show(),
			buf.len() - r.len()
		),
		Err(e) => fail!("{} fails to decode from {}: {e}", v.show(), hex(&b)),
	}
	generic::skip_valid::<T>(&buf, end, &v.show(), c)?;
	let mut cx = Cx::new(&buf, false);
	cx.bounds = bounds;
	let mut r = SliceReader::new(&buf);
	root(&v, &mut r, s, &mut cx)?;
	c.evals += 2 + cx.evals;
	let want = cx.stop.unwrap_or(end);
	ensure!(r.position() == want, "the reader stands at {} instead of {want} | {}", r.position(), cx.trace());
	Ok(())
}

pub fn overridden_old<O: Instance + Migrate<L>, L: Drive + Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let o = O::gen_(s, 0);
	let (b, _) = o.bounds();
	match revision::to_vec(&o) {
		Ok(got) => ensure!(got == b, "{} encodes as {} instead of {}", o.show(), hex(&got), hex(&b)),
		Err(e) => fail!("to_vec({}) failed: {e}", o.show()),
	}
	match s.below(3) {
		0 => migrates::<O, L>(s, c),
		1 => skips_old::<O, L>(s, c),
		_ => walk_old::<O, L>(false, s, c),
	}
}

// ---------------------------------------------------------------- C16

/// One enum's tags at the revision `rev`, whose bytes are made by hand.
fn tag_at<T: Drive + Instance>(rev: u16, table: &[(u32, Size, usize)], tag: u8, s: &mut Src, c: &mut Ctx) -> Res {
	let class = tag >> 5;
	let id = (tag & 31) as u32;
	let hit = table.iter().find(|t| {
		t.0 == id
			&& class
				== match t.1 {
					Size::Inline => 0,
					Size::Fixed => 1,
					Size::Varlen => 2,
				}
	});
	let mut b = Vec::new();
	refenc::uint(rev as u128, 2, &mut b);
	b.push(tag);
	let head = b.len();
	// how many bytes the tag announces
	let body = match class {
		0 => 0,
		1 => hit.map(|h| h.2).unwrap_or_else(|| s.below(9)),
		_ => {
			let n = s.below(24);
			b.extend((n as u32).to_le_bytes());
			n
		}
	};
	// a body that may or may not mean anything
	for _ in 0..body {
		b.push(s.draw(3) as u8);
	}
	let end = b.len();
	b.extend(s.bytes(12));
	c.key(&b);
	c.nontrivial = true;
	c.label(match (class, hit.is_some()) {
		(3.., _) => "reserved size class",
		(_, false) => "unknown variant or another size class",
		(0, true) => "inline",
		(1, true) => "fixed",
		_ => "varlen",
	});
	let what = format!("tag {tag:#04x} of revision {rev} of {}: {}", iname::<T>(), hex(&b));
	c.sample(|| what.clone());
	// skipping
	let os = match risky(|| all_skips::<T>(&b, false)) {
		Risky::Done(o) => o,
		Risky::Oversize => return Ok(()),
		Risky::Panic(m) => fail!("skipping panicked: {m}: {what}"),
	};
	let mut r: &[u8] = &b;
	let dec = match risky(|| T::deserialize_revisioned(&mut r)) {
		Risky::Done(d) => d,
		Risky::Oversize => return Ok(()),
		Risky::Panic(m) => fail!("decoding panicked: {m}: {what}"),
	};
	let used = b.len() - r.len();
	c.evals += 2 + os.len() as u64;
	for (name, o) in os {
		let check = name.contains("check");
		match (hit, o) {
			(None, Ok(_)) => fail!("{name} accepts {what}"),
			(None, Err(e)) => {
				if class > 2 {
					ensure!(matches!(e, Error::InvalidOptimisedTag(_)), "{name} fails with {e} instead of an invalid tag: {what}");
				}
			}
			(Some(_), Ok(n)) => ensure!(n == end, "{name} moves {n} instead of {end} bytes: {what}"),
			// only validation may look into the body
			(Some(_), Err(e)) => ensure!(check && dec.is_err(), "{name} rejects {what}: {e}"),
		}
	}
	match (hit, &dec) {
		(None, Ok(v)) => fail!("decodes to {}: {what}", v.show()),
		(None, Err(e)) => {
			if class > 2 {
				ensure!(matches!(e, Error::InvalidOptimisedTag(_)), "decoding fails with {e} instead of an invalid tag: {what}");
			}
		}
		(Some(_), Ok(v)) => ensure!(used == end, "decoding to {} moves {used} instead of {end} bytes: {what}", v.show()),
		(Some(h), Err(e)) => ensure!(
			h.1 == Size::Varlen || h.2 > 0 || !T::TAGS.is_empty() && T::ERRS,
			"fails to decode: {e}: {what}"
		),
	}
	let _ = head;
	// walking
	let w = no_panic(|| {
		let mut r = SliceReader::new(&b);
		let ok = T::walk_revisioned(&mut r).map(|_| ());
		(ok, r.position())
	});
	match w {
		Err(m) => fail!("walking panicked: {m}: {what}"),
		Ok((Ok(()), at)) => {
			ensure!(hit.is_some(), "walking accepts {what}");
			ensure!(at == end, "walking moves {at} instead of {end} bytes: {what}");
		}
		Ok((Err(e), _)) => {
			if hit.is_some() {
				// a migrating walker decodes the value
				ensure!(dec.is_err(), "walking rejects {what}: {e}");
			} else if class > 2 {
				ensure!(matches!(e, Error::InvalidOptimisedTag(_)), "walking fails with {e} instead of an invalid tag: {what}");
			}
		}
	}
	Ok(())
}

pub fn tags<T: Drive + Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let revs: Vec<u16> = (1..=T::REV).filter(|r| T::TAGS[*r as usize - 1].is_some()).collect();
	let rev = *s.pick(&revs);
	let table = T::TAGS[rev as usize - 1].unwrap();
	let tag = match s.below(3) {
		0 => s.draw(255) as u8,
		1 => s.pick(table).0 as u8 | (s.draw(7) as u8) << 5,
		_ => {
			let t = s.pick(table);
			let class = match t.1 {
				Size::Inline => 0u8,
				Size::Fixed => 1,
				Size::Varlen => 2,
			};
			t.0 as u8 | class << 5
		}
	};
	tag_at::<T>(rev, table, tag, s, c)
}

/// All 256 tags of every revision.
pub fn all_tags<T: Drive + Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	for rev in 1..=T::REV {
		if let Some(table) = T::TAGS[rev as usize - 1] {
			for tag in 0..=255 {
				tag_at::<T>(rev, table, tag, s, c)?;
			}
		}
	}
	Ok(())
}

/// The tag of a value's own encoding, and what follows it.
pub fn own_tag<T: Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 0);
	let p = v.parts(false);
	if p.form == Form::Legacy {
		return Ok(());
	}
	let Some((disc, size)) = p.variant else { return Ok(()) };
	let body: usize = p.fields.iter().map(|f| f.len()).sum();
	let b = match revision::to_vec(&v) {
		Ok(b) => b,
		Err(e) => fail!("to_vec({}) failed: {e}", v.show()),
	};
	c.key(&b);
	c.nontrivial = true;
	c.evals = 3;
	c.sample(|| format!("{} -> {}", v.show(), hex(&b)));
	let mut head = Vec::new();
	refenc::uint(T::REV as u128, 2, &mut head);
	match size {
		Size::Inline => {
			head.push(disc as u8);
			ensure!(body == 0, "model");
		}
		Size::Fixed => head.push(disc as u8 | 0x20),
		Size::Varlen => {
			head.push(disc as u8 | 0x40);
			head.extend((body as u32).to_le_bytes());
		}
	}
	ensure!(b.starts_with(&head), "{} encodes as {}, not starting with {}", v.show(), hex(&b), hex(&head));
	ensure!(b.len() == head.len() + body, "{} encodes as {} with {} bytes behind its tag, not {body}", v.show(), hex(&b), b.len() - head.len());
	// a new body keeps the reader on course
	let mut buf = b.clone();
	buf.extend(tail(s));
	generic::skip_valid::<T>(&buf, b.len(), &v.show(), c)?;
	// nothing may be missing
	for cut in head.len()..b.len() {
		c.evals += 1;
		ensure!(T::deserialize_revisioned(&mut &b[..cut]).is_err(), "decoding accepts the first {cut} bytes of {}", hex(&b));
	}
	Ok(())
}

// ---------------------------------------------------------------- C21

/// Faults while an older revision is read.
pub fn faults_old<O: Instance + Migrate<L>, L: Instance>(s: &mut Src, c: &mut Ctx) -> Res {
	let o = O::gen_(s, 0);
	let b = o.enc();
	if let Err(want) = o.migrate() {
		// refused before any fault is met: it has to be the conversion's own word
		c.label("refused by a conversion");
		c.key(&b);
		c.nontrivial = true;
		c.evals += 6;
		let mut of_two = Vec::new();
		refenc::len(2, &mut of_two);
		of_two.extend([b.clone(), b.clone()].concat());
		let of_one = [vec![1], b.clone()].concat();
		let mut r = crate::errors::Broken::new(&b, crate::io::gen_pieces(s), None, 0);
		for (how, r) in [
			("from_slice", revision::from_slice::<L>(&b).map(drop)),
			("from_reader", revision::from_reader::<_, L>(&mut r).map(drop)),
			("skip_check_slice", revision::skip_check_slice::<L>(&b).map(drop)),
			("from_slice of a tuple", revision::from_slice::<(L, u8)>(&b).map(drop)),
			("from_slice of an option", revision::from_slice::<Option<L>>(&of_one).map(drop)),
			("from_slice of a vector", revision::from_slice::<Vec<L>>(&of_two).map(drop)),
		] {
			ensure!(
				matches!(&r, Err(Error::Conversion(m)) if *m == want),
				"{how} of {} ({}) gives {r:?} where a conversion says {want:?}",
				o.show(),
				hex(&b)
			);
		}
		return Ok(());
	}
	crate::errors::faults_in::<L>(&b, &o.show(), s, c)
}

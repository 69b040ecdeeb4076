//! Root of the container walks of C12 and C13.
use crate::*;
use revision::{EnumWalker, LeafWalker, StructWalker};
use subjects::walkers::{Cx, Drive, handle, root};

fn end<R: BorrowedReader>(r: &R, want: usize, cx: &Cx) -> Res {
	ensure!(r.position() == want, "the reader stands at {} instead of {want} | {}", r.position(), cx.trace());
	Ok(())
}

/// What a watched walk came to.
pub fn thrift(cx: &Cx, c: &mut Ctx) -> Res {
	c.evals = cx.metered;
	c.nontrivial = cx.metered > 0;
	c.label_if(cx.metered > 0, "requests watched");
	match &cx.offence {
		Some(o) => Err(Fail::new(o.clone())),
		None => Ok(()),
	}
}

/// Walk a value, watched for allocations only.
pub fn walk_frugal<T: Drive>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 0);
	let b = v.enc();
	let mut cx = Cx::new(&b, false);
	cx.frugal = true;
	let mut r = SliceReader::new(&b);
	let _ = root(&v, &mut r, s, &mut cx);
	c.key(&b);
	for l in &cx.log {
		c.key(l.as_bytes());
	}
	c.label_if(cx.peeks > 0, "peeked");
	c.label_if(cx.log.iter().any(|l| l.contains("find_bytes")), "searched");
	c.sample(|| format!("{}: {}", v.show(), cx.log.join(", ")));
	thrift(&cx, c)
}

/// Skipping a value, in memory and from a stream.
pub fn skip_frugal<T: Subject>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 0);
	let b = v.enc();
	c.key(&b);
	c.evals = 2;
	c.nontrivial = b.len() > 1;
	c.sample(|| v.show());
	let (r, a) = engine::asked(|| skip_slice::<T>(&b));
	ensure!(r.is_err() || a.times == 0, "skip_slice over {} allocated {} times, {} bytes in all", hex(&b), a.times, a.bytes);
	let mut rest = &b[..];
	let (r, a) = engine::asked(|| skip_reader::<T, _>(&mut rest));
	ensure!(r.is_err() || a.times == 0, "skip_reader over {} allocated {} times, {} bytes in all", hex(&b), a.times, a.bytes);
	Ok(())
}

pub fn walk<T: Drive>(misuse: bool, s: &mut Src, c: &mut Ctx) -> Res {
	let mode = s.weighted(&[60, 30, 10]);
	let n = if mode == 0 { 1 } else { 1 + s.below(3) };
	let vals: Vec<T> = (0..n).map(|_| T::gen_(s, 0)).collect();
	let disc = s.uint(32) as u32;
	let mut buf = Vec::new();
	if mode == 2 {
		let _ = revision::to_writer(&mut buf, &disc);
	}
	let mut ends = vec![buf.len()];
	for v in &vals {
		if let Err(e) = revision::to_writer(&mut buf, v) {
			fail!("to_writer({}) failed: {e}", v.show());
		}
		ends.push(buf.len());
	}
	let junk = tail(s);
	buf.extend(junk);
	let mut cx = Cx::new(&buf, misuse);
	let mut r = SliceReader::new(&buf);
	let x = go(mode, &vals, disc, &ends, &mut r, s, &mut cx);
	c.key(&buf);
	for l in &cx.log {
		c.key(l.as_bytes());
	}
	c.evals = cx.evals;
	c.nontrivial = if misuse { cx.refused > 0 } else { cx.evals + cx.descents + cx.log.len() as u64 >= 2 };
	c.label_if(cx.descents > 0, "descended");
	c.label_if(cx.peeks > 0, "peeked");
	c.label_if(cx.refused > 0, "refused requests");
	c.label_if(cx.stop.is_some(), "ended early");
	c.label_if(cx.log.len() >= 10, "10 or more operations");
	c.label_if(cx.log.iter().any(|l| l.contains("find")), "searched");
	c.sample(|| format!("{}: {}", vals[0].show(), cx.log.join(", ")));
	x
}

fn go<T: Drive>(
	mode: usize,
	vals: &[T],
	disc: u32,
	ends: &[usize],
	r: &mut SliceReader,
	s: &mut Src,
	cx: &mut Cx,
) -> Res {
	if mode == 0 {
		root(&vals[0], r, s, cx)?;
		let at = cx.stop.unwrap_or(ends[1]);
		end(r, at, cx)?;
		if at < ends[1] {
			return Ok(());
		}
		return Ok(());
	}
	if mode == 2 {
		let w = EnumWalker::new(r, 7);
		let mut w = cx.ok("EnumWalker::new", w)?;
		ensure!(w.discriminant() == disc, "discriminant() is {} instead of {disc}", w.discriminant());
		ensure!(w.revision() == 7, "revision() is {}", w.revision());
		end(w.reader(), ends[0], cx)?;
		cx.depth = 1;
		match s.below(4) {
			0 => cx.same("EnumWalker::decode", w.decode::<T>(), &vals[0])?,
			1 => {
				let x = w.skip::<T>();
				cx.ok("EnumWalker::skip", x)?
			}
			2 if T::WALKABLE => {
				let w = w.into_walk::<T>();
				let w = cx.ok("EnumWalker::into_walk", w)?;
				vals[0].drive(w, s, cx)?
			}
			2 => {
				let x = w.into_walk::<T>().map(|_| ());
				cx.refused("EnumWalker::into_walk", x)?;
				return end(r, ends[0], cx);
			}
			_ => handle(&vals[0], LeafWalker::<T, _>::new(w.into_reader()), s, cx)?,
		}
		return end(r, ends[1], cx);
	}
	// several values as the fields of a struct
	let mut w = StructWalker::new(r, 3);
	ensure!(w.revision() == 3, "revision() is {}", w.revision());
	cx.depth = 1;
	for (i, v) in vals.iter().enumerate() {
		ensure!(w.position() as usize == i, "position() is {} before field {i}", w.position());
		match s.weighted(&[20, 15, 40]) {
			0 => {
				cx.note("field.decode");
				cx.same("StructWalker::decode", w.decode::<T>(), v)?
			}
			1 => {
				cx.note("field.skip");
				let x = w.skip::<T>();
				cx.ok("StructWalker::skip", x)?
			}
			_ if !T::WALKABLE => {
				let x = w.walk::<T>().map(|_| ());
				cx.refused("StructWalker::walk", x)?;
				ensure!(w.position() as usize == i, "a refused walk counts as a field");
				cx.same("StructWalker::decode after a refused walk", w.decode::<T>(), v)?
			}
			_ if i + 1 == vals.len() && s.bool() => {
				cx.note("field.into_walk");
				let x = w.into_walk::<T>();
				let x = cx.ok("StructWalker::into_walk", x)?;
				v.drive(x, s, cx)?;
				return end(r, ends[i + 1], cx);
			}
			_ => {
				cx.note("field.walk");
				let x = w.walk::<T>();
				let x = cx.ok("StructWalker::walk", x)?;
				v.drive(x, s, cx)?
			}
		}
		end(w.reader(), ends[i + 1], cx)?;
	}
	ensure!(w.position() as usize == vals.len(), "position() is {} at the end", w.position());
	end(w.into_reader(), ends[vals.len()], cx)
}

/// Walk through bytes that need not be those of the value: everything may fail,
/// nothing may panic.
pub fn astray<T: Drive>(v: &T, b: &[u8], revs: &[u16], bounds: &[usize], s: &mut Src, c: &mut Ctx) -> Res {
	let mut log = String::new();
	let mut r = SliceReader::new(b);
	let x = engine::risky(|| {
		let mut cx = Cx::new(b, false);
		cx.lenient = true;
		cx.revs = revs.to_vec();
		cx.bounds = bounds.to_vec();
		let x = root(v, &mut r, s, &mut cx);
		log = cx.trace();
		c.evals += cx.evals;
		c.label_if(cx.descents > 0, "descended");
		c.label_if(cx.log.len() > 3, "4 or more operations");
		x.is_ok()
	});
	c.key(log.as_bytes());
	match x {
		engine::Risky::Done(done) => c.label(if done { "walked to the end" } else { "given up on the way" }),
		engine::Risky::Oversize => c.label("corrupt length asks for too much memory"),
		engine::Risky::Panic(m) => fail!("walking {} panicked: {m}", hex(b)),
	}
	ensure!(r.position() <= b.len(), "the reader stands at {} of {} bytes", r.position(), b.len());
	Ok(())
}

pub fn corrupted<T: Drive>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 1);
	let old = v.enc();
	let mut b = old.clone();
	generic::corrupt(s, &mut b);
	c.key(&b);
	c.nontrivial = b != old;
	c.sample(|| format!("{} -> {} corrupted to {} and walked", v.show(), hex(&old), hex(&b)));
	astray(&v, &b, &[], &[], s, c)
}

//! C14: slice and borrowed readers against a plain cursor model.
use checks::*;
use revision::slice_reader::{take_bytes_reader, take_bytes_slice};
use revision::{advance_read, read_borrowed_bytes};
use std::io::ErrorKind;

struct Model<'a> {
	data: &'a [u8],
	pos: usize,
	log: Vec<String>,
}

impl<'a> Model<'a> {
	fn rest(&self) -> &'a [u8] {
		&self.data[self.pos..]
	}
}

/// Amounts around what is left, and absurd ones.
fn amount(s: &mut Src, left: usize) -> usize {
	match s.weighted(&[40, 12, 12, 12, 6, 6, 6]) {
		0 => s.range(0, left.min(12)),
		1 => left,
		2 => left + 1,
		3 => left.saturating_sub(1),
		4 => left + s.draw(1000) as usize,
		5 => usize::MAX - s.draw(3) as usize,
		_ => s.range(0, left + 2),
	}
}

fn same_place(got: &[u8], want: &[u8]) -> bool {
	// an empty slice may point anywhere
	got == want && (got.is_empty() || got.as_ptr() == want.as_ptr())
}

macro_rules! bad {
	($m:expr, $($t:tt)*) => {
		fail!("{} | after {:?} on {} bytes {}", format!($($t)*), $m.log, $m.data.len(), hex($m.data))
	};
}

fn observe<R: BorrowedReader>(r: &R, m: &Model, base: Option<usize>) -> Res {
	if !same_place(r.remaining(), m.rest()) {
		bad!(m, "remaining() is {} instead of {}", hex(r.remaining()), hex(m.rest()));
	}
	let want = base.map(|b| m.pos - b).unwrap_or(0);
	if r.position() != want {
		bad!(m, "position() is {} instead of {want}", r.position());
	}
	Ok(())
}

/// One operation of the traits every reader has.
fn common<R: BorrowedReader>(r: &mut R, m: &mut Model, s: &mut Src) -> Res {
	let left = m.rest().len();
	let n = amount(s, left);
	match s.below(8) {
		0 => {
			let n = n.min(9000);
			m.log.push(format!("read({n})"));
			let mut buf = vec![0xEE; n];
			match r.read(&mut buf) {
				Ok(k) => {
					if k > n || k > left || (k == 0 && n > 0 && left > 0) {
						bad!(m, "read into {n} bytes with {left} left returned {k}");
					}
					if buf[..k] != m.rest()[..k] || buf[k..].iter().any(|x| *x != 0xEE) {
						bad!(m, "read({n}) filled {}", hex(&buf));
					}
					m.pos += k;
				}
				Err(e) => bad!(m, "read({n}) failed: {e}"),
			}
		}
		1 => {
			let n = n.min(left);
			m.log.push(format!("read_exact({n})"));
			let mut buf = vec![0; n];
			if let Err(e) = r.read_exact(&mut buf) {
				bad!(m, "read_exact({n}) of {left} failed: {e}");
			}
			if buf != m.rest()[..n] {
				bad!(m, "read_exact({n}) filled {}", hex(&buf));
			}
			m.pos += n;
		}
		2 | 3 => {
			m.log.push(format!("peek_bytes({n})"));
			match r.peek_bytes(n) {
				Ok(b) => {
					if n > left || !same_place(b, &m.rest()[..n]) {
						bad!(m, "peek_bytes({n}) with {left} left gave {}", hex(b));
					}
				}
				Err(_) if n > left => {}
				Err(e) => bad!(m, "peek_bytes({n}) with {left} left failed: {e}"),
			}
		}
		4 => {
			m.log.push(format!("advance({n})"));
			match r.advance(n) {
				Ok(()) if n <= left => m.pos += n,
				Err(_) if n > left => {}
				x => bad!(m, "advance({n}) with {left} left: {x:?}"),
			}
		}
		5 => {
			m.log.push(format!("read_borrowed_bytes({n})"));
			let want = if n <= left { &m.rest()[..n] } else { &[] };
			match read_borrowed_bytes(r, n) {
				Ok(b) => {
					if n > left || !same_place(b, want) {
						bad!(m, "read_borrowed_bytes({n}) with {left} left gave {}", hex(b));
					}
					m.pos += n;
				}
				Err(_) if n > left => {}
				Err(e) => bad!(m, "read_borrowed_bytes({n}) with {left} left failed: {e}"),
			}
		}
		6 => {
			// a stream of zeros would never end: only what is there, or one past
			let n = n.min(left);
			m.log.push(format!("advance_read({n})"));
			match advance_read(r, n) {
				Ok(()) => m.pos += n,
				Err(e) => bad!(m, "advance_read({n}) with {left} left failed: {e}"),
			}
		}
		_ => {
			// decoding through the reader
			m.log.push("u8".into());
			match u8::deserialize_revisioned(r) {
				Ok(v) if left > 0 && v == m.rest()[0] => m.pos += 1,
				Err(_) if left == 0 => {}
				x => bad!(m, "reading a byte with {left} left: {x:?}"),
			}
		}
	}
	Ok(())
}

/// Through the reader itself, or through references to it.
fn step<R: BorrowedReader>(r: &mut R, m: &mut Model, s: &mut Src, base: Option<usize>) -> Res {
	match s.below(4) {
		0 => {
			let mut rr = &mut *r;
			common(&mut rr, m, s)?;
			observe(&rr, m, base)?;
		}
		1 => {
			let mut rr = &mut *r;
			let mut rrr = &mut rr;
			common(&mut rrr, m, s)?;
			observe(&rrr, m, base)?;
		}
		_ => common(r, m, s)?,
	}
	observe(r, m, base)
}

fn slice_reader(m: &mut Model, s: &mut Src, c: &mut Ctx, depth: usize, steps: usize) -> Res {
	let base = m.pos;
	let whole: usize = m.data.len() - base;
	let mut r = SliceReader::new(m.rest());
	observe(&r, m, Some(base))?;
	for _ in 0..steps {
		c.evals += 1;
		let left = m.rest().len();
		match s.below(9) {
			0 => {
				let n = amount(s, left);
				m.log.push(format!("consume({n})"));
				match r.consume(n) {
					Ok(()) if n <= left => m.pos += n,
					Err(_) if n > left => {}
					x => bad!(m, "consume({n}) with {left} left: {x:?}"),
				}
			}
			1 => {
				let n = amount(s, left);
				m.log.push(format!("take_bytes_reader({n})"));
				match take_bytes_reader(&mut r, n) {
					Ok(b) => {
						if n > left || !same_place(b, &m.rest()[..n]) {
							bad!(m, "take_bytes_reader({n}) with {left} left gave {}", hex(b));
						}
						m.pos += n;
						// the borrow outlives the reader's next moves
						let _ = r.consume(0);
						if !same_place(b, &m.data[m.pos - n..m.pos]) {
							bad!(m, "bytes taken earlier changed");
						}
					}
					Err(_) if n > left => {}
					Err(e) => bad!(m, "take_bytes_reader({n}) with {left} left failed: {e}"),
				}
			}
			2 | 3 => {
				// offsets are from where this reader started
				let off = match s.below(4) {
					0 => amount(s, whole),
					1 => m.pos - base,
					2 => (m.pos - base).saturating_sub(1),
					_ => m.pos - base + amount(s, left).min(left + 2),
				};
				let len = amount(s, whole.saturating_sub(off.min(whole)));
				m.log.push(format!("sub({off},{len})"));
				let ok = off >= m.pos - base && off.checked_add(len).is_some_and(|e| e <= whole);
				match r.sub(off, len) {
					Ok(sub) => {
						if !ok {
							bad!(m, "sub({off},{len}) at {} of {whole} was allowed", m.pos - base);
						}
						let part = &m.data[base + off..base + off + len];
						if !same_place(sub.remaining(), part) || sub.consumed_len() != 0 {
							bad!(m, "sub({off},{len}) covers {}", hex(sub.remaining()));
						}
						if depth < 2 {
							let mut mm = Model {
								data: part,
								pos: 0,
								log: vec![format!("in sub({off},{len})")],
							};
							slice_reader(&mut mm, s, c, depth + 1, 4)?;
						}
					}
					Err(e) => {
						if ok {
							bad!(m, "sub({off},{len}) at {} of {whole} failed: {e}", m.pos - base);
						}
						let early = off < m.pos - base;
						let kind_ok = match &e {
							Error::Io(e) => e.kind() == ErrorKind::InvalidInput && (early || off.checked_add(len).is_none() || (off - (m.pos - base)).checked_add(len).is_none()),
							Error::OptimisedSubReaderOverrun => !early,
							_ => false,
						};
						if !kind_ok {
							bad!(m, "sub({off},{len}) at {} of {whole} reports {e:?}", m.pos - base);
						}
					}
				}
			}
			4 => {
				// a copy moves on its own
				m.log.push("copy".into());
				let mut cp = r;
				let _ = cp.consume(left.min(1));
			}
			_ => step(&mut r, m, s, Some(base))?,
		}
		observe(&r, m, Some(base))?;
		if r.consumed_len() != m.pos - base || !same_place(SliceReader::remaining(&r), m.rest()) {
			bad!(m, "consumed_len() {} remaining() {}", r.consumed_len(), hex(SliceReader::remaining(&r)));
		}
	}
	Ok(())
}

fn plain_slice(m: &mut Model, s: &mut Src, c: &mut Ctx, steps: usize) -> Res {
	let mut r: &[u8] = m.data;
	for _ in 0..steps {
		c.evals += 1;
		let left = m.rest().len();
		if s.below(5) == 0 {
			let n = amount(s, left);
			m.log.push(format!("take_bytes_slice({n})"));
			match take_bytes_slice(&mut r, n) {
				Ok(b) => {
					if n > left || !same_place(b, &m.rest()[..n]) {
						bad!(m, "take_bytes_slice({n}) with {left} left gave {}", hex(b));
					}
					m.pos += n;
				}
				Err(_) if n > left => {}
				Err(e) => bad!(m, "take_bytes_slice({n}) with {left} left failed: {e}"),
			}
		} else {
			step(&mut r, m, s, None)?;
		}
		observe(&r, m, None)?;
	}
	Ok(())
}

/// Small buffers, and sizes around the 4096-byte step of the bulk advance.
fn buffer(s: &mut Src) -> Vec<u8> {
	if s.chance(1, 8) {
		let n = *s.pick(&[4095usize, 4096, 4097, 8191, 8192, 8193, 12000]);
		return s.bytes(n);
	}
	let n = s.range(0, 30);
	s.bytes(n)
}

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	let run = |which: usize| {
		move |s: &mut Src, c: &mut Ctx| {
			let data = buffer(s);
			let steps = s.range(1, 24);
			let mut m = Model {
				data: &data,
				pos: 0,
				log: Vec::new(),
			};
			let r = if which == 0 {
				slice_reader(&mut m, s, c, 0, steps)
			} else {
				plain_slice(&mut m, s, c, steps)
			};
			c.key(format!("{:?}{:?}", m.log, m.data).as_bytes());
			c.nontrivial = m.log.len() >= 3 && data.len() >= 2;
			c.label_if(m.pos == data.len(), "reached the end");
			c.sample(|| format!("{} bytes: {}", data.len(), m.log.join(" ")));
			r
		}
	};
	cs.add("SliceReader", 1.0, run(0));
	cs.add("&[u8]", 1.0, run(1));
	cs.add("advance_read past the end", 0.2, |s, c| {
		let data = buffer(s);
		let more = 1 + amount(s, data.len()).min(10_000);
		c.nontrivial = data.len() > 1;
		let mut r: &[u8] = &data;
		if advance_read(&mut r, data.len() + more).is_ok() {
			fail!("advance_read({}) over {} bytes succeeded", data.len() + more, data.len());
		}
		let mut r = SliceReader::new(&data);
		if advance_read(&mut r, data.len() + more).is_ok() {
			fail!("advance_read({}) over {} bytes succeeded", data.len() + more, data.len());
		}
		Ok(())
	});
	cs.add("advance_read in pieces", 0.3, |s, c| {
		let data = buffer(s);
		let plan = io::Plan {
			pieces: io::gen_pieces(s),
			fault: io::Fault::None,
		};
		let n = s.range(0, data.len());
		c.nontrivial = n > 1;
		let mut r = io::PieceReader::new(&data, plan.clone());
		if let Err(e) = advance_read(&mut r, n) {
			fail!("advance_read({n}) in pieces {plan:?} failed: {e}");
		}
		ensure!(r.pos == n, "advance_read({n}) in pieces {plan:?} took {}", r.pos);
		Ok(())
	});
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C14", |_| cases())
}

//! Readers and writers that split, interrupt and fail on a generated schedule.
use crate::*;
use std::io::{self, ErrorKind, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
	None,
	/// fail once this many bytes have gone through
	Error(usize, ErrorKind),
	/// end of file / accepts no more (Ok(0)) after this many bytes
	Stop(usize),
}

pub const KINDS: [ErrorKind; 6] = [
	ErrorKind::Other,
	ErrorKind::BrokenPipe,
	ErrorKind::WouldBlock,
	ErrorKind::UnexpectedEof,
	ErrorKind::PermissionDenied,
	ErrorKind::TimedOut,
];

/// How bytes are handed over: a cyclic list of piece sizes, 0 = Interrupted.
#[derive(Clone, Debug)]
pub struct Plan {
	pub pieces: Vec<usize>,
	pub fault: Fault,
}

pub fn gen_pieces(s: &mut Src) -> Vec<usize> {
	match s.below(5) {
		0 => vec![1],
		1 => vec![usize::MAX],
		2 => vec![0, 1],
		_ => {
			let n = 1 + s.below(6);
			let mut v: Vec<usize> = (0..n)
				.map(|_| *s.pick(&[1usize, 2, 3, 0, 4, 5, 7, 8, 9, 16, 100, 1000, 4095, 4096]))
				.collect();
			if v.iter().all(|x| *x == 0) {
				v.push(1);
			}
			v
		}
	}
}

pub struct PieceReader<'a> {
	pub data: &'a [u8],
	pub pos: usize,
	pub plan: Plan,
	pub turn: usize,
	pub max_asked: usize,
	pub calls: usize,
}

impl<'a> PieceReader<'a> {
	pub fn new(data: &'a [u8], plan: Plan) -> Self {
		PieceReader {
			data,
			pos: 0,
			plan,
			turn: 0,
			max_asked: 0,
			calls: 0,
		}
	}
}

impl Read for PieceReader<'_> {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		self.calls += 1;
		if buf.is_empty() {
			return Ok(0);
		}
		let p = self.plan.pieces[self.turn % self.plan.pieces.len()];
		self.turn += 1;
		if p == 0 {
			return Err(ErrorKind::Interrupted.into());
		}
		let mut n = p.min(buf.len()).min(self.data.len() - self.pos);
		match self.plan.fault {
			Fault::Error(at, k) => {
				if self.pos >= at {
					return Err(k.into());
				}
				n = n.min(at - self.pos);
			}
			Fault::Stop(at) => n = n.min(at - self.pos.min(at)),
			Fault::None => {}
		}
		buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
		self.pos += n;
		Ok(n)
	}
}

pub struct PieceWriter {
	pub got: Vec<u8>,
	pub plan: Plan,
	pub turn: usize,
}

impl PieceWriter {
	pub fn new(plan: Plan) -> Self {
		PieceWriter {
			got: Vec::new(),
			plan,
			turn: 0,
		}
	}
}

impl Write for PieceWriter {
	fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
		if buf.is_empty() {
			return Ok(0);
		}
		let p = self.plan.pieces[self.turn % self.plan.pieces.len()];
		self.turn += 1;
		if p == 0 {
			return Err(ErrorKind::Interrupted.into());
		}
		let mut n = p.min(buf.len());
		match self.plan.fault {
			Fault::Error(at, k) => {
				if self.got.len() >= at {
					return Err(k.into());
				}
				n = n.min(at - self.got.len());
			}
			Fault::Stop(at) => n = n.min(at - self.got.len().min(at)),
			Fault::None => {}
		}
		self.got.extend_from_slice(&buf[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> io::Result<()> {
		Ok(())
	}
}

pub fn gen_fault(s: &mut Src, len: usize) -> Fault {
	if len == 0 {
		return Fault::None;
	}
	// favour the very ends
	let at = match s.below(4) {
		0 => len - 1,
		1 => s.below(len.min(4)),
		_ => s.below(len),
	};
	if s.bool() { Fault::Error(at, *s.pick(&KINDS)) } else { Fault::Stop(at) }
}

pub fn chunked<T: Subject>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 0);
	let Ok(b) = revision::to_vec(&v) else { fail!("to_vec({}) failed", v.show()) };
	let plan = Plan {
		pieces: gen_pieces(s),
		fault: Fault::None,
	};
	let wplan = Plan {
		pieces: gen_pieces(s),
		fault: gen_fault(s, b.len()),
	};
	chunked_bytes::<T>(&b, &v.show(), &plan, &wplan, s, c)?;
	// writing
	c.evals += 2;
	let mut w = PieceWriter::new(plan.clone());
	match revision::to_writer(&mut w, &v) {
		Ok(()) => ensure!(
			w.got == b,
			"{} written in pieces {:?} delivered {} instead of {}",
			v.show(),
			plan.pieces,
			hex(&w.got),
			hex(&b)
		),
		Err(e) => fail!("writing {} in pieces {:?} failed: {e}", v.show(), plan.pieces),
	}
	if wplan.fault != Fault::None {
		let mut w = PieceWriter::new(wplan.clone());
		if let Ok(()) = v.serialize_revisioned(&mut w) {
			fail!(
				"writing {} ({} bytes) to a writer with {:?} reported success after {} bytes",
				v.show(),
				b.len(),
				wplan,
				w.got.len()
			);
		}
		ensure!(b.starts_with(&w.got), "failed write of {} delivered {} not a prefix of {}", v.show(), hex(&w.got), hex(&b));
	}
	Ok(())
}

/// `b` is a complete encoding that `T` decodes. Reading it in pieces.
pub fn chunked_bytes<T: Subject>(b: &[u8], what: &str, plan: &Plan, bad: &Plan, s: &mut Src, c: &mut Ctx) -> Res {
	let mut buf = b.to_vec();
	buf.extend(tail(s));
	c.key(&buf);
	c.key(format!("{plan:?}{bad:?}").as_bytes());
	c.nontrivial = b.len() >= 2 && (plan.pieces != [usize::MAX] || bad.fault != Fault::None);
	c.sample(|| format!("{what} -> {} in pieces {plan:?}, fault {bad:?}", hex(b)));
	let want = match revision::from_slice::<T>(b) {
		Ok(w) => w,
		Err(e) => fail!("{} fails to decode: {e}", hex(b)),
	};
	type Op<T> = (&'static str, fn(&mut PieceReader<'_>) -> Result<Option<T>, Error>);
	let ops: [Op<T>; 3] = [
		("from_reader", |r| revision::from_reader::<_, T>(r).map(Some)),
		("skip_reader", |r| revision::skip_reader::<T, _>(r).map(|_| None)),
		("skip_check_reader", |r| revision::skip_check_reader::<T, _>(r).map(|_| None)),
	];
	for (name, op) in ops {
		c.evals += 2;
		let mut r = PieceReader::new(&buf, plan.clone());
		match op(&mut r) {
			Ok(v) => {
				if let Some(v) = v {
					ensure!(want.same(&v), "{name} in pieces {:?} of {what} gave {}", plan.pieces, v.show());
				}
				ensure!(
					r.pos == b.len(),
					"{name} of {what} took {} of {} bytes from the reader (pieces {:?})",
					r.pos,
					b.len(),
					plan.pieces
				);
			}
			Err(e) => fail!("{name} of {what} in pieces {:?} failed: {e}", plan.pieces),
		}
		if bad.fault != Fault::None {
			let mut r = PieceReader::new(&buf, bad.clone());
			if let Ok(v) = op(&mut r) {
				fail!(
					"{name} of {what} ({} bytes) succeeded{} on a reader with {bad:?}",
					b.len(),
					v.map(|v| format!(" with {}", v.show())).unwrap_or_default()
				);
			}
		}
	}
	Ok(())
}

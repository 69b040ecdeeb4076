//! C21: which error is reported.
use crate::io::{KINDS, gen_pieces};
use crate::*;
use std::io::{self, ErrorKind, Read, Write};

/// Splits and interrupts by a plan, then fails for good with an error of its own.
pub struct Broken<'a> {
	data: &'a [u8],
	pos: usize,
	pieces: Vec<usize>,
	turn: usize,
	kind: Option<ErrorKind>,
	token: u64,
}
impl<'a> Broken<'a> {
	pub fn new(data: &'a [u8], pieces: Vec<usize>, kind: Option<ErrorKind>, token: u64) -> Self {
		Broken { data, pos: 0, pieces, turn: 0, kind, token }
	}
	fn step(&mut self, asked: usize) -> io::Result<usize> {
		let p = self.pieces[self.turn % self.pieces.len()];
		self.turn += 1;
		if p == 0 {
			return Err(ErrorKind::Interrupted.into());
		}
		let left = self.data.len() - self.pos;
		if left == 0 {
			return match self.kind {
				Some(k) => Err(io::Error::new(k, format!("token {}", self.token))),
				None => Ok(0),
			};
		}
		Ok(p.min(asked).min(left))
	}
}
impl Read for Broken<'_> {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		if buf.is_empty() {
			return Ok(0);
		}
		let n = self.step(buf.len())?;
		buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
		self.pos += n;
		Ok(n)
	}
}
impl Write for Broken<'_> {
	fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
		if buf.is_empty() {
			return Ok(0);
		}
		let n = self.step(buf.len())?;
		self.pos += n;
		Ok(n)
	}
	fn flush(&mut self) -> io::Result<()> {
		Ok(())
	}
}

/// The error is the reader's or writer's own, untouched.
pub fn own<T>(what: &str, r: Result<T, Error>, kind: Option<ErrorKind>, token: u64, eof: ErrorKind) -> Res {
	match (r, kind) {
		// other properties speak about success
		(Ok(_), _) => Ok(()),
		(Err(Error::Io(e)), Some(k)) => {
			ensure!(
				e.kind() == k && e.to_string() == format!("token {token}"),
				"{what} reports the I/O error {e:?} instead of {k:?} with token {token}"
			);
			Ok(())
		}
		(Err(Error::Io(e)), None) => {
			ensure!(e.kind() == eof, "{what} reports the I/O error {e:?} instead of {eof:?}");
			Ok(())
		}
		(Err(e), _) => fail!("{what} reports {e:?}, not an I/O error"),
	}
}

/// A failing reader or writer, or one that comes to an end.
pub fn faults<T: Subject>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 0);
	let b = v.enc();
	faults_in::<T>(&b, &v.show(), s, c)?;
	if b.is_empty() {
		return Ok(());
	}
	let at = s.below(b.len());
	let kind = s.chance(3, 4).then(|| *s.pick(&KINDS));
	let token = s.draw(1 << 20);
	let pieces = gen_pieces(s);
	c.evals += 1;
	let mut w = Broken::new(&b[..at], pieces.clone(), kind, token);
	let r = revision::to_writer(&mut w, &v);
	own(&format!("writing {} to a writer failing after {at} bytes (pieces {pieces:?})", v.show()), r, kind, token, ErrorKind::WriteZero)
}
pub fn faults_in<T: Subject>(b: &[u8], what: &str, s: &mut Src, c: &mut Ctx) -> Res {
	if b.is_empty() {
		return Ok(());
	}
	let at = match s.below(4) {
		0 => b.len() - 1,
		1 => s.below(b.len().min(8)),
		_ => s.below(b.len()),
	};
	let kind = s.chance(3, 4).then(|| *s.pick(&KINDS));
	let token = s.draw(1 << 20);
	let pieces = gen_pieces(s);
	c.key(b);
	c.key(format!("{at} {kind:?} {pieces:?}").as_bytes());
	c.nontrivial = b.len() >= 2;
	c.evals += 3;
	c.label(if kind.is_some() { "failing" } else { "cut off" });
	c.sample(|| format!("{what}: {} after {at} bytes: {kind:?}", hex(b)));
	let what = format!("{what} ({}) from a reader ending after {at} bytes (pieces {pieces:?})", hex(b));
	let eof = ErrorKind::UnexpectedEof;
	let mk = || Broken::new(&b[..at], pieces.clone(), kind, token);
	own(&format!("decoding {what}"), revision::from_reader::<_, T>(&mut mk()), kind, token, eof)?;
	own(&format!("skipping {what}"), revision::skip_reader::<T, _>(&mut mk()), kind, token, eof)?;
	own(&format!("validating {what}"), revision::skip_check_reader::<T, _>(&mut mk()), kind, token, eof)?;
	if kind.is_none() {
		c.evals += 3;
		own(&format!("decoding the slice of {what}"), revision::from_slice::<T>(&b[..at]), None, 0, eof)?;
		own(&format!("skipping the slice of {what}"), revision::skip_slice::<T>(&b[..at]), None, 0, eof)?;
		own(&format!("validating the slice of {what}"), revision::skip_check_slice::<T>(&b[..at]), None, 0, eof)?;
	}
	Ok(())
}

/// Decoding and validating agree on what is wrong.
pub fn agree<T: Subject>(s: &mut Src, c: &mut Ctx) -> Res {
	let v = T::gen_(s, 1);
	let old = v.enc();
	let mut b = old.clone();
	generic::corrupt(s, &mut b);
	c.key(&b);
	c.nontrivial = b != old;
	c.evals += 2;
	let r = engine::risky(|| {
		let d = revision::from_slice::<T>(&b).map(|_| ());
		let r = revision::from_reader::<_, T>(&mut Broken::new(&b, vec![3, 1], None, 0)).map(|_| ());
		let k = revision::skip_check_slice::<T>(&b).map(|_| ());
		(d, r, k)
	});
	let engine::Risky::Done((d, r, k)) = r else { return Ok(()) };
	if let Err(d) = d {
		c.label("refused");
		for (w, e) in [("reading from a stream", r), ("validating", k)] {
			let Err(e) = e else { continue };
			ensure!(
				std::mem::discriminant(&e) == std::mem::discriminant(&d),
				"decoding {} reports {d:?} but {w} reports {e:?}",
				hex(&b)
			);
		}
	}
	Ok(())
}

//! C16: tags and envelopes by hand.
use checks::*;
use errors::Broken;
use revision::optimised::envelope::*;
use revision::optimised::tag::{read_tag, write_tag};
use revision::optimised::{MAX_VARIANTS, SizeClass, Tag};
use revision::{BorrowedReader, Error, SliceReader};
use std::io::{ErrorKind, Write};

const CLASSES: [SizeClass; 3] = [SizeClass::Inline, SizeClass::Fixed, SizeClass::Varlen];

/// Every tag byte.
fn bytes(s: &mut Src, c: &mut Ctx) -> Res {
	let b = s.below(256) as u8;
	c.key(&[b]);
	c.nontrivial = true;
	c.evals = 4;
	c.sample(|| format!("{b:#04x}"));
	let t = Tag(b);
	ensure!(t.variant_id() == b % 32, "tag {b:#04x} names variant {}", t.variant_id());
	ensure!(t.is_extended() == (b >= 128), "tag {b:#04x}: extended is {}", t.is_extended());
	let want = match (b / 32) % 4 {
		0 => Some(SizeClass::Inline),
		1 => Some(SizeClass::Fixed),
		2 => Some(SizeClass::Varlen),
		_ => None,
	};
	let same = |what: &str, got: Result<SizeClass, Error>, want: Option<SizeClass>| -> Res {
		match (got, want) {
			(Ok(g), Some(w)) if g == w => Ok(()),
			(Err(Error::InvalidOptimisedTag(x)), None) if x == b => Ok(()),
			(g, w) => fail!("{what} of tag {b:#04x} is {g:?} instead of {w:?}"),
		}
	};
	same("size_class", t.size_class(), want)?;
	let after = s.bytes(2);
	let buf = [&[b][..], &after].concat();
	let mut r = &buf[..];
	match read_tag(&mut r) {
		Ok(t) => ensure!(b < 128 && t == Tag(b) && r == &after[..], "read_tag of {b:#04x} gives {t:?}"),
		Err(Error::InvalidOptimisedTag(x)) => ensure!(b >= 128 && x == b, "read_tag of {b:#04x} reports {x:#04x}"),
		Err(e) => fail!("read_tag of {b:#04x} reports {e:?}"),
	}
	let mut r = &buf[..];
	let got = read_optimised_tag(&mut r);
	if let Ok((t, _)) = &got {
		ensure!(*t == Tag(b) && r == &after[..], "read_optimised_tag of {b:#04x} gives {t:?} and leaves {}", hex(r));
	}
	same("read_optimised_tag", got.map(|x| x.1), want.filter(|_| b < 128))?;
	ensure!(matches!(read_tag(&mut &[][..]), Err(Error::Io(e)) if e.kind() == ErrorKind::UnexpectedEof), "read_tag of nothing");
	let mut out = Vec::new();
	write_tag(&mut out, t).unwrap();
	ensure!(out == [b], "write_tag of {b:#04x} writes {}", hex(&out));
	Ok(())
}

fn envelopes(s: &mut Src, c: &mut Ctx) -> Res {
	let id = s.below(MAX_VARIANTS) as u8;
	let k = s.below(3);
	let n = match s.below(4) {
		0 => 0,
		1 => s.below(8),
		2 => s.below(300),
		_ => 250 + s.below(70_000),
	};
	let body = if k == 0 { vec![] } else { s.bytes(n) };
	let tail_len = s.below(9);
	let tail = s.bytes(tail_len);
	c.key(&[id, k as u8]);
	c.key(&body);
	c.nontrivial = !body.is_empty();
	c.evals = 3;
	c.sample(|| format!("variant {id}, class {:?}, {} bytes", CLASSES[k], body.len()));
	let mut want = vec![id | (k as u8) << 5];
	if k == 2 {
		want.extend((body.len() as u32).to_le_bytes());
	}
	want.extend(&body);
	// in pieces, as fields are written
	let cut = s.below(body.len() + 1);
	let mut got = Vec::new();
	let r = match k {
		0 => encode_inline(&mut got, id),
		1 => encode_fixed(&mut got, id, |w| {
			w.write_all(&body[..cut]).map_err(Error::Io)?;
			w.write_all(&body[cut..]).map_err(Error::Io)
		}),
		_ => encode_varlen(&mut got, id, |w| {
			w.write_all(&body[..cut]).map_err(Error::Io)?;
			w.write_all(&body[cut..]).map_err(Error::Io)
		}),
	};
	ensure!(r.is_ok() && got == want, "variant {id} of class {:?} with {} is written as {}", CLASSES[k], hex(&body), hex(&got));
	ensure!(Tag::new(id, CLASSES[k]).0 == want[0], "Tag::new({id}, {:?})", CLASSES[k]);
	// a failing writer, a failing body
	let at = s.below(want.len());
	let mut w = Broken::new(&want[..at], crate::io::gen_pieces(s), Some(ErrorKind::TimedOut), 7);
	let r = match k {
		0 => encode_inline(&mut w, id),
		1 => encode_fixed(&mut w, id, |w| w.write_all(&body).map_err(Error::Io)),
		_ => encode_varlen(&mut w, id, |w| w.write_all(&body).map_err(Error::Io)),
	};
	ensure!(matches!(&r, Err(Error::Io(e)) if e.kind() == ErrorKind::TimedOut), "writing to a writer failing after {at} bytes gives {r:?}");
	if k > 0 {
		let mut out = Vec::new();
		let r = if k == 1 { encode_fixed(&mut out, id, |_| Err(Error::InvalidPath)) } else { encode_varlen(&mut out, id, |_| Err(Error::InvalidPath)) };
		ensure!(matches!(r, Err(Error::InvalidPath)), "the body's own error becomes {r:?}");
	}
	// and back
	let mut buf = want.clone();
	buf.extend(&tail);
	let mut r = SliceReader::new(&buf);
	let (t, sc) = match read_optimised_tag(&mut r) {
		Ok(x) => x,
		Err(e) => fail!("reading the tag of {}: {e:?}", hex(&buf)),
	};
	ensure!(t.variant_id() == id && sc == CLASSES[k] && !t.is_extended(), "{} is read as {t:?} {sc:?}", hex(&buf));
	if k < 2 {
		return Ok(());
	}
	let before = r.position();
	let got = match read_varlen_slice(&mut r) {
		Ok(x) => (x.as_ptr() as usize, x.len()),
		Err(e) => fail!("reading the body of {}: {e:?}", hex(&buf)),
	};
	ensure!(got == (buf[before + 4..].as_ptr() as usize, body.len()), "the body of {} is not the one borrowed", hex(&buf));
	ensure!(r.remaining() == &tail[..], "reading {} leaves {}", hex(&buf), hex(r.remaining()));
	let mut r = &buf[1..];
	let n = read_varlen_len(&mut r);
	ensure!(matches!(n, Ok(n) if n as usize == body.len()) && r.len() == body.len() + tail.len(), "the length of {} is {n:?}", hex(&buf));
	let mut r = &buf[1..];
	ensure!(skip_varlen(&mut r).is_ok() && r == &tail[..], "skip_varlen over {} leaves {}", hex(&buf), hex(r));
	let mut r = &buf[1..];
	ensure!(skip_varlen_borrowed(&mut r).is_ok() && r == &tail[..], "skip_varlen_borrowed over {} leaves {}", hex(&buf), hex(r));
	let mut r = Broken::new(&buf[1..], crate::io::gen_pieces(s), None, 0);
	ensure!(skip_varlen(&mut r).is_ok(), "skip_varlen over a stream of {}", hex(&buf));
	// cut off
	let at = s.below(want.len() - 1);
	let short = &want[1..1 + at];
	ensure!(read_varlen_slice(&mut SliceReader::new(short)).is_err(), "read_varlen_slice accepts {}", hex(short));
	ensure!(skip_varlen(&mut &short[..]).is_err(), "skip_varlen accepts {}", hex(short));
	ensure!(skip_varlen_borrowed(&mut &short[..]).is_err(), "skip_varlen_borrowed accepts {}", hex(short));
	Ok(())
}

pub fn cases() -> Cases {
	let mut cs = Cases::new();
	cs.add("tags", 1.0, bytes);
	cs.add("envelopes", 3.0, envelopes);
	cs
}

#[allow(dead_code)]
fn main() {
	engine::main("C16", |_| cases())
}

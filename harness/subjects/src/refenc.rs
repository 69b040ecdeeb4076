//! Reference encoders of the documented format.

use crate::FIXED;
use std::cell::Cell;

/// Unsigned integer of the given byte width (2, 4, 8 or 16).
pub fn uint(v: u128, width: usize, o: &mut Vec<u8>) {
	if FIXED {
		o.extend_from_slice(&v.to_le_bytes()[..width]);
	} else {
		varint_of(v, width, o);
	}
}

thread_local! {
	static WIDEN: Cell<u64> = const { Cell::new(0) };
}

/// Within `f`, variable-length integers take more room than they need, at
/// random.
pub fn widened<T>(seed: u64, f: impl FnOnce() -> T) -> T {
	struct Back(u64);
	impl Drop for Back {
		fn drop(&mut self) {
			WIDEN.set(self.0);
		}
	}
	let _back = Back(WIDEN.replace(seed | 1));
	f()
}

/// Always variable-length, for an integer of the given width.
pub fn varint_of(v: u128, width: usize, o: &mut Vec<u8>) {
	let seed = WIDEN.get();
	if seed != 0 {
		WIDEN.set(engine::mix(seed) | 1);
		// a form as wide as eight bytes is fine for any width up to that
		let (tag, n) = [(251, 2), (252, 4), (253, 8), (254, 16)][(seed >> 20) as usize % 4];
		if seed >> 8 & 3 == 0 && (n <= 8 || width == 16) && (n == 16 || v >> (8 * n) == 0) {
			o.push(tag);
			o.extend_from_slice(&v.to_le_bytes()[..n]);
			return;
		}
	}
	varint(v, o)
}

/// Always variable-length.
pub fn varint(v: u128, o: &mut Vec<u8>) {
	if v < 251 {
		o.push(v as u8);
	} else if v < 1 << 16 {
		o.push(251);
		o.extend_from_slice(&(v as u16).to_le_bytes());
	} else if v < 1 << 32 {
		o.push(252);
		o.extend_from_slice(&(v as u32).to_le_bytes());
	} else if v < 1 << 64 {
		o.push(253);
		o.extend_from_slice(&(v as u64).to_le_bytes());
	} else {
		o.push(254);
		o.extend_from_slice(&v.to_le_bytes());
	}
}

/// Zig-zag: 0, -1, 1, -2, ... -> 0, 1, 2, 3, ...
pub fn zigzag(v: i128) -> u128 {
	if v < 0 {
		// -1 -> 1, -2 -> 3, i128::MIN -> u128::MAX
		(((-(v + 1)) as u128) << 1) | 1
	} else {
		(v as u128) << 1
	}
}

pub fn sint(v: i128, width: usize, o: &mut Vec<u8>) {
	uint(zigzag(v), width, o)
}

pub fn len(n: usize, o: &mut Vec<u8>) {
	uint(n as u128, 8, o)
}

pub fn bytes(b: &[u8], o: &mut Vec<u8>) {
	len(b.len(), o);
	o.extend_from_slice(b);
}

// ---------------------------------------------------------------- optimised

/// `u32` little-endian length followed by the payload.
pub fn envelope(payload: &[u8], o: &mut Vec<u8>) {
	o.extend_from_slice(&(payload.len() as u32).to_le_bytes());
	o.extend_from_slice(payload);
}

/// Payload of an indexed struct: one offset per field, then the fields.
pub fn indexed_struct(fields: &[Vec<u8>]) -> Vec<u8> {
	let mut p = Vec::new();
	let mut off = fields.len() * 4;
	for f in fields {
		p.extend_from_slice(&(off as u32).to_le_bytes());
		off += f.len();
	}
	for f in fields {
		p.extend_from_slice(f);
	}
	p
}

/// Below this many entries, indexed collections carry no offset table.
pub const THRESHOLD: usize = 8;

pub fn indexed_map(mut entries: Vec<(Vec<u8>, Vec<u8>)>, o: &mut Vec<u8>) {
	entries.sort();
	let n = entries.len();
	if n < THRESHOLD {
		o.push(0);
		varint_of(n as u128, 8, o);
		for (k, v) in entries {
			o.extend(k);
			o.extend(v);
		}
		return;
	}
	o.push(1);
	varint_of(n as u128, 8, o);
	let (mut ko, mut vo) = (0u32, 0u32);
	let (mut kr, mut vr) = (Vec::new(), Vec::new());
	for (k, v) in &entries {
		o.extend_from_slice(&ko.to_le_bytes());
		o.extend_from_slice(&vo.to_le_bytes());
		ko += k.len() as u32;
		vo += v.len() as u32;
		kr.extend_from_slice(k);
		vr.extend_from_slice(v);
	}
	o.extend_from_slice(&ko.to_le_bytes());
	o.extend_from_slice(&vo.to_le_bytes());
	o.extend(kr);
	o.extend(vr);
}

pub fn indexed_seq(elems: Vec<Vec<u8>>, o: &mut Vec<u8>) {
	let n = elems.len();
	o.push((n >= THRESHOLD) as u8);
	varint_of(n as u128, 8, o);
	if n >= THRESHOLD {
		let mut off = 0u32;
		for e in &elems {
			o.extend_from_slice(&off.to_le_bytes());
			off += e.len() as u32;
		}
	}
	for e in elems {
		o.extend(e);
	}
}

pub fn indexed_set(mut elems: Vec<Vec<u8>>, o: &mut Vec<u8>) {
	elems.sort();
	indexed_seq(elems, o)
}

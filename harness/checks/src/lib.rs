//! Helpers shared by the check binaries.
#[cfg(feature = "derived")]
pub mod derive;
pub mod errors;
pub mod generic;
pub mod hostile;
pub mod io;
pub mod ix;
pub mod walks;
pub use engine::{Case, Cases, Ctx, Fail, Res, Src, ensure, fail, hex, no_panic};
pub use revision::prelude::*;
pub use revision::{Error, SliceReader};
pub use subjects::{FIXED, SPEC, Subject, builtin_types, refenc};

/// Bytes to put behind a value: nothing, or bytes that look like more data.
pub fn tail(s: &mut Src) -> Vec<u8> {
	let n = s.draw(9) as usize;
	s.bytes(n)
}

/// Short type name for case names.
pub fn tname<T>() -> String {
	if cfg!(miri) {
		// cheaper
		return std::any::type_name::<T>().to_string();
	}
	std::any::type_name::<T>()
		.replace("alloc::collections::", "")
		.replace("alloc::", "")
		.replace("std::collections::hash::", "")
		.replace("core::", "")
		.replace("std::", "")
		.replace(", global::Global", "")
}

pub fn err_text<T>(r: &Result<T, Error>) -> String {
	match r {
		Ok(_) => "Ok".into(),
		Err(e) => format!("Err({e})"),
	}
}

/// A length class label, to see what the generators reach.
pub fn len_label(n: usize) -> &'static str {
	match n {
		0..=1 => "bytes<=1",
		2..=16 => "bytes 2..16",
		17..=250 => "bytes 17..250",
		251..=4095 => "bytes 251..4095",
		4096..=65535 => "bytes 4096..65535",
		_ => "bytes>65535",
	}
}

//! Generated declarations of revisioned types; see lib/gen.py.
#![allow(unused, non_snake_case, dead_code, clippy::all)]

pub mod support {
	pub use engine::{Res, Src, mix};
	pub use revision::prelude::*;
	pub use revision::{BorrowedReader, Error, revisioned};
	pub use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
	pub use std::sync::Arc;
	pub use subjects::Subject;
	pub use subjects::refdec::{self, Got, Stop};
	pub use subjects::builtin::{emit_indexed_map, emit_indexed_seq, emit_indexed_set, read_indexed_map, read_indexed_seq, read_indexed_set};
	pub use subjects::derive::*;
	pub use subjects::walkers::{Cx, Drive};
}

include!(concat!(env!("DERIVED_GEN"), "/derived.rs"));

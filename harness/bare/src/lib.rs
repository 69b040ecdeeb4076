//! Builds the crate by itself, for C17 to compile declarations against.

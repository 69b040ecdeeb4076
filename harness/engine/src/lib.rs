//! A small property-based testing engine: every random decision of a case is
//! drawn from one choice sequence (`Src`), so that any failure can be shrunk
//! and replayed by editing that sequence alone.
#![feature(alloc_error_hook, panic_can_unwind)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::{Command, Stdio};
use std::time::Instant;

// ---------------------------------------------------------------- allocation

/// Corrupt length prefixes may ask for any amount of memory (a documented
/// limit of the format). Requests beyond this fail, and the failure unwinds,
/// so that such a case can be set aside.
const MAX_ALLOC: usize = 64 << 20;

pub struct Limited;
unsafe impl GlobalAlloc for Limited {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if l.size() > MAX_ALLOC {
			return std::ptr::null_mut();
		}
		count(l.size());
		unsafe { System.alloc(l) }
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		if l.size() > MAX_ALLOC {
			return std::ptr::null_mut();
		}
		count(l.size());
		unsafe { System.alloc_zeroed(l) }
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		if n > MAX_ALLOC {
			return std::ptr::null_mut();
		}
		as_allocated(p, l);
		count(n);
		unsafe { System.realloc(p, l, n) }
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		as_allocated(p, l);
		unsafe { System.dealloc(p, l) }
	}
}

/// AddressSanitizer does not mind memory that is given back as having another
/// size than it was asked for; it knows that size, though.
#[inline]
fn as_allocated(_p: *mut u8, _l: Layout) {
	#[cfg(under_asan)]
	{
		unsafe extern "C" {
			fn malloc_usable_size(p: *mut u8) -> usize;
		}
		let n = unsafe { malloc_usable_size(_p) };
		if n != _l.size() {
			let m = format!("ERROR: AddressSanitizer: (engine) {n} bytes of memory given back as {}\n", _l.size());
			let _ = std::io::stderr().write_all(m.as_bytes());
			std::process::abort();
		}
	}
}
#[global_allocator]
static ALLOC: Limited = Limited;

thread_local! {
	static ASKED: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}
#[inline]
fn count(n: usize) {
	let _ = ASKED.try_with(|a| {
		let (k, b) = a.get();
		a.set((k + 1, b + n));
	});
}

/// What an operation asks the allocator for.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Asked {
	pub times: usize,
	pub bytes: usize,
}
#[inline]
pub fn asked<T>(f: impl FnOnce() -> T) -> (T, Asked) {
	let (k, b) = ASKED.with(|a| a.get());
	let r = f();
	let (l, c) = ASKED.with(|a| a.get());
	(r, Asked { times: l - k, bytes: c - b })
}
/// Part of such an operation that is the harness's own.
#[inline]
pub fn unasked<T>(f: impl FnOnce() -> T) -> T {
	let a = ASKED.with(|a| a.get());
	let r = f();
	ASKED.with(|x| x.set(a));
	r
}

// ---------------------------------------------------------------- memory mode

/// Set when the cases run under a memory checker (`VERIF_MEM` is `asan` or
/// `miri`): then only what it reports counts, and not whether the cases pass.
fn mem() -> Option<&'static str> {
	static M: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
	M.get_or_init(|| std::env::var("VERIF_MEM").ok().filter(|s| !s.is_empty())).as_deref()
}

/// Under Miri, everything is kept small.
pub fn small() -> bool {
	mem() == Some("miri")
}

/// What a memory checker (or the standard library's own checks of the contracts
/// of unsafe functions) says of the process whose standard error this is.
fn undefined(stderr: &str) -> Option<String> {
	let line = stderr.lines().find(|l| {
		(l.contains("ERROR: AddressSanitizer:")
			&& !["stack-overflow", "out-of-memory", "allocation-size-too-big", "rss-limit", "calloc-overflow"]
				.iter()
				.any(|k| l.contains(k)))
			|| l.contains("unsafe precondition(s) violated")
			|| l.contains("Undefined Behavior:")
			|| l.contains("misaligned pointer dereference")
			|| l.contains("null pointer dereference occurred")
			|| l.contains("trying to construct an enum from an invalid value")
	})?;
	// where: the first frames that are not the checker's own
	let at: Vec<&str> = stderr
		.lines()
		.map(str::trim)
		.filter(|l| (l.starts_with('#') && l.contains("revision")) || l.starts_with("--> "))
		.take(2)
		.collect();
	Some(format!("{} {}", line.trim(), at.join(" ")).trim().to_string())
}

// ---------------------------------------------------------------- rng + src

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		Rng(seed)
	}
	#[inline]
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		mix(self.0)
	}
}

#[inline]
pub fn mix(mut z: u64) -> u64 {
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

pub fn fnv(b: &[u8]) -> u64 {
	let mut h = 0xcbf2_9ce4_8422_2325u64;
	for x in b {
		h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
	}
	mix(h)
}

/// Source of choices. Zero is always the simplest choice.
pub struct Src {
	rng: Option<Rng>,
	data: Vec<u64>,
	pos: usize,
	record: bool,
	/// Where choices go as they are made, for cases that end the process.
	dump: Option<std::fs::File>,
	/// Rough number of elements that may still be generated; keeps nested
	/// containers from exploding.
	pub budget: i64,
}

fn budget() -> i64 {
	if small() { 24 } else { 400 }
}

impl Src {
	pub fn random(seed: u64) -> Self {
		Src {
			rng: Some(Rng::new(seed)),
			data: Vec::new(),
			pos: 0,
			record: true,
			dump: None,
			budget: budget(),
		}
	}
	pub fn replay(data: Vec<u64>) -> Self {
		Src {
			rng: None,
			data,
			pos: 0,
			record: false,
			dump: None,
			budget: budget(),
		}
	}
	/// Uniform in `0..=max`.
	#[inline]
	pub fn draw(&mut self, max: u64) -> u64 {
		match &mut self.rng {
			Some(r) => {
				let raw = r.next();
				let v = if max == u64::MAX {
					raw
				} else {
					((raw as u128 * (max as u128 + 1)) >> 64) as u64
				};
				if self.record {
					self.data.push(v);
				}
				if let Some(f) = &mut self.dump {
					let _ = f.write_all(&v.to_le_bytes());
				}
				v
			}
			None => {
				let v = self.data.get(self.pos).copied().unwrap_or(0);
				if self.pos < self.data.len() {
					self.pos += 1;
				}
				if v > max {
					v % (max + 1)
				} else {
					v
				}
			}
		}
	}
	/// Uniform in `0..n`.
	#[inline]
	pub fn below(&mut self, n: usize) -> usize {
		debug_assert!(n > 0);
		self.draw(n as u64 - 1) as usize
	}
	/// Uniform in `lo..=hi`.
	#[inline]
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.draw((hi - lo) as u64) as usize
	}
	#[inline]
	pub fn bool(&mut self) -> bool {
		self.draw(1) == 1
	}
	/// True with probability num/den; false is the simple choice.
	#[inline]
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.draw(den - 1) >= den - num
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		&xs[self.below(xs.len())]
	}
	pub fn weighted(&mut self, w: &[u32]) -> usize {
		let total: u64 = w.iter().map(|x| *x as u64).sum();
		let mut v = self.draw(total - 1);
		for (i, x) in w.iter().enumerate() {
			if v < *x as u64 {
				return i;
			}
			v -= *x as u64;
		}
		w.len() - 1
	}
	/// A detached source, derived from one recorded choice. Used for bulk data
	/// whose individual elements need no shrinking.
	pub fn sub(&mut self) -> Src {
		let seed = self.draw(u64::MAX);
		Src {
			rng: Some(Rng::new(mix(seed ^ 0x5bd1_e995))),
			data: Vec::new(),
			pos: 0,
			record: false,
			dump: None,
			budget: 64,
		}
	}
	/// An integer of at most `bits` bits, biased towards the boundaries of the
	/// variable-length integer forms and of the powers of two.
	pub fn uint(&mut self, bits: u32) -> u128 {
		let max: u128 = if bits == 128 {
			u128::MAX
		} else {
			(1u128 << bits) - 1
		};
		let v: u128 = match self.weighted(&[30, 25, 25, 20]) {
			0 => self.draw(12) as u128,
			1 => {
				const B: [u128; 18] = [
					0x7f, 0x80, 249, 250, 251, 252, 253, 254, 255, 256, 257, 0x7fff, 0x8000,
					0xfffe, 0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000,
				];
				const C: [u128; 12] = [
					0xffff_fffe,
					0xffff_ffff,
					0x1_0000_0000,
					(1 << 63) - 1,
					1 << 63,
					u64::MAX as u128 - 1,
					u64::MAX as u128,
					u64::MAX as u128 + 1,
					(1 << 127) - 1,
					1 << 127,
					u128::MAX - 1,
					u128::MAX,
				];
				let i = self.below(B.len() + C.len());
				if i < B.len() {
					B[i]
				} else {
					C[i - B.len()]
				}
			}
			2 => {
				// uniform number of bits
				let n = self.draw(bits as u64) as u32;
				let raw = self.raw128();
				if n == 0 {
					0
				} else {
					(raw & (u128::MAX >> (128 - n))) | (1u128 << (n - 1))
				}
			}
			_ => {
				let n = self.draw(bits as u64 - 1) as u32;
				let d = self.draw(4) as i128 - 2;
				(1u128 << n).wrapping_add(d as u128)
			}
		};
		if v > max {
			v & max
		} else {
			v
		}
	}
	fn raw128(&mut self) -> u128 {
		let lo = self.draw(u64::MAX) as u128;
		let hi = self.draw(u64::MAX) as u128;
		(hi << 64) | lo
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		if n > 24 {
			let mut s = self.sub();
			(0..n).map(|_| s.draw(255) as u8).collect()
		} else {
			(0..n).map(|_| self.draw(255) as u8).collect()
		}
	}
	/// A container length. `cheap` elements may become long runs crossing the
	/// varint, bit-packing and chunking boundaries.
	pub fn len(&mut self, cheap: bool) -> usize {
		let n = match self.weighted(&[70, 22, 6, 2]) {
			0 => self.draw(4) as usize,
			1 => *self.pick(&[5usize, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40]),
			2 => *self.pick(&[63usize, 64, 65, 100, 127, 128, 129, 249, 250, 251, 252, 255, 256, 257]),
			_ => {
				*self.pick(&[511usize, 1000, 1024, 4095, 4096, 4097, 5000, 65535, 65536, 65537, 70000])
			}
		};
		if n > 40 && (!cheap || small()) {
			return n % 41;
		}
		if (n as i64) > self.budget && n > 4 {
			if cheap && self.budget > 300 && self.rng_is_top() {
				self.budget = 0;
				return n;
			}
			return n % 5;
		}
		self.budget -= n as i64;
		n
	}
	fn rng_is_top(&self) -> bool {
		true
	}
	pub fn choices(&self) -> &[u64] {
		&self.data
	}
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug)]
pub struct Fail {
	pub msg: String,
	pub sig: String,
}

impl Fail {
	pub fn new(msg: impl Into<String>) -> Self {
		Fail {
			msg: msg.into(),
			sig: String::new(),
		}
	}
	pub fn sig(mut self, s: impl Into<String>) -> Self {
		self.sig = s.into();
		self
	}
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
	($($t:tt)*) => { return Err($crate::Fail::new(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
	($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::Fail::new(format!($($t)*))); } };
}

#[derive(Default)]
pub struct Ctx {
	pub nontrivial: bool,
	/// number of individual checks evaluated in this case
	pub evals: u64,
	key: Option<u64>,
	labels: Vec<&'static str>,
	sample: String,
	want_sample: bool,
}

impl Ctx {
	pub fn label(&mut self, l: &'static str) {
		self.labels.push(l);
	}
	pub fn label_if(&mut self, c: bool, l: &'static str) {
		if c {
			self.labels.push(l);
		}
	}
	/// Identity of the case, for counting distinct ones.
	pub fn key(&mut self, bytes: &[u8]) {
		self.key = Some(fnv(bytes) ^ self.key.unwrap_or(0).rotate_left(7));
	}
	pub fn sample(&mut self, f: impl FnOnce() -> String) {
		if self.want_sample {
			let mut s = f();
			if s.len() > 400 {
				let mut n = 400;
				while !s.is_char_boundary(n) {
					n -= 1;
				}
				s.truncate(n);
				s.push('…');
			}
			self.sample = s;
		}
	}
}

type CaseFn = Box<dyn Fn(&mut Src, &mut Ctx) -> Res>;

pub struct Case {
	name: String,
	weight: f64,
	f: CaseFn,
}

pub struct Cases(Vec<Case>);

impl Cases {
	pub fn new() -> Self {
		Cases(Vec::new())
	}
	/// All of another list, under names of their own.
	pub fn merge(&mut self, prefix: &str, weight: f64, other: Cases) {
		self.0.extend(other.0.into_iter().map(|c| Case {
			name: format!("{prefix} {}", c.name),
			weight: c.weight * weight,
			f: c.f,
		}));
	}
	pub fn add(
		&mut self,
		name: impl Into<String>,
		weight: f64,
		f: impl Fn(&mut Src, &mut Ctx) -> Res + 'static,
	) {
		let name = name.into();
		self.0.push(Case {
			name,
			weight,
			f: Box::new(f),
		});
	}
}

thread_local! {
	static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
	static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

fn install_hook() {
	std::alloc::set_alloc_error_hook(|l| panic!("oversize allocation of {} bytes", l.size()));
	std::panic::set_hook(Box::new(|info| {
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		let p = info.payload();
		let msg = p
			.downcast_ref::<&str>()
			.map(|s| s.to_string())
			.or_else(|| p.downcast_ref::<String>().cloned())
			.unwrap_or_else(|| "<panic>".into());
		if !info.can_unwind() {
			eprintln!("panic: {msg} at {loc}");
		}
		PANIC.with(|c| *c.borrow_mut() = format!("panic: {msg} at {loc}"));
	}));
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(v) => Ok(v),
		Err(_) => Err(PANIC.with(|c| c.borrow().clone())),
	}
}

/// Outcome of running the code under test on hostile input.
pub enum Risky<T> {
	Done(T),
	/// It believed a corrupt length and asked for more memory than allowed.
	Oversize,
	Panic(String),
}

pub fn risky<T>(f: impl FnOnce() -> T) -> Risky<T> {
	match no_panic(f) {
		Ok(v) => Risky::Done(v),
		Err(m) if m.contains("oversize allocation") || m.contains("capacity overflow") => {
			Risky::Oversize
		}
		Err(m) => Risky::Panic(m),
	}
}

fn run_case(c: &Case, s: &mut Src, ctx: &mut Ctx) -> Res {
	match catch_unwind(AssertUnwindSafe(|| (c.f)(s, ctx))) {
		_ if mem().is_some() => Ok(()),
		Ok(r) => r,
		Err(_) => Err(Fail::new(PANIC.with(|c| c.borrow().clone()))),
	}
}

// ---------------------------------------------------------------- shrinking

fn try_data(c: &Case, data: &[u64], sig: &str) -> Option<Fail> {
	let mut s = Src::replay(data.to_vec());
	let mut ctx = Ctx::default();
	match run_case(c, &mut s, &mut ctx) {
		Err(f) if f.sig == sig => Some(f),
		_ => None,
	}
}

/// Shrink the choice sequence while the same failure signature persists.
fn shrink(
	mut data: Vec<u64>,
	mut fail: Fail,
	max_runs: usize,
	mut test: impl FnMut(&[u64]) -> Option<Fail>,
) -> (Vec<u64>, Fail) {
	let mut runs = 0usize;
	let t0 = Instant::now();
	let mut attempt = |cand: &[u64], runs: &mut usize| -> Option<Fail> {
		if *runs >= max_runs || t0.elapsed().as_secs() > 20 {
			return None;
		}
		*runs += 1;
		test(cand)
	};
	loop {
		let before = data.clone();
		// drop the tail
		let mut cut = data.len() / 2;
		while cut > 0 && !data.is_empty() {
			let n = data.len().saturating_sub(cut);
			if let Some(f) = attempt(&data[..n], &mut runs) {
				data.truncate(n);
				fail = f;
			} else {
				cut /= 2;
			}
		}
		// delete and zero chunks
		let mut size = (data.len() / 2).clamp(1, 64);
		loop {
			let mut i = 0;
			while i < data.len() {
				let end = (i + size).min(data.len());
				let mut cand = data.clone();
				cand.drain(i..end);
				if let Some(f) = attempt(&cand, &mut runs) {
					data = cand;
					fail = f;
					continue;
				}
				if data[i..end].iter().any(|x| *x != 0) {
					let mut cand = data.clone();
					cand[i..end].iter_mut().for_each(|x| *x = 0);
					if let Some(f) = attempt(&cand, &mut runs) {
						data = cand;
						fail = f;
					}
				}
				i += size;
			}
			if size == 1 {
				break;
			}
			size /= 2;
		}
		// lower single values
		for i in 0..data.len() {
			let (mut lo, mut hi) = (0u64, data[i]);
			let mut cand = data.clone();
			while lo < hi {
				let mid = lo + (hi - lo) / 2;
				cand[i] = mid;
				if let Some(f) = attempt(&cand, &mut runs) {
					data = cand.clone();
					fail = f;
					hi = mid;
				} else {
					lo = mid + 1;
				}
			}
		}
		if data == before || runs >= max_runs {
			return (data, fail);
		}
	}
}

// ---------------------------------------------------------------- json

pub fn jstr(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
				let _ = write!(o, "\\u{:04x}", c as u32);
			}
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn esc(s: &str) -> String {
	s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
	let mut o = String::new();
	let mut it = s.chars();
	while let Some(c) = it.next() {
		if c == '\\' {
			match it.next() {
				Some('n') => o.push('\n'),
				Some('t') => o.push('\t'),
				Some(c) => o.push(c),
				None => {}
			}
		} else {
			o.push(c)
		}
	}
	o
}

// ---------------------------------------------------------------- driver

struct Args(Vec<String>);
impl Args {
	fn get(&self, k: &str) -> Option<&str> {
		self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
	}
	fn num(&self, k: &str, d: u64) -> u64 {
		self.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
	}
}

fn iter_seed(seed: u64, name: &str, i: u64) -> u64 {
	mix(seed ^ mix(fnv(name.as_bytes()) ^ mix(i)))
}

/// Entry point of every check binary.
///
/// * `run --seed S --iters N --workers W --out FILE --replays DIR`
/// * `worker ...` internal
/// * `replay FILE`
pub fn main(prop: &str, build: impl FnOnce(&str) -> Cases) -> ! {
	install_hook();
	// The checks of memory safety run the cases of other properties.
	let owner = std::env::var("VERIF_PROP").ok().filter(|s| !s.is_empty());
	let prop = owner.as_deref().unwrap_or(prop);
	let args = Args(std::env::args().collect());
	let tier = args.get("--tier").unwrap_or("quick").to_string();
	let cases = build(&tier);
	if !cfg!(miri) {
		let mut seen = HashSet::new();
		for c in &cases.0 {
			assert!(seen.insert(c.name.clone()), "duplicate case {}", c.name);
		}
	}
	let code = match args.0.get(1).map(|s| s.as_str()) {
		Some("worker") => worker(&cases, &args),
		Some("one") => one(&cases, &args),
		Some("replay") => replay(prop, &cases, &args),
		Some("list") => {
			for c in &cases.0 {
				println!("{} {}", c.weight, c.name);
			}
			0
		}
		_ => run(prop, &cases, &args),
	};
	std::process::exit(code)
}

fn iters_of(c: &Case, base: u64) -> u64 {
	((base as f64 * c.weight).round() as u64).max(1)
}

/// A worker's progress file: case, iteration, sequence number, heartbeat.
const PROGRESS: usize = 32;

fn worker(cases: &Cases, args: &Args) -> i32 {
	let seed = args.num("--seed", 1);
	let base = args.num("--iters", 100);
	let k = args.num("--k", 0);
	let n = args.num("--n", 1);
	let skip_upto = args.num("--from", 0);
	let only = args.get("--only");
	let mut prog = std::fs::File::create(args.get("--progress").unwrap()).unwrap();
	let mut out = std::io::BufWriter::new(std::io::stdout().lock());
	let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
	let mut hashes: HashSet<u64> = HashSet::new();
	let (mut evals, mut nontriv, mut runs) = (0u64, 0u64, 0u64);
	let mut sigs: HashSet<(usize, String)> = HashSet::new();
	let mut reported = 0;
	let (mut seq, mut turn) = (0u64, 0u64);
	// A sample of the runs, the same whatever the number of workers.
	let take = args.num("--sample", 0);
	let without: Vec<&str> = args.get("--without").unwrap_or("").split(',').filter(|s| !s.is_empty()).collect();
	let total: u64 = cases.0.iter().map(|c| iters_of(c, base)).sum();
	let picked = |ci: usize, i: u64| {
		take == 0 || mix(seed ^ mix(ci as u64 ^ mix(i))) as u128 * (total as u128) < (take as u128) << 64
	};
	for (ci, c) in cases.0.iter().enumerate() {
		if let Some(o) = only {
			if !c.name.contains(o) {
				continue;
			}
		}
		if without.iter().any(|w| c.name.contains(w)) {
			continue;
		}
		let mut samples = 0;
		for i in (0..iters_of(c, base)).filter(|i| picked(ci, *i)) {
			turn += 1;
			if (if take > 0 { turn } else { i + ci as u64 }) % n != k {
				continue;
			}
			seq += 1;
			if seq <= skip_upto {
				continue;
			}
			let mut beat = |n: u64| {
				let mut buf = [0u8; PROGRESS];
				for (at, x) in [ci as u64, i, seq, n].into_iter().enumerate() {
					buf[8 * at..8 * at + 8].copy_from_slice(&x.to_le_bytes());
				}
				prog.seek(SeekFrom::Start(0)).unwrap();
				prog.write_all(&buf).unwrap();
			};
			beat(0);
			let mut s = Src::random(iter_seed(seed, &c.name, i));
			let mut ctx = Ctx {
				want_sample: samples < 1,
				..Default::default()
			};
			let r = run_case(c, &mut s, &mut ctx);
			runs += 1;
			evals += ctx.evals.max(1);
			for l in &ctx.labels {
				*labels.entry(l).or_default() += 1;
			}
			if ctx.nontrivial {
				nontriv += 1;
				let key = ctx.key.unwrap_or_else(|| {
					let mut h = 0u64;
					for d in &s.data {
						h = mix(h ^ *d);
					}
					h
				});
				hashes.insert(mix(key ^ fnv(c.name.as_bytes())));
				if !ctx.sample.is_empty() {
					samples += 1;
					let _ = writeln!(out, "S\t{}\t{}", esc(&c.name), esc(&ctx.sample));
				}
			}
			if let Err(f) = r {
				if reported < 12 && sigs.insert((ci, f.sig.clone())) {
					reported += 1;
					let sig = f.sig.clone();
					// a failure must reproduce from its choices
					let data = s.data.clone();
					match try_data(c, &data, &sig) {
						None => {
							let _ = writeln!(
								out,
								"N\t{}\t{}",
								esc(&c.name),
								esc(&format!("iteration {i}: {}", f.msg))
							);
						}
						Some(f) => {
							let mut n = 0;
							let (d, f) = shrink(data, f, 3000, |cand| {
								n += 1;
								beat(n);
								try_data(c, cand, &sig)
							});
							let ds: Vec<String> = d.iter().map(|x| x.to_string()).collect();
							let _ = writeln!(
								out,
								"F\t{}\t{}\t{}\t{}",
								esc(&c.name),
								esc(&sig),
								esc(&f.msg),
								ds.join(",")
							);
						}
					}
					let _ = out.flush();
				}
			}
		}
	}
	for (l, n) in labels {
		let _ = writeln!(out, "L\t{l}\t{n}");
	}
	let _ = writeln!(out, "C\t{runs}\t{evals}\t{nontriv}");
	let mut hs: Vec<u8> = Vec::with_capacity(hashes.len() * 8);
	for h in hashes {
		hs.extend_from_slice(&h.to_le_bytes());
	}
	std::fs::write(args.get("--hashes").unwrap(), hs).unwrap();
	let _ = writeln!(out, "END");
	let _ = out.flush();
	0
}

/// Run one case from choices on stdin; exit 0 pass, 3 fail, else crash.
fn one(cases: &Cases, args: &Args) -> i32 {
	let ci = args.num("--case", 0) as usize;
	let c = &cases.0[ci];
	let mut txt = String::new();
	std::io::stdin().read_to_string(&mut txt).unwrap();
	let mut s = match args.get("--iter") {
		Some(i) => {
			Src::random(iter_seed(args.num("--seed", 1), &c.name, i.parse().unwrap()))
		}
		None => Src::replay(parse_choices(txt.trim())),
	};
	s.dump = args.get("--dump").map(|p| std::fs::File::create(p).unwrap());
	let mut ctx = Ctx::default();
	match run_case(c, &mut s, &mut ctx) {
		Ok(()) => 0,
		Err(f) => {
			println!("{}", f.msg);
			3
		}
	}
}

fn parse_choices(s: &str) -> Vec<u64> {
	s.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap_or(0)).collect()
}

fn limited(exe: &std::path::Path) -> Command {
	// How to run under a memory checker: a command that takes our arguments.
	if let Ok(r) = std::env::var("VERIF_RUNNER") {
		let mut words = r.split_whitespace();
		let mut c = Command::new(words.next().unwrap());
		c.args(words);
		return c;
	}
	// Cap the address space, so that a runaway allocation ends this process only;
	// but a checker's shadow memory needs it.
	let cap = if mem().is_some() { "" } else { "ulimit -v 3000000; " };
	let mut c = Command::new("/bin/sh");
	c.arg("-c").arg(format!("{cap}ulimit -c 0; exec \"$0\" \"$@\"")).arg(exe);
	c
}

fn replay(prop: &str, cases: &Cases, args: &Args) -> i32 {
	let file = args.0.get(2).expect("replay FILE");
	let txt = std::fs::read_to_string(file).expect("replay file");
	let get = |k: &str| -> String {
		txt.lines()
			.find_map(|l| l.strip_prefix(&format!("{k}: ")))
			.map(unesc)
			.unwrap_or_default()
	};
	let name = get("case");
	let Some(ci) = cases.0.iter().position(|c| c.name == name) else {
		println!("no case named {name}");
		return 2;
	};
	let mut cmd = limited(&std::env::current_exe().unwrap());
	cmd.arg("one").arg("--tier").arg(args.get("--tier").unwrap_or("quick"));
	cmd.arg("--case").arg(ci.to_string());
	if !get("iter").is_empty() {
		cmd.arg("--iter").arg(get("iter")).arg("--seed").arg(get("seed"));
	}
	let mut ch = cmd.stdin(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
	ch.stdin.take().unwrap().write_all(get("choices").as_bytes()).unwrap();
	let mut err = Vec::new();
	ch.stderr.take().unwrap().read_to_end(&mut err).unwrap();
	let st = ch.wait().unwrap();
	let err = String::from_utf8_lossy(&err);
	eprint!("{err}");
	if mem().is_some() && undefined(&err).is_none() {
		println!("passes");
		return 0;
	}
	match st.code() {
		Some(0) => {
			println!("passes");
			0
		}
		c => {
			println!("VIOLATION property={prop} replay={file} (exit {c:?})");
			1
		}
	}
}

fn run(prop: &str, cases: &Cases, args: &Args) -> i32 {
	let t0 = Instant::now();
	let seed = args.num("--seed", 1);
	let base = args.num("--iters", 100);
	let w = args.num("--workers", 8);
	let limit = args.num("--time-limit", 700);
	let out = args.get("--out").unwrap_or("/dev/stdout").to_string();
	let replays = args.get("--replays").unwrap_or("/tmp").to_string();
	let config = args.get("--config").unwrap_or("").to_string();
	let exe = std::env::current_exe().unwrap();
	let scratch = format!("{}/.w{}", replays, std::process::id());
	std::fs::create_dir_all(&scratch).unwrap();
	let spawn = |k: u64, from: u64, tag: &str| {
		let mut c = limited(&exe);
		c.arg("worker");
		for (a, v) in [
			("--seed", seed.to_string()),
			("--iters", base.to_string()),
			("--k", k.to_string()),
			("--n", w.to_string()),
			("--from", from.to_string()),
			("--tier", args.get("--tier").unwrap_or("quick").to_string()),
			("--progress", format!("{scratch}/p{k}")),
			("--hashes", format!("{scratch}/h{k}{tag}")),
		] {
			c.arg(a).arg(v);
		}
		for a in ["--only", "--sample", "--without"] {
			if let Some(o) = args.get(a) {
				c.arg(a).arg(o);
			}
		}
		let f = std::fs::File::create(format!("{scratch}/o{k}{tag}")).unwrap();
		if mem().is_some() {
			c.stderr(Stdio::null());
		}
		c.stdin(Stdio::null()).stdout(f).spawn().unwrap()
	};
	let mut kids: Vec<_> = (0..w).map(|k| (k, 0u32, spawn(k, 0, "_0"))).collect();
	let mut outs: Vec<String> = Vec::new();
	let mut hashfiles: Vec<String> = Vec::new();
	let mut crashes: Vec<(usize, u64, String)> = Vec::new();
	// A worker that makes no progress for this long is taken to be stuck.
	let stall = args.num("--stall", 60);
	let mut beats: BTreeMap<u64, (Vec<u8>, Instant)> = BTreeMap::new();
	let mut last_look = Instant::now();
	let mut inconclusive = String::new();
	while !kids.is_empty() {
		let mut i = 0;
		let mut progressed = false;
		while i < kids.len() {
			let st = kids[i].2.try_wait().unwrap();
			match st {
				None => i += 1,
				Some(st) => {
					progressed = true;
					let (k, gen_, _) = kids.swap_remove(i);
					outs.push(format!("{scratch}/o{k}_{gen_}"));
					hashfiles.push(format!("{scratch}/h{k}_{gen_}"));
					if !st.success() {
						let p = std::fs::read(format!("{scratch}/p{k}")).unwrap_or_default();
						if p.len() == PROGRESS {
							let rd = |o: usize| {
								u64::from_le_bytes(p[o..o + 8].try_into().unwrap())
							};
							crashes.push((rd(0) as usize, rd(8), format!("{st}")));
							if gen_ < 4 {
								let nx = gen_ + 1;
								kids.push((k, nx, spawn(k, rd(16), &format!("_{nx}"))));
							}
						} else {
							inconclusive = format!("worker {k} failed to start: {st}");
						}
					}
				}
			}
		}
		if last_look.elapsed().as_secs() >= 1 {
			last_look = Instant::now();
			for (k, gen_, c) in &mut kids {
				let p = std::fs::read(format!("{scratch}/p{k}")).unwrap_or_default();
				let seen = beats.entry(*k).or_insert_with(|| (Vec::new(), Instant::now()));
				if seen.0 != p || p.len() != PROGRESS {
					*seen = (p, Instant::now());
				} else if seen.1.elapsed().as_secs() > stall {
					// ends as a crash below, and is not started again
					*gen_ = 4;
					let _ = c.kill();
				}
			}
		}
		if t0.elapsed().as_secs() > limit {
			for (_, _, c) in &mut kids {
				let _ = c.kill();
				let _ = c.wait();
			}
			if mem().is_some() {
				// what was not reached was not explored, no more
				inconclusive.clear();
				break;
			}
			inconclusive = format!("time limit of {limit} s reached");
			for (k, ..) in &kids {
				if let Ok(p) = std::fs::read(format!("{scratch}/p{k}")) {
					if p.len() == PROGRESS {
						let ci = u64::from_le_bytes(p[..8].try_into().unwrap()) as usize;
						let it = u64::from_le_bytes(p[8..16].try_into().unwrap());
						let _ = write!(
							inconclusive,
							"; in case {} iteration {it}",
							cases.0[ci].name
						);
					}
				}
			}
			break;
		}
		if !progressed {
			std::thread::sleep(std::time::Duration::from_millis(5));
		}
	}

	struct V {
		case: String,
		sig: String,
		msg: String,
		choices: String,
		iter: Option<u64>,
	}
	let mut fails: Vec<V> = Vec::new();
	let mut labels: BTreeMap<String, u64> = BTreeMap::new();
	let mut samples: Vec<(String, String)> = Vec::new();
	let (mut runs, mut evals, mut nontriv) = (0u64, 0u64, 0u64);
	for o in &outs {
		let txt = String::from_utf8_lossy(&std::fs::read(o).unwrap_or_default()).into_owned();
		for line in txt.lines() {
			let p: Vec<&str> = line.split('\t').collect();
			match p[0] {
				"S" if p.len() == 3 => samples.push((unesc(p[1]), unesc(p[2]))),
				"L" if p.len() == 3 => {
					*labels.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap_or(0)
				}
				"C" if p.len() == 4 => {
					runs += p[1].parse::<u64>().unwrap_or(0);
					evals += p[2].parse::<u64>().unwrap_or(0);
					nontriv += p[3].parse::<u64>().unwrap_or(0);
				}
				"N" if p.len() == 3 => {
					inconclusive = format!("not reproducible: {}: {}", unesc(p[1]), unesc(p[2]))
				}
				"F" if p.len() == 5 => fails.push(V {
					case: unesc(p[1]),
					sig: unesc(p[2]),
					msg: unesc(p[3]),
					choices: p[4].into(),
					iter: None,
				}),
				_ => {}
			}
		}
	}
	// Crashed or stuck workers: reproduce the very case in a process of its own.
	let again = |ci: usize, iter: Option<u64>, choices: &str, dump: Option<&str>| -> (Option<Option<i32>>, String, String) {
		let mut c = limited(&exe);
		c.args(["one", "--case", &ci.to_string(), "--seed", &seed.to_string()]);
		c.args(["--tier", args.get("--tier").unwrap_or("quick")]);
		if let Some(i) = iter {
			c.args(["--iter", &i.to_string()]);
		}
		if let Some(d) = dump {
			c.args(["--dump", d]);
		}
		let file = |n: &str| format!("{scratch}/{n}");
		std::fs::write(file("in"), choices).unwrap();
		let mut ch = c
			.stdin(std::fs::File::open(file("in")).unwrap())
			.stdout(std::fs::File::create(file("out")).unwrap())
			.stderr(std::fs::File::create(file("err")).unwrap())
			.spawn()
			.unwrap();
		let t1 = Instant::now();
		let ended = loop {
			match ch.try_wait().unwrap() {
				Some(st) => break Some(st.code()),
				None if t1.elapsed().as_secs() > stall => {
					let _ = ch.kill();
					let _ = ch.wait();
					break None;
				}
				None => std::thread::sleep(std::time::Duration::from_millis(2)),
			}
		};
		let rd = |n: &str| String::from_utf8_lossy(&std::fs::read(file(n)).unwrap_or_default()).into_owned();
		(ended, rd("out"), rd("err"))
	};
	let mut stuck = HashSet::new();
	let mut shrunk: HashSet<(usize, bool)> = HashSet::new();
	for (ci, it, st) in crashes {
		if stuck.contains(&ci) || stuck.len() >= 2 {
			continue;
		}
		let dump = format!("{scratch}/dump");
		let (ended, txt, err) = again(ci, Some(it), "", Some(&dump));
		let ub = undefined(&err);
		let mut v = V {
			case: cases.0[ci].name.clone(),
			sig: "crash".into(),
			msg: match &ub {
				Some(m) => m.clone(),
				None => format!("the process was killed by the operation: {st}"),
			},
			choices: String::new(),
			iter: Some(it),
		};
		if mem().is_some() {
			if ub.is_none() {
				// not what is looked for here
				*labels.entry("ended otherwise".into()).or_default() += 1;
				continue;
			}
			v.sig = "undefined".into();
		}
		let crashed = |e: &Option<Option<i32>>| matches!(e, Some(None | Some(134)));
		if (mem().is_some() || crashed(&ended)) && shrunk.insert((ci, ub.is_some())) {
			// Shrink the choices it made, one process per attempt.
			let d = std::fs::read(&dump).unwrap_or_default();
			let d: Vec<u64> = d.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
			let join = |d: &[u64]| d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
			let test = |d: &[u64]| {
				let (e, _, err) = again(ci, None, &join(d), None);
				let u = undefined(&err);
				if u.is_some() != ub.is_some() || (mem().is_none() && !crashed(&e)) {
					return None;
				}
				Some(Fail::new(u.unwrap_or_else(|| v.msg.clone())))
			};
			if let Some(f) = test(&d) {
				let (d, f) = shrink(d, f, 400, test);
				v.choices = join(&d);
				v.iter = None;
				v.msg = f.msg;
			}
		}
		match ended {
			_ if mem().is_some() => fails.push(v),
			None => {
				stuck.insert(ci);
				v.sig = "stuck".into();
				v.msg = format!("the operation does not end (given up after {stall} s, twice)");
				fails.push(v);
			}
			Some(None | Some(134)) => fails.push(v),
			Some(Some(3)) => {
				// It fails by itself; the worker was lost while shrinking it.
				v.sig = "unshrunk".into();
				v.msg = txt.trim().to_string();
				fails.push(v);
			}
			_ => {
				inconclusive = format!(
					"worker ended with {st} in case {} iteration {it}, not reproducible",
					cases.0[ci].name
				);
			}
		}
	}
	let mut all: Vec<u64> = Vec::new();
	for h in &hashfiles {
		if let Ok(b) = std::fs::read(h) {
			all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
		}
	}
	all.sort_unstable();
	all.dedup();
	let _ = std::fs::remove_dir_all(&scratch);

	fails.sort_by(|a, b| {
		(&a.case, &a.sig, a.choices.len(), &a.choices).cmp(&(&b.case, &b.sig, b.choices.len(), &b.choices))
	});
	fails.dedup_by(|b, a| a.case == b.case && a.sig == b.sig);
	let mut js = String::from("{");
	let _ = write!(
		js,
		"\"config\":{},\"runs\":{runs},\"evaluations\":{evals},\"nontrivial\":{nontriv},\"distinct_nontrivial\":{},\"cases\":{},\"wall_s\":{:.2},\"inconclusive\":{}",
		jstr(&config),
		all.len(),
		cases.0.len(),
		t0.elapsed().as_secs_f64(),
		jstr(&inconclusive)
	);
	js.push_str(",\"labels\":{");
	for (i, (l, n)) in labels.iter().enumerate() {
		let _ = write!(js, "{}{}:{n}", if i > 0 { "," } else { "" }, jstr(l));
	}
	js.push_str("},\"samples\":[");
	samples.sort();
	samples.dedup_by(|a, b| a.0 == b.0);
	let step = (samples.len() / 12).max(1);
	let mut first = true;
	for (c, s) in samples.iter().step_by(step).take(12) {
		let _ = write!(js, "{}{}", if first { "" } else { "," }, jstr(&format!("{c}: {s}")));
		first = false;
	}
	js.push_str("],\"failures\":[");
	for (i, f) in fails.iter().enumerate() {
		let safe: String = f
			.case
			.chars()
			.map(|c| if c.is_ascii_alphanumeric() { c } else { '_' })
			.take(60)
			.collect();
		let tag = config.replace('/', "_");
		let path = format!("{replays}/{prop}-{tag}-{safe}-{:08x}.replay", fnv(format!("{}{}", f.case, f.sig).as_bytes()) as u32);
		let mut body = format!(
			"property: {prop}\nconfig: {config}\ncase: {}\nsignature: {}\nchoices: {}\n",
			esc(&f.case),
			esc(&f.sig),
			f.choices
		);
		if let Some(it) = f.iter {
			let _ = write!(body, "iter: {it}\nseed: {seed}\n");
		}
		let _ = write!(body, "message: {}\n", esc(&f.msg));
		let _ = std::fs::write(&path, body);
		let _ = write!(
			js,
			"{}{{\"case\":{},\"sig\":{},\"msg\":{},\"replay\":{}}}",
			if i > 0 { "," } else { "" },
			jstr(&f.case),
			jstr(&f.sig),
			jstr(&f.msg),
			jstr(&path)
		);
	}
	js.push_str("]}\n");
	std::fs::write(&out, js).unwrap();
	0
}

pub fn hex(b: &[u8]) -> String {
	let mut s = String::new();
	for (i, x) in b.iter().enumerate() {
		if i == 96 {
			let _ = write!(s, "…({} bytes)", b.len());
			break;
		}
		let _ = write!(s, "{x:02x}");
	}
	s
}

//! Per-case context: randomness, trace, statistics.
use crate::rng::{Fnv, Rng};
use std::collections::BTreeMap;

pub struct Ctx {
    pub rng: Rng,
    pub index: u64,
    /// keep the full textual trace (replays and samples only)
    pub verbose: bool,
    pub thorough: bool,
    /// scale factor for slow builds (miri): small cases
    pub small: bool,
    pub trace: Vec<String>,
    pub sig: Fnv,
    pub ops: u64,
    /// set by the property when the case was non-trivial by its rule
    pub nontrivial: bool,
    /// of what the case stored, to compare builds
    pub digest: Option<u64>,
    pub stats: BTreeMap<&'static str, u64>,
    next_val: u64,
}

pub type R<T = ()> = Result<T, String>;

impl Ctx {
    pub fn new(seed: u64, index: u64) -> Self {
        Ctx {
            rng: Rng::new(seed),
            index,
            verbose: false,
            thorough: false,
            small: false,
            trace: Vec::new(),
            sig: Fnv::new(),
            ops: 0,
            nontrivial: false,
            digest: None,
            stats: BTreeMap::new(),
            next_val: 0,
        }
    }
    pub fn stat(&mut self, name: &'static str, n: u64) {
        *self.stats.entry(name).or_insert(0) += n;
    }
    pub fn max(&mut self, name: &'static str, n: u64) {
        let e = self.stats.entry(name).or_insert(0);
        *e = (*e).max(n);
    }
    /// record an operation
    pub fn op(&mut self, name: &'static str, arg: &[u8], text: impl FnOnce() -> String) {
        self.ops += 1;
        self.stat(name, 1);
        self.sig.add(name.as_bytes());
        self.sig.add(if self.small { &arg[..arg.len().min(6)] } else { arg });
        if self.verbose {
            let t = format!("{} {} {}", name, hex(arg), text());
            self.trace.push(t);
        }
    }
    pub fn note(&mut self, text: impl FnOnce() -> String) {
        if self.verbose {
            let t = text();
            self.trace.push(t);
        }
    }
    /// in interpreted runs the interpreter is the oracle: skip most of the comparisons
    pub fn skip(&mut self) -> bool {
        self.small && !self.rng.chance(1, 4)
    }
    /// a fresh number, unique within the case
    pub fn fresh(&mut self) -> u64 {
        self.next_val += 1;
        self.next_val
    }
}

/// short printable form of bytes
pub fn hex(data: &[u8]) -> String {
    let mut s = String::new();
    let printable = !data.is_empty() && data.iter().all(|c| (0x20..0x7f).contains(c));
    let n = data.len().min(48);
    if printable {
        s.push('"');
        s.push_str(std::str::from_utf8(&data[..n]).unwrap());
        s.push('"');
    } else {
        s.push_str("0x");
        for b in &data[..n] {
            s.push_str(&format!("{:02x}", b));
        }
    }
    if data.len() > n {
        s.push_str(&format!("..({} bytes, fnv {:x})", data.len(), crate::rng::fnv(data)));
    }
    s
}

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)) } };
}

pub fn es<E: std::fmt::Debug>(what: &'static str) -> impl FnOnce(E) -> String {
    move |e| {
        let text = format!("{:?}", e);
        let text: String = text.lines().next().unwrap_or("").to_string();
        format!("{}: unexpected error {}", what, text)
    }
}

//! Adversarial generators for keys, values and tree contents.
use crate::ctx::Ctx;
use crate::rng::Rng;
use std::collections::BTreeMap;

pub type Model = BTreeMap<Vec<u8>, Vec<u8>>;

/// sizes around every boundary of the representation: empty, pointer size (inline / arc),
/// 126..129 (7 bit length header), 255..257 (u8 record size), and beyond
pub const EDGE: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 119, 120, 121, 122, 123, 124,
    125, 126, 127, 128, 129, 130, 200, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511,
    512, 513, 1000,
];

#[derive(Clone)]
pub struct KeyGen {
    pub profile: usize,
    segs: Vec<Vec<u8>>,
    alphabet: Vec<u8>,
    maxlen: usize,
    big: bool,
    mini: bool,
}

pub const PROFILES: &[&str] = &[
    "ab", "edge-bytes", "fanout", "long-segments", "words", "counter", "random", "deep", "huge", "mixed", "mutate",
];

const WORDS: &[&str] = &[
    "std", "core", "alloc", "collections", "fmt", "io", "BTreeMap", "BTreeSet", "HashMap", "::", "/", ".", "a", "an",
    "ant", "anthem", "roman", "romane", "romanus", "romulus", "rubens", "ruber", "rubicon", "rubicundus",
];

impl KeyGen {
    pub fn new(rng: &mut Rng) -> Self {
        let w = [22, 10, 12, 16, 6, 5, 6, 5, 2, 10, 6];
        let profile = rng.weighted(&w);
        Self::with_profile(rng, profile)
    }
    pub fn with_profile(rng: &mut Rng, profile: usize) -> Self {
        let mut segs: Vec<Vec<u8>> = Vec::new();
        let n = rng.range(2, 5);
        for _ in 0..n {
            let len = match profile {
                8 => *rng.pick(&[5000usize, 65535, 65536, 70000, 1000, 300]),
                2 => *rng.pick(&[0usize, 1, 1, 2, 7, 8, 9, 127, 128, 129]),
                _ => {
                    if rng.chance(1, 2) {
                        *rng.pick(&[1usize, 7, 8, 9, 126, 127, 128, 129])
                    } else {
                        *rng.pick(EDGE)
                    }
                }
            };
            let s = match rng.below(3) {
                0 => vec![*rng.pick(&[b'a', b'b', 0u8, 0xff, 0x80]); len],
                1 => {
                    let c = rng.byte();
                    (0..len).map(|i| c.wrapping_add(i as u8)).collect()
                }
                _ => rng.bytes(len),
            };
            // a second segment that differs only at its end or in its length
            if !s.is_empty() && rng.chance(1, 2) {
                let mut t = s.clone();
                match rng.below(3) {
                    0 => *t.last_mut().unwrap() ^= 1,
                    1 => {
                        t.pop();
                    }
                    _ => t.push(rng.byte()),
                }
                segs.push(t);
            }
            segs.push(s);
        }
        let alphabet = match profile {
            1 => vec![0x00, 0x01, 0x7f, 0x80, 0xfe, 0xff],
            _ => {
                let k = rng.range(1, 3);
                (0..k).map(|i| b'a' + i as u8).collect()
            }
        };
        KeyGen {
            profile,
            segs,
            alphabet,
            maxlen: rng.range(1, 7),
            big: rng.chance(1, 8),
            mini: false,
        }
    }

    /// keys for interpreted runs
    pub fn mini(mut self) -> Self {
        let mut long = false;
        for s in self.segs.iter_mut() {
            s.truncate(if long { 10 } else { 129 });
            long |= s.len() > 10;
        }
        self.big = false;
        self.mini = true;
        self
    }

    pub fn key(&self, rng: &mut Rng) -> Vec<u8> {
        let mut k = self.key_of_any_length(rng);
        if self.mini {
            k.truncate(150);
        }
        k
    }

    fn key_of_any_length(&self, rng: &mut Rng) -> Vec<u8> {
        let profile = match self.profile {
            9 => *rng.pick(&[0usize, 1, 2, 3, 6]),
            10 => 3,
            p => p,
        };
        match profile {
            0 | 1 => {
                let n = rng.range(0, self.maxlen);
                (0..n).map(|_| *rng.pick(&self.alphabet)).collect()
            }
            2 => {
                let mut k = Vec::new();
                if rng.chance(1, 2) {
                    k.extend_from_slice(&self.segs[0]);
                }
                if rng.chance(9, 10) {
                    k.push(rng.byte());
                }
                if rng.chance(1, 3) {
                    k.push(rng.byte() & 3);
                }
                k
            }
            3 | 8 => {
                let mut k = Vec::new();
                let n = if profile == 8 { rng.range(0, 2) } else { rng.range(0, 4) };
                for _ in 0..n {
                    k.extend_from_slice(rng.pick(&self.segs));
                }
                for _ in 0..rng.range(0, 2) {
                    k.push(*rng.pick(b"ab"));
                }
                k
            }
            4 => {
                let mut k = Vec::new();
                for _ in 0..rng.range(0, 4) {
                    k.extend_from_slice(rng.pick(WORDS).as_bytes());
                }
                k
            }
            5 => {
                let m = if self.big { 2000 } else { 70 };
                let n = rng.below(m) as u64 * *rng.pick(&[1u64, 1, 1, 255, 256, 65536]);
                match self.maxlen & 1 {
                    0 => n.to_be_bytes().to_vec(),
                    _ => (n as u32).to_be_bytes().to_vec(),
                }
            }
            6 => {
                let n = rng.range(0, 12);
                rng.bytes(n)
            }
            _ => {
                let m = if self.big { 250 } else { 40 };
                let n = rng.below(m);
                let mut k = vec![b'a'; n];
                if rng.chance(1, 4) {
                    k.push(b'b');
                }
                k
            }
        }
    }

    /// a key related to the existing ones: existing, truncated, extended, neighbour, or fresh
    pub fn query(&self, rng: &mut Rng, m: &Model) -> Vec<u8> {
        if m.is_empty() || rng.chance(1, 5) {
            return self.key(rng);
        }
        let mut k = pick_key(rng, m);
        match rng.below(8) {
            0..=2 => {}
            3 | 4 => {
                let n = rng.range(0, k.len());
                k.truncate(n);
            }
            5 => {
                let c = match rng.below(4) {
                    0 => 0u8,
                    1 => 0xff,
                    2 => b'a',
                    _ => rng.byte(),
                };
                k.push(c);
                if rng.chance(1, 3) {
                    k.extend_from_slice(rng.pick(&self.segs));
                }
            }
            6 => {
                if let Some(l) = k.last_mut() {
                    *l = if rng.chance(1, 2) { l.wrapping_add(1) } else { l.wrapping_sub(1) };
                }
            }
            _ => {
                // cut exactly at a branching point: common prefix with another key
                let o = pick_key(rng, m);
                let n = k.iter().zip(o.iter()).take_while(|(a, b)| a == b).count();
                k.truncate(n);
            }
        }
        k
    }
}

pub fn pick_key(rng: &mut Rng, m: &Model) -> Vec<u8> {
    // a bounded walk; random start through a random probe key
    let n = m.len();
    let i = rng.below(n.min(64));
    if n > 64 {
        let probe = vec![rng.byte()];
        if let Some((k, _)) = m.range(probe..).nth(i) {
            return k.clone();
        }
    }
    m.keys().nth(i % n).unwrap().clone()
}

/// a value; unique within the case unless shorter than two bytes
pub fn value(ctx: &mut Ctx) -> Vec<u8> {
    let n = ctx.fresh();
    let rng = &mut ctx.rng;
    let len = match rng.below(20) {
        0..=1 => 0,
        2..=9 => rng.range(1, 9),
        10..=17 => *rng.pick(EDGE),
        18 => rng.range(0, 300),
        _ => {
            if rng.chance(1, 20) {
                *rng.pick(&[4096usize, 65535, 65536, 70000])
            } else {
                *rng.pick(&[127usize, 128])
            }
        }
    };
    let len = if ctx.small { len.min(140) } else { len };
    let id = n.to_be_bytes();
    let fill = if ctx.rng.chance(1, 2) { 7 } else { ctx.rng.byte() };
    let mut v = vec![fill; len];
    if !ctx.small {
        for (i, b) in v.iter_mut().enumerate() {
            *b = fill.wrapping_add((i as u8).wrapping_mul(3));
        }
    }
    // the distinguishing bytes at the start, the end or in the middle, so values may share any part
    let k = len.min(3);
    let at = match ctx.rng.below(6) {
        0..=2 => 0,
        3 | 4 => len - k,
        _ => ctx.rng.below(len - k + 1),
    };
    v[at..at + k].copy_from_slice(&id[8 - k..]);
    v
}

/// tree content with the given generator, at most n entries
pub fn content(ctx: &mut Ctx, g: &KeyGen, n: usize) -> Model {
    let mut m = Model::new();
    for _ in 0..n {
        let k = g.key(&mut ctx.rng);
        let v = value(ctx);
        m.insert(k, v);
    }
    m
}

/// content related to an existing one: shared keys, neighbours, prefixes, extensions, and fresh ones
pub fn related(ctx: &mut Ctx, g: &KeyGen, base: &Model, n: usize) -> Model {
    let mut m = Model::new();
    for _ in 0..n {
        let k = g.query(&mut ctx.rng, base);
        let v = if ctx.rng.chance(1, 6) && !base.is_empty() {
            let k = pick_key(&mut ctx.rng, base);
            base[&k].clone()
        } else {
            value(ctx)
        };
        m.insert(k, v);
    }
    m
}

pub fn show(m: &Model) -> String {
    let mut s = String::from("{");
    for (i, (k, v)) in m.iter().enumerate() {
        if i == 40 {
            s.push_str(&format!(" ..{} entries", m.len()));
            break;
        }
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&crate::ctx::hex(k));
        s.push_str("=>");
        if v.len() > 12 {
            s.push_str(&format!("[{} bytes]", v.len()));
        } else {
            s.push_str(&crate::ctx::hex(v));
        }
    }
    s.push('}');
    s
}

pub fn scan<'a>(m: &'a Model, p: &'a [u8]) -> impl Iterator<Item = (&'a Vec<u8>, &'a Vec<u8>)> + 'a {
    m.range(p.to_vec()..).take_while(move |(k, _)| k.starts_with(p))
}

//! C22: blobs, slices and copies of them, against plain byte vectors.
use crate::ctx::{es, hex, Ctx, R};
use crate::rng::Rng;
use crate::run::guarded;
use crate::suites::tmpfile;
use crate::{ensure, fail};
use radixdb::store::{Blob, BlobStore, MemStore, PagedFileStore};
use radixdb::RadixTree;
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::sync::Arc;

fn hash(x: &(impl Hash + ?Sized)) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn content(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 2, 3, 7, 8, 9, 16, 31, 64, 127, 128, 200, 1000]);
    match r.below(4) {
        0 => vec![r.byte(); n],
        1 => (0..n).map(|_| *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff])).collect(),
        _ => r.bytes(n),
    }
}

static STATIC: [u8; 300] = {
    let mut a = [0u8; 300];
    let mut i = 0;
    while i < 300 {
        a[i] = (i * 7 % 251) as u8;
        i += 1;
    }
    a
};

/// where blobs come from
pub struct Sources {
    mem: MemStore,
    paged: Option<PagedFileStore>,
    tree: RadixTree,
}

impl Sources {
    pub fn new(ctx: &mut Ctx) -> R<Self> {
        let paged = if cfg!(miri) || ctx.rng.chance(2, 3) { None } else { Some(PagedFileStore::new(tmpfile(), 4096).map_err(es("open"))?) };
        Ok(Sources { mem: MemStore::default(), paged, tree: RadixTree::default() })
    }
    /// an owned blob and what it must contain
    pub fn make(&mut self, ctx: &mut Ctx) -> R<(Blob<'static>, Vec<u8>, &'static str)> {
        let d = content(&mut ctx.rng);
        Ok(match ctx.rng.below(10) {
            0 => {
                let a = ctx.rng.below(300);
                let b = ctx.rng.range(a, 299);
                (Blob::new(&STATIC[a..b]), STATIC[a..b].to_vec(), "src.static")
            }
            1 => (Blob::copy_from_slice(&d), d, "src.copy"),
            2 => (Blob::from_arc_vec(Arc::new(d.clone())), d, "src.arc_vec"),
            3 => (Blob::from(Arc::new(d.clone())), d, "src.from_arc_vec"),
            4 => {
                let mut a = [0u8; 37];
                for (x, y) in a.iter_mut().zip(d.iter()) {
                    *x = *y;
                }
                (Blob::from(Arc::new(a)), a.to_vec(), "src.from_arc_array")
            }
            5 => {
                // the promise of owned_new: keeping the owner alive keeps the slice valid
                let owner: Arc<Vec<u8>> = Arc::new(d.clone());
                let s: &'static [u8] = unsafe { std::slice::from_raw_parts(owner.as_ptr(), owner.len()) };
                (Blob::owned_new(s, Some(owner)), d, "src.owned_new")
            }
            6 => {
                let id = self.mem.write(&d).map_err(es("write"))?;
                (self.mem.read(&id).map_err(es("read"))?, d, "src.mem_store")
            }
            7 if self.paged.is_some() => {
                let s = self.paged.as_ref().unwrap();
                let id = s.write(&d).map_err(es("write"))?;
                (s.read(&id).map_err(es("read"))?, d, "src.paged_store")
            }
            8 => {
                self.tree.insert(&d, &d);
                let v = self.tree.get(&d).unwrap();
                (v.load(&radixdb::store::Detached).map_err(es("load"))?, d, "src.tree_value")
            }
            _ => {
                // a borrowed one, made owned after slicing, outliving what it was borrowed from
                let tmp = d.clone();
                let b = Blob::new(&tmp);
                ensure!(b[..] == tmp[..], "borrowed blob reads {}", hex(&b));
                let r = range(&mut ctx.rng, tmp.len());
                let (lo, hi) = match bounds(&r, tmp.len()) {
                    Some(x) => x,
                    None => (0, tmp.len()),
                };
                let s = b.slice(lo..hi);
                let c = s.clone();
                ensure!(c == s && c[..] == tmp[lo..hi], "a slice of a borrowed blob is wrong");
                (s.to_owned(), d[lo..hi].to_vec(), "src.borrowed_made_owned")
            }
        })
    }
}

pub type Range = (Bound<usize>, Bound<usize>);

fn num(r: &mut Rng, len: usize) -> usize {
    match r.below(12) {
        0 => 0,
        1 => len,
        2 => len + 1,
        3 => len.saturating_sub(1),
        4 => len / 2,
        5 => usize::MAX,
        6 => usize::MAX - r.below(3),
        7 => len + r.below(100),
        8 => (isize::MAX as usize).wrapping_add(r.below(3)),
        _ => r.below(len + 1),
    }
}

pub fn range(r: &mut Rng, len: usize) -> Range {
    let b = |r: &mut Rng| match r.below(3) {
        0 => Bound::Included(num(r, len)),
        1 => Bound::Excluded(num(r, len)),
        _ => Bound::Unbounded,
    };
    let a = b(r);
    (a, b(r))
}

/// the sub range denoted, if it is inside
fn bounds(r: &Range, len: usize) -> Option<(usize, usize)> {
    let lo = match r.0 {
        Bound::Included(n) => n as u128,
        Bound::Excluded(n) => n as u128 + 1,
        Bound::Unbounded => 0,
    };
    let hi = match r.1 {
        Bound::Included(n) => n as u128 + 1,
        Bound::Excluded(n) => n as u128,
        Bound::Unbounded => len as u128,
    };
    if lo <= hi && hi <= len as u128 {
        Some((lo as usize, hi as usize))
    } else {
        None
    }
}

fn same(b: &Blob, d: &[u8], what: &str) -> R {
    ensure!(b[..] == *d, "{}: blob reads {} instead of {}", what, hex(b), hex(d));
    Ok(())
}

fn compare(ctx: &mut Ctx, a: &Blob, ad: &[u8], b: &Blob, bd: &[u8]) -> R {
    ctx.stat("ev.compared", 1);
    ensure!((a == b) == (ad == bd) && (a != b) == (ad != bd), "equality of {} and {} is wrong", hex(ad), hex(bd));
    ensure!(a.cmp(b) == ad.cmp(bd), "cmp of {} and {} is {:?}", hex(ad), hex(bd), a.cmp(b));
    ensure!(a.partial_cmp(b) == Some(ad.cmp(bd)), "partial_cmp of {} and {} is {:?}", hex(ad), hex(bd), a.partial_cmp(b));
    ensure!((a < b) == (ad < bd) && (a >= b) == (ad >= bd), "order of {} and {} is wrong", hex(ad), hex(bd));
    ensure!(hash(a) == hash(ad), "hash of {} differs from that of the slice", hex(ad));
    if ad == bd {
        ensure!(hash(a) == hash(b), "hashes of equal blobs {} differ", hex(ad));
    }
    let s: &[u8] = a.borrow();
    let t: &[u8] = a.as_ref();
    ensure!(s == ad && t == ad && a.len() == ad.len(), "borrow or as_ref of {} differ", hex(ad));
    Ok(())
}

pub fn c22(ctx: &mut Ctx) -> R {
    let mut src = Sources::new(ctx)?;
    let mut pool: Vec<(Blob<'static>, Vec<u8>)> = Vec::new();
    let steps = if ctx.small { 14 } else { ctx.rng.range(10, 120) };
    for _ in 0..steps {
        if pool.is_empty() || (pool.len() < 24 && ctx.rng.chance(1, 5)) {
            let (b, d, name) = src.make(ctx)?;
            ctx.stat(name, 1);
            ctx.op("op.make", &d, || name.to_string());
            same(&b, &d, name)?;
            pool.push((b, d));
            continue;
        }
        let k = ctx.rng.below(pool.len());
        match ctx.rng.below(12) {
            0..=3 => {
                let r = range(&mut ctx.rng, pool[k].1.len());
                let want = bounds(&r, pool[k].1.len());
                ctx.op("op.slice", format!("{:?}", r).as_bytes(), || format!("of blob {} ({} bytes)", k, pool[k].1.len()));
                // through the concrete range types as well as through pairs of bounds
                let b = &pool[k].0;
                let got = guarded(|| match (r.0, r.1) {
                    (Bound::Included(x), Bound::Excluded(y)) => b.slice(x..y),
                    (Bound::Included(x), Bound::Included(y)) if y != usize::MAX => b.slice(x..=y),
                    (Bound::Included(x), Bound::Unbounded) => b.slice(x..),
                    (Bound::Unbounded, Bound::Excluded(y)) => b.slice(..y),
                    (Bound::Unbounded, Bound::Unbounded) => b.slice(..),
                    _ => b.slice(r),
                });
                match (want, got) {
                    (Some((lo, hi)), Ok(s)) => {
                        let d = pool[k].1[lo..hi].to_vec();
                        ctx.stat("ev.slices", 1);
                        ctx.nontrivial = true;
                        same(&s, &d, "slice")?;
                        if pool.len() < 40 {
                            pool.push((s, d));
                        }
                    }
                    (None, Err(_)) => ctx.stat("ev.slices_refused", 1),
                    (Some(_), Err(e)) => fail!("slice {:?} of {} bytes panicked: {}", r, pool[k].1.len(), e),
                    (None, Ok(s)) => fail!("slice {:?} of {} bytes gave {} bytes", r, pool[k].1.len(), s.len()),
                }
            }
            4 | 5 => {
                // a reference into the same memory
                let len = pool[k].1.len();
                let lo = ctx.rng.below(len + 1);
                let hi = ctx.rng.range(lo, len);
                ctx.op("op.slice_ref", &[], || format!("{}..{} of blob {}", lo, hi, k));
                let b = &pool[k].0;
                let s = guarded(|| b.slice_ref(&b[lo..hi]))?;
                let d = pool[k].1[lo..hi].to_vec();
                ctx.stat("ev.slice_refs", 1);
                same(&s, &d, "slice_ref")?;
                if pool.len() < 40 {
                    pool.push((s, d));
                }
            }
            6 => {
                // a reference to something else, or reaching beyond a part
                let j = ctx.rng.below(pool.len());
                let len = pool[k].1.len();
                let lo = ctx.rng.below(len + 1);
                let hi = ctx.rng.range(lo, len);
                let part = pool[k].0.slice(lo..hi);
                let (what, sub): (_, &[u8]) = match ctx.rng.below(3) {
                    0 => ("a reference to another blob", &pool[j].0),
                    1 => ("a reference to a larger part", &pool[k].0),
                    _ => ("a reference to other memory", &pool[j].1),
                };
                // is it really outside?
                let (p, n) = (part.as_ptr() as usize, part.len());
                let (q, m) = (sub.as_ptr() as usize, sub.len());
                let inside = m == 0 || (q >= p && q + m <= p + n);
                ctx.op("op.slice_ref_foreign", &[inside as u8], || format!("{} (inside: {})", what, inside));
                let got = guarded(|| part.slice_ref(sub));
                match (inside, got) {
                    (true, Ok(s)) => same(&s, sub, "slice_ref")?,
                    (true, Err(e)) => fail!("slice_ref of an inner reference panicked: {}", e),
                    (false, Err(_)) => ctx.stat("ev.foreign_refs_refused", 1),
                    (false, Ok(s)) => fail!("slice_ref with {} gave {} bytes {}", what, s.len(), hex(&s)),
                }
            }
            7 => {
                ctx.op("op.clone", &[], || format!("of blob {}", k));
                let c = pool[k].0.clone();
                let d = pool[k].1.clone();
                pool.push((c, d));
            }
            8 => {
                ctx.op("op.to_owned", &[], || format!("of blob {}", k));
                let c = pool[k].0.clone().to_owned();
                let d = pool[k].1.clone();
                same(&c, &d, "to_owned")?;
                pool.push((c, d));
            }
            9 => {
                ctx.op("op.drop", &[], || format!("blob {}", k));
                pool.swap_remove(k);
                ctx.stat("ev.drops", 1);
            }
            10 => {
                let j = ctx.rng.below(pool.len());
                ctx.op("op.compare", &[], || format!("blobs {} and {}", k, j));
                let (a, ad) = (pool[k].0.clone(), pool[k].1.clone());
                compare(ctx, &a, &ad, &pool[j].0, &pool[j].1)?;
                // with a nearby content of different memory
                let mut d = ad.clone();
                match ctx.rng.below(4) {
                    0 => d.push(0),
                    1 => {
                        d.pop();
                    }
                    2 if !d.is_empty() => {
                        let i = ctx.rng.below(d.len());
                        d[i] ^= 1 << ctx.rng.below(8);
                    }
                    _ => {}
                }
                let b = Blob::new(&d);
                compare(ctx, &a, &ad, &b, &d)?;
                compare(ctx, &b, &d, &a, &ad)?;
            }
            _ => {
                ctx.op("op.collections", &[], || String::new());
                let m: BTreeMap<Blob, usize> = pool.iter().enumerate().map(|(i, x)| (x.0.clone(), i)).collect();
                let h: HashMap<Blob, usize> = pool.iter().enumerate().map(|(i, x)| (x.0.clone(), i)).collect();
                let want: BTreeMap<&[u8], usize> = pool.iter().enumerate().map(|(i, x)| (&x.1[..], i)).collect();
                ensure!(m.len() == want.len() && h.len() == want.len(), "{} keys in a map, {} in a hash map, {} expected", m.len(), h.len(), want.len());
                for ((k, v), (wk, wv)) in m.iter().zip(want.iter()) {
                    ensure!(k[..] == **wk && v == wv, "map of blobs has {} where {} is expected", hex(k), hex(wk));
                    ensure!(h.get(*wk) == Some(wv) && m.get(*wk) == Some(wv), "looking up {} by slice fails", hex(wk));
                }
                ctx.stat("ev.collections", 1);
            }
        }
        if ctx.rng.chance(1, 6) {
            for (b, d) in &pool {
                same(b, d, "held blob")?;
            }
            ctx.stat("ev.held_checked", pool.len() as u64);
        }
    }
    // all sources go, the blobs stay
    drop(src);
    for (b, d) in &pool {
        same(b, d, "held blob after dropping all sources")?;
    }
    ctx.stat("ev.held_checked", pool.len() as u64);
    // the pieces go one by one
    while !pool.is_empty() {
        let k = ctx.rng.below(pool.len());
        pool.swap_remove(k);
        if let Some((b, d)) = pool.last() {
            same(b, d, "held blob after dropping others")?;
        }
    }
    Ok(())
}

//! C27: memory follows the change, not the content. The allocations of single operations on large trees are metered
//! (by the allocator of the program) and compared with what the touched paths can account for.
use crate::ctx::{es, hex, Ctx, R};
use crate::gen::Model;
use crate::rng::Rng;
use crate::vstore::VStore;
use crate::world::*;
use crate::ensure;
use radixdb::node::{IdentityConverter, Value, ValueRef};
use radixdb::store::{Detached, DynBlobStore, NoError};
use radixdb::RadixTree;
use std::cell::{Cell, RefCell};
use std::sync::OnceLock;

/// (bytes allocated so far, bytes allocated now)
pub static METER: OnceLock<fn() -> (u64, i64)> = OnceLock::new();

fn read() -> (u64, i64) {
    METER.get().expect("no meter")()
}

thread_local! {
    /// the store of the tree that is metered, and its accesses during the last metered operation
    static STORE: RefCell<Option<VStore>> = const { RefCell::new(None) };
    static BLOBS: Cell<u64> = const { Cell::new(0) };
    static ACCESSES: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

fn accesses() -> (u64, u64) {
    STORE.with(|s| s.borrow().as_ref().map(|s| s.reads_writes()).unwrap_or((0, 0)))
}

/// result, bytes allocated meanwhile, bytes still allocated
fn meter<T>(f: impl FnOnce() -> T) -> (T, u64, i64) {
    let (r0, w0) = accesses();
    let (a0, l0) = read();
    let r = f();
    let (a1, l1) = read();
    let (r1, w1) = accesses();
    ACCESSES.with(|x| x.set((r1 - r0, w1 - w0)));
    (r, a1 - a0, l1 - l0)
}

/// the last metered operation read no more blobs than its path has, and wrote none
fn lazy(ctx: &mut Ctx, name: &'static str, ratio: &'static str, bound: usize) -> R {
    let (r, w) = ACCESSES.with(|x| x.get());
    ctx.stat("ev.store_reads", r);
    ctx.max(ratio, r * 100 / bound as u64);
    ensure!(w == 0, "{} writes {} blobs", &name[3..], w);
    ensure!(r <= bound as u64, "{} reads {} blobs, its path has {}", &name[3..], r, bound);
    Ok(())
}

fn lcp2(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x == y).count()
}

/// the keys of a tree, for the questions asked here
struct Keys(Vec<Vec<u8>>);

impl Keys {
    /// nodes on the path of a key, and all of their children
    fn path(&self, k: &[u8]) -> (usize, usize) {
        let ks = &self.0;
        let (mut lo, mut hi) = (0, ks.len());
        let mut d = 0;
        let (mut nodes, mut children) = (0, 0);
        while lo < hi {
            nodes += 1;
            let l = lcp2(&ks[lo], &ks[hi - 1]);
            debug_assert!(l >= d);
            // children of the node at l
            let mut i = lo + (ks[lo].len() == l) as usize;
            let mut next = (hi, hi);
            while i < hi {
                children += 1;
                let b = ks[i][l];
                let e = i + ks[i..hi].partition_point(|x| x[l] == b);
                if k.len() > l && k[l] == b {
                    next = (i, e);
                }
                i = e;
            }
            if k.len() <= l || k[..l] != ks[lo][..l] {
                break;
            }
            (lo, hi) = next;
            d = l + 1;
        }
        (nodes, children)
    }
    fn longest(&self) -> usize {
        self.0.iter().map(|x| x.len()).max().unwrap_or(0)
    }
}

const NODE: usize = 64;

/// what an operation that touches the path of a key may allocate
fn bound(ks: &Keys, longest: usize, k: &[u8], more: usize) -> usize {
    let (n, c) = ks.path(k);
    4 * ((n + c + 2) * NODE + 2 * longest.max(k.len()) + (n + 1) * more) + 1024
}

fn judge(ctx: &mut Ctx, name: &'static str, ratio: &'static str, used: u64, bound: usize, total: usize) -> R {
    ctx.stat(name, 1);
    ctx.max(ratio, used * 100 / bound as u64);
    if total as u64 > 4 * bound as u64 {
        // the bound means something
        ctx.stat("ev.metered_far_below_content", 1);
    }
    ensure!(used <= bound as u64, "{} allocates {} bytes, its path accounts for {}, the tree holds {}", &name[3..], used, bound, total);
    Ok(())
}

fn some_key(rng: &mut Rng, ks: &Keys) -> Vec<u8> {
    let mut k = ks.0[rng.below(ks.0.len())].clone();
    match rng.below(6) {
        0 => k.push(rng.byte()),
        1 => {
            k.pop();
        }
        2 => {
            let n = rng.below(k.len() + 1);
            k.truncate(n);
        }
        3 if !k.is_empty() => {
            let i = rng.below(k.len());
            k[i] ^= 1 + rng.below(3) as u8;
        }
        _ => {}
    }
    k
}

fn make(ctx: &mut Ctx) -> Model {
    let n = if ctx.thorough { ctx.rng.range(2000, 40000) } else { ctx.rng.range(1000, 8000) };
    let shape = ctx.rng.below(5);
    let mut m = Model::new();
    let vmax = *ctx.rng.pick(&[0usize, 4, 7, 8, 30, 200]);
    let words: Vec<Vec<u8>> = (0..12).map(|_| { let n = ctx.rng.range(1, 12); ctx.rng.bytes(n) }).collect();
    let stem = if ctx.rng.chance(1, 2) { ctx.rng.bytes(200) } else { vec![] };
    let abc = *ctx.rng.pick(&[2usize, 3, 4, 8, 16]);
    // labels that are stored in blobs of their own
    let tail = if ctx.rng.chance(1, 3) { ctx.rng.bytes(150) } else { vec![] };
    let wide = ctx.rng.range(1, 200) as u8;
    for i in 0..n {
        let mut k = stem.clone();
        match shape {
            0 | 1 => {
                let bits = (usize::BITS - n.leading_zeros()) as usize;
                let per = (usize::BITS - (abc - 1).leading_zeros()) as usize;
                for _ in 0..bits / per + 2 {
                    k.push(b'a' + ctx.rng.below(abc) as u8);
                }
            }
            2 => {
                for _ in 0..ctx.rng.range(2, 6) {
                    k.extend_from_slice(&words[ctx.rng.below(12)]);
                    k.push(b':');
                }
            }
            3 => k.extend_from_slice(&(i as u32).to_be_bytes()),
            _ => {
                k.extend_from_slice(format!("{:x}", i).as_bytes());
                let n = ctx.rng.below(20);
                let b = ctx.rng.bytes(n);
                k.extend_from_slice(&b);
            }
        }
        if !tail.is_empty() && i % 7 == 0 {
            k.push(ctx.rng.byte() % wide);
            k.extend_from_slice(&tail);
        }
        let len = ctx.rng.below(vmax + 1);
        let v = ctx.rng.bytes(len);
        m.insert(k, v);
    }
    ctx.stat("ev.long_labels", !tail.is_empty() as u64);
    ctx.op(["shape.random", "shape.random", "shape.words", "shape.sequence", "shape.numbered"][shape], &[], || format!("{} entries, values up to {}", n, vmax));
    m
}

/// bytes a tree of this content may take: labels, values, nodes
fn content_size(m: &Model) -> (usize, usize) {
    let mut labels = 0;
    let mut values = 0;
    let mut prev: &[u8] = &[];
    for (k, v) in m {
        labels += k.len() - lcp2(prev, k);
        values += v.len();
        prev = k;
    }
    let nodes = 2 * m.len() + 1;
    // vectors may have grown to twice of what they need
    (labels + values + nodes * 40, 3 * (labels + values + nodes * 96) + 4096)
}

fn size_of_built(ctx: &mut Ctx, m: &Model) -> R<RadixTree> {
    let how = ctx.rng.below(3);
    let mut order: Vec<(&Vec<u8>, &Vec<u8>)> = m.iter().collect();
    if how == 1 {
        order.reverse();
    } else if how == 2 {
        for i in (1..order.len()).rev() {
            let j = ctx.rng.below(i + 1);
            order.swap(i, j);
        }
    }
    let (t, _, live) = meter(|| {
        let mut t = RadixTree::default();
        for (k, v) in order {
            t.insert(k, v);
        }
        t
    });
    let (_, max) = content_size(m);
    ctx.max("max.size_percent", live as u64 * 100 / max as u64);
    let whole: usize = m.keys().map(|k| k.len()).sum();
    if whole > live as usize {
        ctx.stat("ev.smaller_than_its_keys", 1);
    }
    ensure!(live as usize <= max, "a tree of {} entries takes {} bytes, its labels, values and nodes account for {}", m.len(), live, max);
    Ok(t)
}

/// iterate to the end; memory does not grow with what was iterated over
fn stream<T, E: std::fmt::Debug>(ctx: &mut Ctx, name: &'static str, limit: usize, want: usize, total: usize, it: impl FnOnce() -> Result<T, E>, each: impl Fn(&T::Item) -> R) -> R
where
    T: Iterator,
{
    let (_, l0) = read();
    let (r0, w0) = accesses();
    let mut peak = 0;
    let mut n = 0;
    let mut err = Ok(());
    for x in it().map_err(es("iterator"))? {
        if err.is_ok() {
            err = each(&x);
        }
        n += 1;
        if n % 64 == 1 {
            peak = peak.max(read().1 - l0);
        }
    }
    err?;
    ensure!(n == want, "{} yields {} items instead of {}", &name[3..], n, want);
    let end = read().1 - l0;
    ctx.stat("ev.streamed", n as u64);
    let (r1, w1) = accesses();
    ACCESSES.with(|x| x.set((r1 - r0, w1 - w0)));
    lazy(ctx, name, "max.reads_stream", BLOBS.with(|x| x.get()) as usize + 2)?;
    judge(ctx, name, "max.ratio_stream", peak.max(end).max(0) as u64, limit, total)
}

fn ops<S: Backend>(ctx: &mut Ctx, t: &RadixTree<S>, m: &Model, live: usize) -> R
{
    let ks = Keys(m.keys().cloned().collect());
    let longest = ks.longest();
    let vmax = m.values().map(|v| v.len()).max().unwrap_or(0);
    // the deepest and widest path
    let worst = (0..50).map(|_| { let k = some_key(&mut ctx.rng, &ks); bound(&ks, longest, &k, vmax) }).max().unwrap();
    // reading a stored node takes its bytes, or the bytes of its children
    let x = if S::ATTACHED { 8 } else { 1 };
    let more = if S::ATTACHED { 4096 } else { 0 };
    let mut versions: Vec<RadixTree<S>> = vec![];
    let (mut grown, mut allowed) = (0i64, 0usize);
    for _ in 0..if ctx.small { 3 } else { 60 } {
        let k = some_key(&mut ctx.rng, &ks);
        let b = bound(&ks, longest, &k, vmax) * x + more;
        // the children of each node, and its label if that is long
        let blobs = 2 * ks.path(&k).0 + 2;
        let a = ctx.rng.below(20);
        match a {
            0 => {
                ctx.op("op.clone", &[], || String::new());
                let (c, n, _) = meter(|| t.clone());
                judge(ctx, "ev.clone", "max.ratio_clone", n, 1024, live)?;
                lazy(ctx, "ev.clone", "max.reads_clone", 1)?;
                drop(c);
            }
            1..=5 => {
                // a version that differs in one entry, kept
                let len = ctx.rng.below(vmax + 1);
                let v = ctx.rng.bytes(len);
                ctx.op("op.insert", &k, || hex(&v));
                let (r, n, l) = meter(|| {
                    let mut c = t.clone();
                    c.try_insert(&k, &v).map(|_| c)
                });
                let c = r.map_err(es("insert"))?;
                judge(ctx, "ev.insert_into_clone", "max.ratio_insert", n, b, live)?;
                lazy(ctx, "ev.insert_into_clone", "max.reads_insert", blobs)?;
                grown += l;
                allowed += b;
                if ctx.rng.chance(1, 8) {
                    verify_get(ctx, &c, &[(k.clone(), v.clone())].into_iter().collect(), &k)?;
                }
                versions.push(c);
            }
            6 | 7 => {
                ctx.op("op.remove", &k, || String::new());
                let (r, n, l) = meter(|| {
                    let mut c = t.clone();
                    c.try_remove(&k).map(|_| c)
                });
                versions.push(r.map_err(es("remove"))?);
                judge(ctx, "ev.remove_from_clone", "max.ratio_remove", n, b, live)?;
                lazy(ctx, "ev.remove_from_clone", "max.reads_remove", blobs)?;
                grown += l;
                allowed += b;
            }
            8 => {
                ctx.op("op.remove_prefix", &k, || String::new());
                let (r, n, _) = meter(|| {
                    let mut c = t.clone();
                    c.try_remove_prefix(&k).map(|_| c)
                });
                r.map_err(es("remove_prefix"))?;
                judge(ctx, "ev.remove_prefix_of_clone", "max.ratio_remove", n, b, live)?;
                lazy(ctx, "ev.remove_prefix_of_clone", "max.reads_remove", blobs)?;
            }
            9..=11 => {
                ctx.op("op.get", &k, || String::new());
                let (r, n, l) = meter(|| t.try_get(&k).map(|v| v.is_some()));
                ensure!(r.map_err(es("get"))? == m.contains_key(&k), "get is wrong");
                judge(ctx, "ev.get", "max.ratio_get", n, if S::ATTACHED { b } else { 256 }, live)?;
                judge(ctx, "ev.get_leaves", "max.ratio_get", l.max(0) as u64, 256, live)?;
                lazy(ctx, "ev.get", "max.reads_get", blobs)?;
                let (r, n, _) = meter(|| t.try_contains_key(&k).and_then(|a| t.try_has_prefix(&k).map(|b| (a, b))));
                r.map_err(es("contains_key"))?;
                judge(ctx, "ev.contains", "max.ratio_get", n, if S::ATTACHED { 2 * b } else { 256 }, live)?;
                lazy(ctx, "ev.contains", "max.reads_contains", 2 * blobs)?;
            }
            12 => {
                ctx.op("op.extremes", &[], || String::new());
                for i in 0..4 {
                    let (r, n, _) = meter(|| match i {
                        0 => t.try_first_value().map(|x| x.is_some()),
                        1 => t.try_last_value().map(|x| x.is_some()),
                        2 => t.try_first_entry(vec![]).map(|x| x.is_some()),
                        _ => t.try_last_entry(vec![]).map(|x| x.is_some()),
                    });
                    r.map_err(es("extremes"))?;
                    let e = if i % 2 == 0 { &ks.0[0] } else { ks.0.last().unwrap() };
                    let b = if S::ATTACHED { bound(&ks, longest, e, vmax) * x + more } else { 1024 + 4 * longest };
                    judge(ctx, "ev.extremes", "max.ratio_extremes", n, b, live)?;
                    lazy(ctx, "ev.extremes", "max.reads_extremes", 2 * ks.path(e).0 + 2)?;
                }
            }
            13 | 14 => {
                let mut p = k.clone();
                let n = ctx.rng.below(p.len() + 1);
                p.truncate(n);
                let len = ctx.rng.below(20);
                let sub = ctx.rng.bytes(len);
                let b = bound(&ks, longest, &p, vmax) * x + more;
                ctx.op("op.filter_prefix", &p, || hex(&sub));
                let (r, n, l) = meter(|| t.try_filter_prefix(&p, &sub));
                let r = r.map_err(es("filter_prefix"))?;
                judge(ctx, "ev.filter_prefix", "max.ratio_filter", n, b, live)?;
                lazy(ctx, "ev.filter_prefix", "max.reads_filter", 2 * ks.path(&p).0 + 2)?;
                judge(ctx, "ev.filter_prefix", "max.ratio_filter", l.max(0) as u64, b, live)?;
                if ctx.rng.chance(1, 4) {
                    let exp = filter_model(m, &p, &sub);
                    verify(ctx, "filter_prefix", &r, &exp)?;
                }
            }
            15 => {
                let mut p = k.clone();
                let n = ctx.rng.below(p.len() + 1);
                p.truncate(n);
                ctx.op("op.scan_prefix", &p, || String::new());
                let want = crate::gen::scan(m, &p).count();
                stream(ctx, "ev.scan_prefix", worst * x + more, want, live, || t.try_scan_prefix(&p), |x| x.as_ref().map(|_| ()).map_err(|e| format!("{:?}", e)))?;
            }
            16 => {
                ctx.op("op.iter", &[], || String::new());
                stream(ctx, "ev.iter", worst * x + more, m.len(), live, || Ok::<_, S::E>(t.try_iter()), |x| x.as_ref().map(|_| ()).map_err(|e| format!("{:?}", e)))?;
                stream(ctx, "ev.values", worst * x + more, m.len(), live, || Ok::<_, S::E>(t.try_values()), |x| x.as_ref().map(|_| ()).map_err(|e| format!("{:?}", e)))?;
            }
            _ => small_operand(ctx, t, m, &ks, longest, vmax, live, x, more)?,
        }
    }
    ctx.max("max.ratio_versions", grown.max(0) as u64 * 100 / allowed.max(1) as u64);
    ensure!(grown <= allowed as i64, "{} versions take {} bytes, their changes account for {}", versions.len(), grown, allowed);
    ctx.stat("ev.versions_kept", versions.len() as u64);
    // the original is what it was
    verify(ctx, "tree", t, m)
}

/// a few keys, what they and their paths account for
fn small_keys(ctx: &mut Ctx, ks: &Keys, longest: usize, vmax: usize, x: usize, more: usize) -> (Model, usize) {
    let mut sm = Model::new();
    let mut b = 2048 + more;
    for _ in 0..ctx.rng.range(1, 4) {
        let mut k = some_key(&mut ctx.rng, ks);
        if ctx.rng.chance(1, 5) {
            // apart from everything
            k.insert(0, 0xfe);
        }
        b += 2 * bound(ks, longest, &k, vmax) * x;
        sm.insert(k, b"new".to_vec());
    }
    (sm, b)
}

const BULK: [&str; 6] = ["op.outer_with", "op.left_with", "op.remove_set", "op.retain_set", "op.inner_new", "op.inner_reversed"];

fn bulk_model(a: usize, m: &Model, sm: &Model) -> Model {
    let mut exp = m.clone();
    match a {
        0 => exp.extend(sm.clone()),
        1 => {
            for (k, v) in sm {
                if let Some(x) = exp.get_mut(k) {
                    *x = v.clone();
                }
            }
        }
        2 => exp.retain(|k, _| !sm.keys().any(|p| k.starts_with(p))),
        3 => exp.retain(|k, _| sm.keys().any(|p| k.starts_with(p))),
        _ => exp = sm.iter().filter(|x| m.contains_key(x.0)).map(|(k, v)| (k.clone(), v.clone())).collect(),
    }
    exp
}

/// bulk operations in place with a small tree
fn small_operand<S: Backend>(ctx: &mut Ctx, t: &RadixTree<S>, m: &Model, ks: &Keys, longest: usize, vmax: usize, live: usize, x: usize, more: usize) -> R
{
    let (sm, b) = small_keys(ctx, ks, longest, vmax, x, more);
    let mut s = RadixTree::empty(RadixTree::store(t).clone());
    for (k, v) in &sm {
        s.try_insert(k, v).map_err(es("insert"))?;
    }
    let a = ctx.rng.below(4);
    ctx.op(BULK[a], &[], || format!("{} keys", sm.len()));
    let set = |a: &mut Value<S>, b: &ValueRef<S>| -> Result<(), S::E> { Ok(a.set(Some(b))) };
    let (r, n, _) = meter(|| {
        let mut c = t.clone();
        let r = match a {
            0 => c.try_outer_combine_with(&s, IdentityConverter, set),
            1 => c.try_left_combine_with(&s, IdentityConverter, set),
            2 => c.try_remove_prefix_with(&s, |_| Ok::<_, S::E>(true)),
            _ => c.try_retain_prefix_with(&s, |_| Ok::<_, S::E>(true)),
        };
        r.map(|_| c)
    });
    let r = r.map_err(es("bulk operation"))?;
    judge(ctx, "ev.bulk_with_small", "max.ratio_bulk", n, b, live)?;
    lazy(ctx, "ev.bulk_with_small", "max.reads_bulk", sm.keys().map(|k| 2 * ks.path(k).0 + 2).sum())?;
    if ctx.rng.chance(1, 6) {
        verify(ctx, "result of a bulk operation", &r, &bulk_model(a, m, &sm))?;
    }
    Ok(())
}

/// bulk operations that make a new tree
fn small_new(ctx: &mut Ctx, t: &RadixTree, m: &Model, live: usize) -> R {
    let ks = Keys(m.keys().cloned().collect());
    let longest = ks.longest();
    let vmax = m.values().map(|v| v.len()).max().unwrap_or(0);
    for _ in 0..if ctx.small { 1 } else { 10 } {
        let (sm, b) = small_keys(ctx, &ks, longest, vmax, 1, 0);
        let s: RadixTree = sm.iter().collect();
        let a = 4 + ctx.rng.below(2);
        ctx.op(BULK[a], &[], || format!("{} keys", sm.len()));
        let (r, n, _) = meter(|| match a {
            4 => t.inner_combine(&s, |_, b| Some(b.to_owned())),
            _ => s.inner_combine(t, |a, _| Some(a.to_owned())),
        });
        judge(ctx, "ev.bulk_with_small", "max.ratio_bulk_new", n, b, live)?;
        if ctx.rng.chance(1, 6) {
            verify(ctx, "result of a bulk operation", &r, &bulk_model(a, m, &sm))?;
        }
    }
    Ok(())
}

/// the union of large trees that have nothing in common shares both
fn disjoint(ctx: &mut Ctx, t: &RadixTree, m: &Model, live: usize) -> R {
    let sub = [b'0', 0xff];
    let o = t.filter_prefix(b"", sub);
    let om = filter_model(m, b"", &sub);
    let at_root = m.keys().any(|k| k.starts_with(&sub));
    if at_root {
        return Ok(());
    }
    let ks = Keys(m.keys().cloned().collect());
    let b = 2 * bound(&ks, ks.longest(), &sub, 0) + 2048;
    ctx.op("op.disjoint_union", &[], || String::new());
    // (the forms that convert what they take over copy it)
    let (r, n, _) = meter(|| {
        let mut c = t.clone();
        c.try_outer_combine_with(&o, IdentityConverter, |_, _| Ok::<_, NoError>(())).map(|_| c)
    });
    let r = r.map_err(es("outer_combine_with"))?;
    judge(ctx, "ev.disjoint_union", "max.ratio_disjoint", n, b, live)?;
    let (_, n, _) = meter(|| t.inner_combine(&o, |a, _| Some(a.to_owned())));
    judge(ctx, "ev.disjoint_intersection", "max.ratio_disjoint", n, b, live)?;
    if ctx.rng.chance(1, 4) {
        let mut m = m.clone();
        m.extend(om);
        verify(ctx, "union", &r, &m)?;
    }
    Ok(())
}

/// a large value is shared by all who hold it
fn large_value(ctx: &mut Ctx) -> R {
    let len = ctx.rng.range(1 << 16, 1 << 20);
    let mut k = ctx.rng.bytes(5);
    k[0] = 0xfe;
    let v = ctx.rng.bytes(len);
    let mut t = RadixTree::default();
    t.insert(&k, &v);
    t.insert(b"other", b"x");
    let klen = ctx.rng.range(20000, 100000);
    let mut big = ctx.rng.bytes(klen);
    big[0] = 0xff;
    t.insert(&big, b"y");
    ctx.op("op.large_value", &(len as u64).to_be_bytes(), || String::new());
    let limit = 4096;
    let (mut c, n, _) = meter(|| t.clone());
    judge(ctx, "ev.large_clone", "max.ratio_value", n, limit, len + klen)?;
    let (_, n, _) = meter(|| {
        c.insert(b"another", b"z");
        c.remove(b"other");
    });
    judge(ctx, "ev.large_neighbour_changed", "max.ratio_value", n, limit, len + klen)?;
    let (got, n, _) = meter(|| (t.get(&k), c.get(&k)));
    judge(ctx, "ev.large_get", "max.ratio_value", n, limit, len + klen)?;
    ensure!(got.0.map(|x| x[..] == v) == Some(true) && got.1.map(|x| x[..] == v) == Some(true), "a large value is wrong");
    let (all, n, _) = meter(|| c.values().collect::<Vec<Value>>());
    judge(ctx, "ev.large_values", "max.ratio_value", n, limit, len + klen)?;
    ensure!(all.iter().any(|x| x[..] == v), "a large value is wrong");
    let (f, n, _) = meter(|| t.filter_prefix(b"", b"p"));
    judge(ctx, "ev.large_filter_prefix", "max.ratio_value", n, limit, len + klen)?;
    ensure!(f.contains_key([b"p", &k[..]].concat()), "a large value is lost");
    Ok(())
}

/// what is written is what changed
fn commits(ctx: &mut Ctx, t: &RadixTree<DynBlobStore>, m: &Model, vs: &VStore) -> R {
    let ks = Keys(m.keys().cloned().collect());
    let vmax = m.values().map(|v| v.len()).max().unwrap_or(0);
    for _ in 0..6 {
        let mut c = t.clone();
        let mut exp = m.clone();
        let (mut blobs, mut bytes) = (1, 300);
        for _ in 0..ctx.rng.below(4) {
            let k = some_key(&mut ctx.rng, &ks);
            let len = ctx.rng.below(vmax + 1);
            let v = ctx.rng.bytes(len);
            let (n, children) = ks.path(&k);
            // the children of each node, and the labels and values that changed
            blobs += n + 4;
            bytes += (children + 2) * 128 + 2 * (ks.longest() + k.len()) + v.len();
            if ctx.rng.chance(3, 4) {
                c.try_insert(&k, &v).map_err(es("insert"))?;
                exp.insert(k, v);
            } else {
                c.try_remove(&k).map_err(es("remove"))?;
                exp.remove(&k);
            }
        }
        ctx.op("op.reattach", &[], || format!("up to {} blobs", blobs));
        let n0 = vs.lock().order.len();
        let (id, _, _) = meter(|| c.try_reattach());
        let id = id.map_err(es("reattach"))?;
        let (r, w) = ACCESSES.with(|x| x.get());
        let written: usize = {
            let i = vs.lock();
            i.order[n0..].iter().map(|id| i.blobs[id].len()).sum()
        };
        ctx.stat("ev.commits", 1);
        ctx.stat("ev.blobs_written", w);
        if blobs > 1 {
            ctx.max("max.writes_commit", w * 100 / blobs as u64);
        }
        ctx.max("max.bytes_commit", (written * 100 / bytes) as u64);
        ensure!(r == 0, "reattach reads {} blobs", r);
        ensure!(w <= blobs as u64, "reattach after a small change writes {} blobs, the changed paths have {}", w, blobs);
        ensure!(written <= bytes, "reattach after a small change writes {} bytes, the changed paths have {}", written, bytes);
        if ctx.rng.chance(1, 3) {
            let l = RadixTree::<DynBlobStore>::try_load(t_store(t), Some(&id)).map_err(es("load"))?;
            verify(ctx, "committed tree", &l, &exp)?;
        }
        drop(c);
    }
    Ok(())
}

fn t_store(t: &RadixTree<DynBlobStore>) -> DynBlobStore {
    RadixTree::store(t).clone()
}

pub fn c27(ctx: &mut Ctx) -> R {
    STORE.with(|s| *s.borrow_mut() = None);
    let m = make(ctx);
    if m.len() < 2 {
        return Ok(());
    }
    let t = size_of_built(ctx, &m)?;
    let (live, _) = content_size(&m);
    ctx.nontrivial = true;
    large_value(ctx)?;
    disjoint(ctx, &t, &m, live)?;
    small_new(ctx, &t, &m, live)?;
    match ctx.rng.below(3) {
        0 => {
            let vs = VStore::new(8, false);
            let store = vs.dynamic();
            let mut a: RadixTree<DynBlobStore> = t.try_attached(store.clone()).map_err(es("attached"))?;
            drop(t);
            let id = a.try_reattach().map_err(es("reattach"))?;
            drop(a);
            STORE.with(|s| *s.borrow_mut() = Some(vs.clone()));
            let (l, n, _) = meter(|| RadixTree::<DynBlobStore>::try_load(store.clone(), Some(&id)));
            let l = l.map_err(es("load"))?;
            judge(ctx, "ev.load", "max.ratio_load", n, 4096, live)?;
            lazy(ctx, "ev.load", "max.reads_load", 1)?;
            BLOBS.with(|x| x.set(vs.lock().writes));
            commits(ctx, &l, &m, &vs)?;
            ops(ctx, &l, &m, live)
        }
        _ => ops::<Detached>(ctx, &t, &m, live),
    }
}

/// a paged file is mapped, not kept: memory for the blobs of the last page, and a little per page
pub fn c27_store(ctx: &mut Ctx) -> R {
    use radixdb::store::{BlobStore, PagedFileStore};
    let ps = *ctx.rng.pick(&[1024u64, 4096, 4096, 8192, 65536]);
    let file = crate::suites::tmpfile();
    let total = ctx.rng.range(20, 120) * ps as usize;
    let big = ctx.rng.below(3);
    ctx.op("op.file", &[ps.trailing_zeros() as u8, big as u8], || format!("about {} bytes in pages of {}", total, ps));
    let l0 = read().1;
    let s = PagedFileStore::new(file.try_clone().map_err(es("clone"))?, ps).map_err(es("open"))?;
    let s: Box<dyn BlobStore<Error = anyhow::Error>> = if ctx.rng.chance(1, 3) { Box::new(s.clone()) } else { Box::new(s) };
    // the oracle's own memory is part of what is metered: allocated beforehand
    let mut ids: Vec<([u8; 8], u32)> = Vec::with_capacity(total / 12 + 16);
    let mut buf = vec![0u8; ps as usize];
    let own = (ids.capacity() * 12 + buf.capacity()) as i64;
    let (mut written, mut in_page, mut most, mut page) = (0usize, 0usize, 0usize, 0u64);
    let mut used = 0i64;
    while written < total {
        let n = match big {
            0 => ctx.rng.below(60),
            1 => ctx.rng.range(ps as usize / 32, ps as usize / 8),
            _ => ctx.rng.range(ps as usize / 8, ps as usize / 2),
        };
        let b = ctx.rng.byte();
        buf[..n].fill(b);
        let id = s.write(&buf[..n]).map_err(es("write"))?;
        written += n + 8;
        let id: [u8; 8] = id[..].try_into().map_err(es("id"))?;
        let p = u64::from_be_bytes(id) / ps;
        if p != page {
            page = p;
            in_page = 0;
        }
        in_page += 1;
        most = most.max(in_page);
        ids.push((id, n as u32));
        used = read().1 - l0 - own;
        // blobs of the page that is filled, and the table of them, which may have room for twice as many
        let bound = 2 * ps as usize + most * 400 + page as usize * 200 + 4096;
        ensure!(used <= bound as i64, "after {} bytes in {} pages of {} the store has {} bytes in memory; what it has to keep is less than {}", written, page + 1, ps, used, bound);
        if written > 4 * bound {
            ctx.stat("ev.store_far_below_content", 1);
        }
        ctx.max("max.ratio_store", (used.max(0) * 100 / bound as i64) as u64);
    }
    ctx.stat("ev.blobs_written", ids.len() as u64);
    // reading copies nothing that is in full pages
    let mut reads = |ctx: &mut Ctx, s: &dyn BlobStore<Error = anyhow::Error>, fresh: bool| -> R {
        let mut held = Vec::with_capacity(64);
        let (mut sum, mut bytes) = (0u64, 0u64);
        let k = 400.min(ids.len());
        for _ in 0..k {
            let (id, n) = ids[ctx.rng.below(ids.len())];
            let last = u64::from_be_bytes(id) / ps == page;
            if last && fresh {
                continue;
            }
            let (r, a, _) = meter(|| s.read(&id));
            let r = r.map_err(es("read"))?;
            ensure!(r.len() == n as usize, "blob {} has {} bytes instead of {}", hex(&id), r.len(), n);
            sum += a;
            bytes += n as u64;
            if held.len() < 60 {
                held.push(r);
            }
        }
        let bound = k as u64 * 100 + (page + 1) * 400 + 4096;
        ensure!(sum <= bound, "{} reads of {} bytes in all from a paged file allocated {} bytes, more than {}", k, bytes, sum, bound);
        ctx.max("max.ratio_store_read", sum * 100 / bound);
        ctx.stat("ev.store_read_metered", k as u64);
        if bytes > 2 * bound {
            ctx.stat("ev.store_read_far_below_content", 1);
        }
        Ok(())
    };
    reads(ctx, &*s, false)?;
    let _ = used;
    drop(s);
    // nor does opening
    let (s, a, _) = meter(|| PagedFileStore::new(file, ps));
    let s = s.map_err(es("reopen"))?;
    ctx.max("max.ratio_store_open", a * 100 / 8192);
    ensure!(a <= 8192 + ps, "opening a file of {} bytes allocated {} bytes", written, a);
    ctx.stat("ev.store_open_metered", 1);
    reads(ctx, &s, true)?;
    ctx.nontrivial = true;
    Ok(())
}

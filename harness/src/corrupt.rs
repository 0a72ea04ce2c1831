//! C21: trees over stores that return wrong bytes. Any result, error or panic is allowed; memory errors
//! (sanitizer, interpreter), endless work and damage to unrelated trees, values and blobs are not.
use crate::ctx::{es, hex, Ctx, R};
use crate::gen::*;
use crate::rng::mix;
use crate::run::guarded;
use crate::suites::tmpfile;
use crate::vstore::{Corrupt, VStore};
use crate::world::*;
use crate::{ensure, fail};
use radixdb::node::{DetachConverter, DowncastConverter, IdentityConverter, IterKey, Value, ValueRef};
use radixdb::store::{Blob, BlobStore, Detached, DynBlobStore, PagedFileStore};
use radixdb::RadixTree;
use std::sync::Arc;

type Tree = RadixTree<DynBlobStore>;

/// iterate over at most this many entries
const MAX: usize = 400;

/// stops answering after a number of reads: data that refers to itself would be followed for ever (known finding)
#[derive(Debug)]
struct Limited(PagedFileStore, std::sync::atomic::AtomicI64);

impl BlobStore for Limited {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        if self.1.fetch_sub(1, std::sync::atomic::Ordering::Relaxed) <= 0 {
            anyhow::bail!("access budget exhausted");
        }
        self.0.read(id)
    }
    fn write(&self, d: &[u8]) -> anyhow::Result<Vec<u8>> {
        self.0.write(d)
    }
    fn sync(&self) -> anyhow::Result<()> {
        self.0.sync()
    }
}

/// a store in which the children of the (only) node are that node again
#[derive(Debug)]
struct Cyclic;

impl BlobStore for Cyclic {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        Ok(Blob::copy_from_slice(match id {
            [0] => &[0x00, 0x80, 0x82, 6, 1],
            // one record of 6 bytes: label "a", no value, children (records of 6 bytes) in blob 1
            _ => &[1, b'a', 0x80, 0x82, 6, 1],
        }))
    }
    fn write(&self, _: &[u8]) -> anyhow::Result<Vec<u8>> {
        anyhow::bail!("read only")
    }
    fn sync(&self) -> anyhow::Result<()> {
        Ok(())
    }
}

/// the known finding: a node whose children refer to itself is followed until the stack is exhausted
pub fn c21_cycle(ctx: &mut Ctx) -> R {
    let store: DynBlobStore = Arc::new(Cyclic);
    let t = Tree::try_load(store, Some(&[0])).map_err(es("load"))?;
    ctx.note(|| "blob 1 is a node whose children are blob 1; detaching it:".to_string());
    let r = guarded(|| t.try_detached().is_ok());
    ctx.note(|| format!("{:?}", r));
    Ok(())
}

struct Keep {
    vals: Vec<Value<DynBlobStore>>,
    blobs: Vec<(Blob<'static>, u64)>,
    keys: Vec<(IterKey, Vec<u8>)>,
    trees: Vec<Tree>,
    dets: Vec<RadixTree>,
}

fn sum(d: &[u8]) -> u64 {
    crate::rng::fnv(d)
}

/// make every byte count
fn touch(d: &[u8]) -> u64 {
    std::hint::black_box(sum(d))
}

/// count what happened
fn outcome<T>(ctx: &mut Ctx, name: &'static str, r: Result<anyhow::Result<T>, String>) -> Option<T> {
    ctx.op(name, &[], || match &r {
        Ok(Ok(_)) => "gave a result".into(),
        Ok(Err(e)) => format!("error {}", e.to_string().lines().next().unwrap_or("").chars().take(80).collect::<String>()),
        Err(p) => format!("panic {}", p.lines().next().unwrap_or("").chars().take(120).collect::<String>()),
    });
    match r {
        Ok(Ok(x)) => {
            ctx.stat("ev.results", 1);
            Some(x)
        }
        Ok(Err(_)) => {
            ctx.stat("ev.errors", 1);
            None
        }
        Err(_) => {
            ctx.stat("ev.panics", 1);
            None
        }
    }
}

fn use_entry(k: &IterKey, v: Value<DynBlobStore>, store: &DynBlobStore, keep: &mut Keep) {
    touch(k);
    if keep.keys.len() < 40 {
        keep.keys.push((k.clone(), k.to_vec()));
    }
    use_value(v, store, keep);
}

fn use_value(v: Value<DynBlobStore>, store: &DynBlobStore, keep: &mut Keep) {
    let _ = format!("{:?}", v);
    if let Ok(b) = v.load(store) {
        let s = touch(&b);
        if keep.blobs.len() < 40 {
            keep.blobs.push((b, s));
        }
    }
    if keep.vals.len() < 40 {
        keep.vals.push(v);
    }
}

fn use_ref<S: Backend>(v: &ValueRef<S>, store: &S) -> anyhow::Result<u64>
where
    S::E: std::fmt::Debug,
{
    let _ = format!("{:?}", v);
    let o = v.to_owned();
    match o.load(store) {
        Ok(b) => Ok(touch(&b)),
        Err(_) => Ok(0),
    }
}

/// one operation on a tree whose blobs may be corrupt
fn act(ctx: &mut Ctx, g: &KeyGen, store: &DynBlobStore, i: usize, lookups: bool, good: &Inst<Detached>, good_at: &Inst<DynBlobStore>, keep: &mut Keep) {
    let key = g.query(&mut ctx.rng, &good.m);
    let val = value(ctx);
    let salt = ctx.rng.next();
    let mut t = keep.trees[i].clone();
    let kind = if lookups { *ctx.rng.pick(&[0usize, 2, 8, 13, 19]) } else { ctx.rng.below(36) };
    let key = if lookups && ctx.rng.chance(1, 3) { good.m.keys().next_back().unwrap().clone() } else { key };
    let pred = move |x: u64| mix(x ^ salt) % 3 == 0;
    let mut got: Option<RadixTree> = None;
    let mut changed = false;
    macro_rules! run {
        ($name:expr, $e:expr) => {{
            let r = guarded(|| $e);
            outcome(ctx, $name, r)
        }};
    }
    macro_rules! mutate {
        ($name:expr, $e:expr) => {{
            let r = guarded(|| -> anyhow::Result<()> { Ok($e?) });
            changed = true;
            outcome(ctx, $name, r)
        }};
    }
    match kind {
        0 | 1 => {
            if let Some(Some(v)) = run!("op.get", t.try_get(&key)) {
                use_value(v, store, keep);
            }
        }
        2 => {
            run!("op.contains_key", t.try_contains_key(&key));
            run!("op.has_prefix", t.try_has_prefix(&key));
        }
        3..=6 => {
            let r = guarded(|| -> anyhow::Result<u64> {
                let mut n = 0;
                for x in t.try_iter().take(MAX) {
                    let (k, v) = x?;
                    use_entry(&k, v, store, keep);
                    n += 1;
                }
                Ok(n)
            });
            if let Some(n) = outcome(ctx, "op.iter", r) {
                ctx.stat("ev.entries", n);
            }
        }
        7 => {
            run!("op.values", {
                for x in t.try_values().take(MAX) {
                    use_value(x?, store, keep);
                }
                Ok(())
            });
        }
        8 | 9 => {
            run!("op.scan_prefix", {
                for x in t.try_scan_prefix(&key)?.take(MAX) {
                    let (k, v) = x?;
                    use_entry(&k, v, store, keep);
                }
                Ok(())
            });
        }
        10 => {
            run!("op.group_by", {
                for x in t.try_group_by(move |p, n| {
                    touch(p);
                    let _ = format!("{:?}", n);
                    Ok(pred(p.len() as u64))
                })
                .take(60)
                {
                    let g = x?;
                    if keep.trees.len() < 12 {
                        keep.trees.push(g);
                    }
                }
                Ok(())
            });
        }
        11 => {
            if let Some(Some(v)) = run!("op.first_value", t.try_first_value()) {
                use_value(v, store, keep);
            }
            if let Some(Some(v)) = run!("op.last_value", t.try_last_value()) {
                use_value(v, store, keep);
            }
        }
        12 => {
            if let Some(Some((k, v))) = run!("op.first_entry", t.try_first_entry(key.clone())) {
                touch(&k);
                use_value(v, store, keep);
            }
            if let Some(Some((k, v))) = run!("op.last_entry", t.try_last_entry(vec![])) {
                touch(&k);
                use_value(v, store, keep);
            }
        }
        13..=15 => {
            mutate!("op.insert", t.try_insert(&key, &val));
        }
        16 | 17 => {
            mutate!("op.remove", t.try_remove(&key));
        }
        18 => {
            mutate!("op.remove_prefix", t.try_remove_prefix(&key));
        }
        19 => {
            if let Some(x) = run!("op.filter_prefix", t.try_filter_prefix(&key, &val)) {
                keep.trees.push(x);
            }
        }
        20 => got = run!("op.detached", t.try_detached()),
        21 => {
            mutate!("op.reattach", t.try_reattach().map(|_| ()));
        }
        22 | 23 => {
            let j = *ctx.rng.pick(&[Join::Outer, Join::Inner, Join::Left]);
            let f = |x: &ValueRef<DynBlobStore>, y: &ValueRef<DynBlobStore>| -> anyhow::Result<Option<Value>> {
                let a = use_ref(x, store)?;
                use_ref(y, store)?;
                Ok(if pred(a) { None } else { Some(mkval(&a.to_be_bytes())) })
            };
            let swap = salt & 1 == 1;
            got = run!("op.combine", {
                let (a, b) = if swap { (&good_at.t, &t) } else { (&t, &good_at.t) };
                match j {
                    Join::Outer => a.try_outer_combine(b, f),
                    Join::Inner => a.try_inner_combine(b, f),
                    Join::Left => a.try_left_combine(b, f),
                }
            });
        }
        24 | 25 => {
            let j = *ctx.rng.pick(&[Join::Outer, Join::Inner, Join::Left]);
            let f = |x: &mut Value<DynBlobStore>, y: &ValueRef<DynBlobStore>| -> anyhow::Result<()> {
                let a = x.load(store).map(|b| touch(&b)).unwrap_or(1);
                let b = use_ref(y, store)?;
                match mix(a ^ b) % 3 {
                    0 => setval(x, None),
                    1 => setval(x, Some(&val)),
                    _ => x.set(Some(y)),
                }
                Ok(())
            };
            let swap = salt & 1 == 1;
            let o = if keep.trees.len() > 1 && salt & 2 == 2 { keep.trees[(salt % keep.trees.len() as u64) as usize].clone() } else { good_at.t.clone() };
            mutate!("op.combine_with", {
                let mut x = if swap { o.clone() } else { t.clone() };
                let y = if swap { t.clone() } else { o };
                let r = match j {
                    Join::Outer => x.try_outer_combine_with(&y, IdentityConverter, f),
                    Join::Inner => x.try_inner_combine_with(&y, IdentityConverter, f),
                    Join::Left => x.try_left_combine_with(&y, IdentityConverter, f),
                };
                t = x;
                r
            });
        }
        26 => {
            let f = |x: &mut Value<DynBlobStore>, y: &ValueRef<Detached>| -> anyhow::Result<()> {
                let a = x.load(store).map(|b| touch(&b)).unwrap_or(1);
                if pred(a) {
                    let d = y.to_owned().load(&Detached).map(|b| b.to_vec()).unwrap_or_default();
                    setval(x, Some(&d));
                }
                Ok(())
            };
            let outer = salt & 1 == 1;
            mutate!("op.combine_with_detached", {
                if outer {
                    t.try_outer_combine_with(&good.t, DowncastConverter, f)
                } else {
                    t.try_left_combine_with(&good.t, DowncastConverter, f)
                }
            });
        }
        27 => {
            // the corrupt tree as operand of another store's tree
            let f = |x: &mut Value<DynBlobStore>, y: &ValueRef<DynBlobStore>| -> anyhow::Result<()> {
                let a = use_ref(y, store)?;
                if pred(a) {
                    setval(x, None);
                }
                Ok(())
            };
            let mut x = good_at.t.clone();
            mutate!("op.combine_with_detaching", {
                let r = x.try_outer_combine_with(&t, DetachConverter, f);
                t = x;
                r
            });
        }
        28 => {
            let f = |x: &ValueRef<DynBlobStore>, y: &ValueRef<DynBlobStore>| -> anyhow::Result<bool> { Ok(pred(use_ref(x, store)? ^ use_ref(y, store)?)) };
            run!("op.inner_combine_pred", t.try_inner_combine_pred(&good_at.t, f));
            run!("op.left_combine_pred", t.try_left_combine_pred(&good_at.t, f));
            run!("op.left_combine_pred", good_at.t.try_left_combine_pred(&t, f));
        }
        29 => {
            let f = |x: &ValueRef<DynBlobStore>| -> anyhow::Result<bool> { Ok(pred(use_ref(x, store)?)) };
            let retain = salt & 1 == 1;
            mutate!("op.prefix_set", if retain { t.try_retain_prefix_with(&good_at.t, f) } else { t.try_remove_prefix_with(&good_at.t, f) });
        }
        30 => {
            let f = |x: &ValueRef<DynBlobStore>| -> anyhow::Result<bool> { Ok(pred(use_ref(x, store)?)) };
            let retain = salt & 1 == 1;
            mutate!("op.prefix_set_by_corrupt", {
                let mut x = good_at.t.clone();
                let r = if retain { x.try_retain_prefix_with(&t, f) } else { x.try_remove_prefix_with(&t, f) };
                t = x;
                r
            });
        }
        31 => {
            run!("op.root", {
                let _ = format!("{:?} {:?} {:?} {:?}", t, t.value(), t.prefix(), t.is_leaf());
                if let Some(v) = t.value() {
                    use_ref(&v, store)?;
                }
                let p = t.prefix();
                use_ref(&p, store)?;
                Ok(t.is_empty())
            });
        }
        32 => {
            // held values and blobs again
            let r = guarded(|| -> anyhow::Result<()> {
                for v in &keep.vals {
                    if let Ok(b) = v.load(store) {
                        touch(&b);
                    }
                }
                Ok(())
            });
            outcome(ctx, "op.held_values", r);
        }
        33 => {
            if !keep.trees.is_empty() {
                let k = ctx.rng.below(keep.trees.len());
                ctx.op("op.drop", &[], || String::new());
                if k != i || keep.trees.len() > 1 {
                    keep.trees.swap_remove(k);
                }
            }
            return;
        }
        34 => {
            keep.vals.clear();
            ctx.op("op.drop_values", &[], || String::new());
        }
        _ => {
            if keep.dets.len() >= 2 {
                let k = ctx.rng.below(keep.dets.len());
                let d = keep.dets.swap_remove(k);
                if let Some(r) = run!("op.compare", Ok(keep.dets[0] == d)) {
                    std::hint::black_box(r);
                }
                if let Some(x) = run!("op.attach", d.try_attached(store.clone())) {
                    keep.trees.push(x);
                }
            }
        }
    }
    if changed {
        // what an operation left, even after an error or a panic, may be used
        if ctx.rng.chance(1, 3) && keep.trees.len() < 12 {
            keep.trees.push(t);
        } else if i < keep.trees.len() {
            keep.trees[i] = t;
        }
    }
    if let Some(d) = got {
        let r = guarded(|| -> anyhow::Result<()> {
            for (k, v) in d.iter().take(MAX) {
                touch(&k);
                touch(&v.load(&Detached).unwrap());
            }
            let mut c = d.clone();
            c.insert(&key, &val);
            c.remove(&key);
            Ok(())
        });
        outcome(ctx, "op.use_detached", r);
        if keep.dets.len() < 6 {
            keep.dets.push(d);
        }
    }
}

struct Control {
    det: Inst<Detached>,
    /// attached to a healthy store
    at: Inst<DynBlobStore>,
    vals: Vec<(Value<DynBlobStore>, Vec<u8>)>,
    blobs: Vec<(Blob<'static>, Vec<u8>)>,
}

impl Control {
    fn check(&self, ctx: &mut Ctx, when: &str) -> R {
        verify(ctx, when, &self.det.t, &self.det.m)?;
        verify(ctx, when, &self.at.t, &self.at.m)?;
        for (v, d) in &self.vals {
            ensure!(loadval(v, RadixTree::store(&self.at.t))? == *d, "{}: value changed from {}", when, hex(d));
        }
        for (b, d) in &self.blobs {
            ensure!(b[..] == d[..], "{}: blob changed from {} to {}", when, hex(d), hex(b));
        }
        ctx.stat("ev.controls_checked", 1);
        Ok(())
    }
}

/// a node with all or nearly all 256 children, with records of equal or almost equal size
fn full_node(ctx: &mut Ctx) -> Model {
    let n = ctx.rng.below(4);
    let p = ctx.rng.bytes(n);
    let missing = if ctx.rng.chance(1, 4) { Some(ctx.rng.byte()) } else { None };
    let n = *ctx.rng.pick(&[0usize, 0, 1, 8, 130]);
    let tail = ctx.rng.bytes(n);
    let len = *ctx.rng.pick(&[0usize, 1, 3, 8, 9, 40, 130]);
    let odd = if ctx.rng.chance(1, 4) { Some(ctx.rng.byte()) } else { None };
    let mut m = Model::new();
    for b in 0..=255u8 {
        if Some(b) == missing {
            continue;
        }
        let mut k = p.clone();
        k.push(b);
        k.extend_from_slice(&tail);
        m.insert(k, vec![b; if Some(b) == odd { len + 1 } else { len }]);
    }
    m
}

pub fn c21(ctx: &mut Ctx) -> R {
    let mut g = KeyGen::new(&mut ctx.rng);
    if g.profile == 8 {
        g = KeyGen::with_profile(&mut ctx.rng, 3);
    }
    if ctx.small {
        g = g.mini();
    }
    let n = if ctx.small { ctx.rng.range(1, 6) } else { ctx.rng.range(1, 40) };
    let full = !ctx.small && ctx.rng.chance(1, 8);
    let m = if full { full_node(ctx) } else { content(ctx, &g, n) };
    if full {
        ctx.stat("ev.full_nodes", 1);
    }
    let other = related(ctx, &g, &m, n);
    // what must stay as it is
    let healthy = VStore::random(&mut ctx.rng);
    let hs = healthy.dynamic();
    let det = Inst { t: m.iter().collect::<RadixTree>(), m: m.clone() };
    let od = other.iter().collect::<RadixTree>();
    let mut at = Inst { t: od.try_attached(hs.clone()).map_err(es("attach"))?, m: other.clone() };
    at.t.try_reattach().map_err(es("reattach"))?;

    // the tree whose blobs will be wrong
    let paged = !cfg!(miri) && ctx.rng.chance(1, 5);
    let vs = VStore::random(&mut ctx.rng);
    let mut roots: Vec<Vec<u8>> = Vec::new();
    let file = if paged { Some(tmpfile()) } else { None };
    let store: DynBlobStore = match &file {
        Some(f) => Arc::new(PagedFileStore::new(f.try_clone().unwrap(), 1 << 20).map_err(es("open"))?),
        None => vs.dynamic(),
    };
    let mut t = det.t.try_attached(store.clone()).map_err(es("attach"))?;
    roots.push(t.try_reattach().map_err(es("reattach"))?);
    for _ in 0..ctx.rng.below(4) {
        let k = g.query(&mut ctx.rng, &m);
        let v = value(ctx);
        t.try_insert(&k, &v).map_err(es("insert"))?;
        roots.push(t.try_reattach().map_err(es("reattach"))?);
    }
    let mut control = Control { det, at, vals: vec![], blobs: vec![] };
    for x in control.at.t.try_iter() {
        let (k, v) = x.map_err(es("iter"))?;
        control.blobs.push((v.load(&hs).map_err(es("load"))?, control.at.m[&k[..]].clone()));
        control.vals.push((v, control.at.m[&k[..]].clone()));
    }
    // blobs read before the corruption
    let early: Vec<(Blob<'static>, u64)> = roots
        .iter()
        .map(|r| {
            let b = store.read(r).unwrap();
            let s = sum(&b);
            (b, s)
        })
        .collect();
    drop(t);
    control.check(ctx, "before")?;
    ctx.nontrivial = m.len() >= 2;
    ctx.op(if paged { "op.case_paged" } else { "op.case_custom" }, &[], || format!("{} entries, {} versions", m.len(), roots.len()));

    // now damage it
    let mut store = store;
    let mut early = early;
    if let Some(f) = &file {
        drop(store);
        early.clear();
        use std::os::unix::fs::FileExt;
        let len = f.metadata().unwrap().len();
        // bytes of blocks only: behind the header
        let first = 8u64;
        if len > first {
            let used = {
                // up to the last non-zero byte
                let mut all = vec![0u8; len as usize];
                f.read_exact_at(&mut all, 0).unwrap();
                all.iter().rposition(|b| *b != 0).unwrap_or(first as usize) as u64 + 1
            };
            for _ in 0..ctx.rng.range(1, 12) {
                let at = first + (ctx.rng.next() % (used.max(first + 1) - first));
                let n = ctx.rng.range(1, 3);
                let b = if ctx.rng.chance(1, 3) { vec![*ctx.rng.pick(&[0u8, 0x7f, 0x80, 0x81, 0x88, 0xff]); n] } else { ctx.rng.bytes(n) };
                let n = n.min((used.max(first + 1) - at) as usize);
                f.write_all_at(&b[..n], at).unwrap();
                ctx.stat("ev.file_bytes_damaged", n as u64);
            }
        }
        let f2 = f.try_clone().unwrap();
        match guarded(|| PagedFileStore::new(f2, 1 << 20)) {
            Ok(Ok(s)) => store = Arc::new(Limited(s, 1500.into())),
            // a refusal is fine
            Ok(Err(_)) | Err(_) => {
                ctx.stat("ev.open_refused", 1);
                return control.check(ctx, "after a refused open");
            }
        }
    } else {
        let rate = *ctx.rng.pick(&[4usize, 16, 40, 100, 256]);
        let seed = ctx.rng.next();
        let mut i = vs.lock();
        i.corrupt = Some(Corrupt { rng: crate::rng::Rng::new(seed), rate, hits: 0, persistent: seed & 1 == 1, cache: Default::default() });
        i.budget = Some(if ctx.small { 150 } else { 1500 });
    }
    let mut keep = Keep { vals: vec![], blobs: vec![], keys: vec![], trees: vec![], dets: vec![] };
    let steps = if ctx.small { 6 } else { ctx.rng.range(6, 40) };
    for s in 0..steps {
        if keep.trees.is_empty() || ctx.rng.chance(1, 6) {
            // load a version, or some other blob as if it were a root
            let id: Vec<u8> = match ctx.rng.below(8) {
                0 if !paged => {
                    let i = vs.lock();
                    let k = ctx.rng.below(i.order.len());
                    i.order[k].clone()
                }
                1 => {
                    let n = ctx.rng.below(12);
                    ctx.rng.bytes(n)
                }
                _ => ctx.rng.pick(&roots).clone(),
            };
            let st = store.clone();
            let r = guarded(|| Tree::try_load(st, Some(&id)));
            if let Some(t) = outcome(ctx, "op.load", r) {
                keep.trees.push(t);
            }
            continue;
        }
        let i = ctx.rng.below(keep.trees.len());
        // combining trees of different stores may follow ids in the wrong one
        healthy.lock().budget = Some(1500);
        let lookups = full && ctx.rng.chance(1, 2);
        act(ctx, &g, &store, i, lookups, &control.det, &control.at, &mut keep);
        healthy.lock().budget = None;
        // nothing that was handed out may change later
        for (b, s) in &keep.blobs {
            ensure!(sum(b) == *s, "a blob read from the damaged store changed while it was held");
        }
        for (k, d) in &keep.keys {
            ensure!(k[..] == d[..], "a key changed while it was held");
        }
        if s % 8 == 7 {
            control.check(ctx, "during the use of damaged data")?;
        }
    }
    let hits = vs.lock().corrupt.as_ref().map(|c| c.hits).unwrap_or(0);
    ctx.stat("ev.corrupt_reads", hits);
    for (b, s) in &early {
        ensure!(sum(b) == *s, "a blob read before the damage changed");
    }
    let order = ctx.rng.chance(1, 2);
    let r = guarded(|| {
        if order {
            drop(std::mem::take(&mut keep.trees));
        }
        drop(std::mem::take(&mut keep.vals));
        drop(std::mem::take(&mut keep.dets));
        drop(std::mem::take(&mut keep.trees));
    });
    if let Err(p) = r {
        fail!("dropping trees and values panicked: {}", p);
    }
    for (b, s) in &keep.blobs {
        ensure!(sum(b) == *s, "a blob read from the damaged store changed after everything else was dropped");
    }
    drop(keep);
    control.check(ctx, "after the use of damaged data")
}

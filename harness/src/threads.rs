//! C17 (stores shared between threads) and C18 (trees sharing structure between threads).
//!
//! The threads of a case synchronise with each other only at start and end (and through the code under test),
//! so that a race detector sees the races of that code. Time stamps come from the monotonic clock.
use crate::ctx::{es, hex, Ctx, R};
use crate::gen::*;
use crate::rng::mix;
use crate::run::guarded;
use crate::stores::{data, page_size, Any};
use crate::suites::tmpfile;
use crate::vstore::VStore;
use crate::world::*;
use crate::{ensure, fail};
use std::sync::mpsc::{channel, Receiver, Sender};
use radixdb::node::{IterKey, KeyValueIter, Value, ValueIter};
use radixdb::store::{Blob, BlobStore, Detached, DynBlobStore, MemStore, PagedFileStore};
use radixdb::RadixTree;
use std::collections::HashMap;
use std::sync::{Arc, Barrier, Mutex};
use std::time::Instant;

#[allow(dead_code)]
fn types_are_shareable() {
    fn both<T: Send + Sync>() {}
    both::<RadixTree>();
    both::<RadixTree<DynBlobStore>>();
    both::<KeyValueIter<Detached>>();
    both::<KeyValueIter<DynBlobStore>>();
    both::<ValueIter<DynBlobStore>>();
    both::<Value<DynBlobStore>>();
    both::<IterKey>();
    both::<Blob<'static>>();
    both::<MemStore>();
    both::<PagedFileStore>();
}

/// a delay of varying kind, to vary the interleaving
fn jitter(ctx: &mut Ctx) {
    match ctx.rng.below(12) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..ctx.rng.below(if cfg!(miri) { 3 } else { 400 }) {
                std::hint::spin_loop();
            }
        }
        2 if !cfg!(miri) && ctx.rng.chance(1, 8) => std::thread::sleep(std::time::Duration::from_micros(ctx.rng.below(60) as u64)),
        _ => {}
    }
}

fn child(ctx: &mut Ctx, t: usize) -> Ctx {
    let seed = ctx.rng.next() ^ mix(t as u64);
    let mut c = Ctx::new(seed, ctx.index);
    c.small = ctx.small;
    c.thorough = ctx.thorough;
    c.verbose = ctx.verbose;
    // values of different threads differ
    for _ in 0..t * 7 {
        c.fresh();
    }
    c
}

fn merge(ctx: &mut Ctx, t: usize, c: Ctx) {
    for (k, v) in &c.stats {
        if k.starts_with("max.") {
            ctx.max(k, *v);
        } else {
            ctx.stat(k, *v);
        }
    }
    ctx.ops += c.ops;
    ctx.sig.num(c.sig.0);
    for l in c.trace {
        ctx.trace.push(format!("[thread {}] {}", t, l));
    }
}

/// how the steps of the threads interleaved
fn schedule(ctx: &mut Ctx, times: &[Vec<Instant>]) {
    let mut all: Vec<(Instant, usize)> = times.iter().enumerate().flat_map(|(t, v)| v.iter().map(move |x| (*x, t))).collect();
    all.sort();
    let mut alt = 0;
    for w in all.windows(2) {
        alt += (w[0].1 != w[1].1) as u64;
    }
    for (_, t) in &all {
        ctx.sig.num(*t as u64);
    }
    ctx.stat("ev.steps_of_threads", all.len() as u64);
    ctx.stat("ev.thread_alternations", alt);
    ctx.stat("ev.cases_interleaved", (alt >= times.len() as u64) as u64);
}

// ------------------------------------------------------------------ C17

struct W {
    start: Instant,
    end: Instant,
    id: Vec<u8>,
    data: Vec<u8>,
}

#[derive(Default)]
struct Log {
    writes: Vec<W>,
    lasts: Vec<(Instant, Instant, Option<[u8; 8]>)>,
    times: Vec<Instant>,
    held: Vec<(Blob<'static>, Vec<u8>)>,
}

pub fn c17(ctx: &mut Ctx) -> R {
    let kind = ctx.rng.below(if cfg!(miri) { 2 } else { 6 });
    let ps = page_size(ctx).min(65536);
    let file = if kind >= 2 { Some(tmpfile()) } else { None };
    let paged = || PagedFileStore::new(file.as_ref().unwrap().try_clone().unwrap(), ps).map_err(es("open"));
    let mem = MemStore::default();
    let open = || -> R<Any> {
        Ok(match kind {
            0 => Any::Mem(mem.clone()),
            1 => Any::MemDyn(Arc::new(mem.clone())),
            2 | 3 => Any::Paged(paged()?),
            4 => {
                let p = paged()?;
                Any::PagedDyn(Arc::new(p.clone()), p)
            }
            _ => Any::PagedDyn2(Arc::new(paged()?)),
        })
    };
    let mut s = open()?;
    let psz = if kind >= 2 { Some(ps) } else { None };
    ctx.stat(if kind < 2 { "store.mem" } else { "store.paged" }, 1);
    let nt = if ctx.small { 2 } else { ctx.rng.range(2, 5) };
    // ids are passed between the threads in half of the cases; in the others nothing but the store connects them
    let publish = ctx.rng.chance(1, 2);
    ctx.op("op.case", &[kind as u8, nt as u8, publish as u8], || format!("kind {} page size {:?} threads {} publish {}", kind, psz, nt, publish));
    let mut base: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    let most = if ctx.small { 4 } else { *ctx.rng.pick(&[6, 6, 40]) };
    let nb = ctx.rng.below(most);
    for _ in 0..nb {
        let mut d = b"base".to_vec();
        d.extend_from_slice(&data(ctx, psz));
        d.truncate(ps as usize - 8);
        base.push((s.write(&d).map_err(es("write"))?, d));
    }
    if kind >= 2 && ctx.rng.chance(2, 3) {
        // a store whose first blobs are only in the file
        drop(s);
        s = open()?;
        ctx.stat("ev.reopened_before", 1);
    }
    let pool: Mutex<Vec<(Vec<u8>, Vec<u8>)>> = Mutex::new(vec![]);
    let barrier = Barrier::new(nt);
    let steps = if ctx.small { 6 } else { ctx.rng.range(10, 60) };
    let ctxs: Vec<Ctx> = (0..nt).map(|t| child(ctx, t)).collect();
    let results: Vec<(Ctx, Result<R<Log>, String>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = ctxs
            .into_iter()
            .enumerate()
            .map(|(t, mut c)| {
                let (s, base, pool, barrier) = (&s, &base, &pool, &barrier);
                sc.spawn(move || {
                    // some through a clone, some through a shared reference
                    let own = s.clone();
                    let s = if t % 2 == 0 { &own } else { s };
                    barrier.wait();
                    let r = guarded(|| store_thread(&mut c, s, t, base, pool, publish, steps, psz));
                    (c, r)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut logs = Vec::new();
    let mut err: R = Ok(());
    for (t, (c, r)) in results.into_iter().enumerate() {
        merge(ctx, t, c);
        match r {
            Ok(Ok(l)) => logs.push(l),
            Ok(Err(e)) | Err(e) => {
                if err.is_ok() {
                    err = Err(format!("thread {}: {}", t, e));
                }
            }
        }
    }
    err?;
    schedule(ctx, &logs.iter().map(|l| l.times.clone()).collect::<Vec<_>>());
    // offline: ids unique
    let mut seen: HashMap<&[u8], &[u8]> = HashMap::new();
    for (id, d) in &base {
        seen.insert(id, d);
    }
    let mut ws: Vec<&W> = logs.iter().flat_map(|l| l.writes.iter()).collect();
    for w in &ws {
        if let Some(d) = seen.insert(&w.id, &w.data) {
            fail!("id {} was returned for {} and for {}", hex(&w.id), hex(d), hex(&w.data));
        }
    }
    ctx.nontrivial = ws.len() >= 2;
    ctx.stat("ev.writes", ws.len() as u64);
    // ids follow real time (ids are big endian numbers)
    ws.sort_by(|a, b| a.id.cmp(&b.id));
    // the largest start of all writes with smaller ids must not be after the end of this one... in reverse:
    // walking down from the largest id, no write may have ended before one with a smaller id started
    let mut min_end: Option<&W> = None;
    for w in ws.iter().rev() {
        if let Some(m) = min_end {
            ensure!(m.end >= w.start, "the write of {} returned id {} before the write that got the smaller id {} started", hex(&m.data), hex(&m.id), hex(&w.id));
        }
        if min_end.map(|m| w.end < m.end).unwrap_or(true) {
            min_end = Some(w);
        }
    }
    let mut overlap = 0u64;
    let mut by_start: Vec<&&W> = ws.iter().collect();
    by_start.sort_by_key(|w| w.start);
    for p in by_start.windows(2) {
        overlap += (p[1].start < p[0].end) as u64;
    }
    ctx.stat("ev.overlapping_writes", overlap);
    // last_id is the id of a write that can have been the last one
    let base_last = base.last().map(|x| x.0.clone());
    for l in logs.iter().flat_map(|l| l.lasts.iter()) {
        let got = l.2.map(|x| x.to_vec());
        // lower bound: everything that ended before the call
        let low = ws.iter().filter(|w| w.end < l.0).map(|w| w.id.clone()).max().or(base_last.clone());
        ensure!(got >= low, "last_id is {:?} after the write of {:?} had returned", got.map(|x| hex(&x)), low.map(|x| hex(&x)));
        if got != base_last {
            let ok = ws.iter().any(|w| Some(&w.id) == got.as_ref() && w.start <= l.1);
            ensure!(ok, "last_id {:?} is not the id of any write that had started", got.map(|x| hex(&x)));
        }
        ctx.stat("ev.last_id_checked", 1);
    }
    // everything reads back, from here and after reopening
    for (id, d) in seen.iter() {
        let b = s.read(id).map_err(es("read at the end"))?;
        ensure!(b[..] == **d, "blob {} reads {} instead of {}", hex(id), hex(&b), hex(d));
    }
    if kind < 2 {
        ensure!(mem.count() == seen.len(), "MemStore::count is {} after {} writes", mem.count(), seen.len());
    } else {
        let max = ws.last().map(|w| w.id.clone()).or(base_last);
        if let Some(l) = s.last() {
            ensure!(l.map(|x| x.to_vec()) == max, "last_id is {:?} at the end", l.map(|x| hex(&x)));
        }
        let s2 = paged()?;
        ensure!(s2.last_id().map(|x| x.to_vec()) == max, "last_id is {:?} after reopening", s2.last_id().map(|x| hex(&x)));
        for (id, d) in seen.iter() {
            let b = s2.read(id).map_err(es("read after reopening"))?;
            ensure!(b[..] == **d, "blob {} reads {} instead of {} after reopening", hex(id), hex(&b), hex(d));
        }
    }
    for (b, d) in logs.iter().flat_map(|l| l.held.iter()) {
        ensure!(b[..] == d[..], "held blob changed to {} from {}", hex(b), hex(d));
    }
    Ok(())
}

fn store_thread(c: &mut Ctx, s: &Any, t: usize, base: &[(Vec<u8>, Vec<u8>)], pool: &Mutex<Vec<(Vec<u8>, Vec<u8>)>>, publish: bool, steps: usize, ps: Option<u64>) -> R<Log> {
    let mut l = Log::default();
    let mut own: Vec<(Vec<u8>, Vec<u8>)> = base.to_vec();
    let heavy = c.rng.chance(1, 2);
    for _ in 0..steps {
        jitter(c);
        l.times.push(Instant::now());
        match c.rng.below(12) {
            0..=5 => {
                let mut d = if heavy { data(c, ps) } else { vec![0; c.rng.below(24).min(ps.map(|p| p as usize - 8).unwrap_or(99))] };
                // distinct data (as far as it fits)
                let tag = [t as u8 + 1, (l.writes.len() >> 8) as u8, l.writes.len() as u8];
                let k = d.len().min(3);
                d[..k].copy_from_slice(&tag[..k]);
                let start = Instant::now();
                let id = s.write(&d).map_err(es("write"))?;
                let end = Instant::now();
                c.op("op.write", &[], || format!("{} -> {}", hex(&d), hex(&id)));
                if publish {
                    pool.lock().unwrap().push((id.clone(), d.clone()));
                }
                own.push((id.clone(), d.clone()));
                l.writes.push(W { start, end, id, data: d });
            }
            6..=9 => {
                let from_pool = publish && c.rng.chance(2, 3);
                let x = if from_pool {
                    let p = pool.lock().unwrap();
                    if p.is_empty() {
                        None
                    } else {
                        Some(p[p.len() - 1 - c.rng.below(p.len().min(8))].clone())
                    }
                } else if own.is_empty() {
                    None
                } else {
                    let k = c.rng.below(own.len());
                    Some(own[k].clone())
                };
                let Some((id, d)) = x else { continue };
                c.op(if from_pool { "op.read_shared_id" } else { "op.read_own_id" }, &[], || hex(&id));
                let b = s.read(&id).map_err(es("read"))?;
                ensure!(b[..] == d[..], "blob {} reads {} instead of {}", hex(&id), hex(&b), hex(&d));
                if c.rng.chance(1, 4) && l.held.len() < 16 {
                    l.held.push((b, d));
                }
            }
            10 => {
                let a = Instant::now();
                if let Some(x) = s.last() {
                    l.lasts.push((a, Instant::now(), x));
                    c.op("op.last_id", &[], || String::new());
                }
            }
            _ => match c.rng.below(4) {
                0 => {
                    c.op("op.sync", &[], || String::new());
                    s.sync().map_err(es("sync"))?
                }
                1 => {
                    // an id nobody has: may be refused or not, but nothing else
                    let id = c.rng.bytes(8);
                    c.op("op.read_unissued_id", &id, || String::new());
                    let _ = s.read(&id);
                }
                2 => {
                    for (b, d) in &l.held {
                        ensure!(b[..] == d[..], "held blob changed to {} from {}", hex(b), hex(d));
                    }
                    c.stat("ev.held_checked", l.held.len() as u64);
                }
                _ => {
                    if let Some(ps) = ps {
                        let d = vec![1u8; ps as usize + 9];
                        c.op("op.write_too_large", &[], || String::new());
                        ensure!(s.write(&d).is_err(), "a block larger than a page was accepted");
                    }
                }
            },
        }
    }
    Ok(l)
}

// ------------------------------------------------------------------ C18

const OPS: &[(Op, u32)] = &[
    (Op::Insert, 20),
    (Op::InsertMany, 2),
    (Op::Remove, 3),
    (Op::RemoveSame, 12),
    (Op::RemovePrefix, 5),
    (Op::Get, 5),
    (Op::Prefix, 5),
    (Op::Extremes, 2),
    (Op::GroupBy, 3),
    (Op::Filter, 5),
    (Op::CloneInst, 10),
    (Op::DropInst, 8),
    (Op::Hold, 8),
    (Op::StepHeld, 10),
    (Op::DropHeld, 3),
    (Op::JoinWithDet, 3),
    (Op::JoinWithInst, 5),
    (Op::SelfOp, 3),
    (Op::JoinNew, 2),
    (Op::JoinPred, 2),
    (Op::Retain, 3),
    (Op::RemoveSet, 3),
    (Op::Detach, 2),
    (Op::Attach, 2),
    (Op::Reattach, 3),
    (Op::Reload, 2),
    (Op::RemoveAll, 1),
];

pub fn c18(ctx: &mut Ctx) -> R {
    match ctx.rng.weighted(&[12, 2, 4, 1]) {
        0 => {
            ctx.stat("store.detached", 1);
            tree_case(ctx, Detached)
        }
        // (parking_lot under contention is outside what Miri accepts)
        1 if !cfg!(miri) => {
            ctx.stat("store.mem", 1);
            let s: DynBlobStore = Arc::new(MemStore::default());
            tree_case(ctx, s)
        }
        3 if !cfg!(miri) => {
            ctx.stat("store.paged", 1);
            let s: DynBlobStore = Arc::new(PagedFileStore::new(tmpfile(), 1 << 20).map_err(es("open"))?);
            tree_case(ctx, s)
        }
        _ => {
            ctx.stat("store.custom", 1);
            let s = VStore::random(&mut ctx.rng).dynamic();
            tree_case(ctx, s)
        }
    }
}

fn cp<S: Backend>(i: &Inst<S>) -> Inst<S> {
    Inst { t: i.t.clone(), m: i.m.clone() }
}

struct Bag<S: Backend> {
    insts: Vec<Inst<S>>,
    held: Vec<Held<S>>,
    dets: Vec<Inst<Detached>>,
    to: Vec<Sender<Item<S>>>,
    from: Receiver<Item<S>>,
}

/// what threads send each other while they run (a channel: the receiver synchronises with the sender, not the other way round)
enum Item<S: Backend> {
    Held(Held<S>),
    Inst(Inst<S>),
}

fn tree_case<S: Backend>(ctx: &mut Ctx, store: S) -> R {
    let mut g = KeyGen::new(&mut ctx.rng);
    if g.profile == 8 {
        g = KeyGen::with_profile(&mut ctx.rng, 3);
    }
    if ctx.small {
        g = g.mini();
    }
    let mut w = World::<S>::with_gen(ctx, store.clone(), g.clone());
    let n = if ctx.small { ctx.rng.range(2, 6) } else { ctx.rng.range(3, 40) };
    for _ in 0..n {
        w.apply(ctx, Op::Insert)?;
    }
    if S::ATTACHED && ctx.rng.chance(2, 3) {
        w.apply(ctx, Op::Reload)?;
    }
    for _ in 0..ctx.rng.below(4) {
        w.step(ctx, &[(Op::Insert, 3), (Op::RemoveSame, 2), (Op::CloneInst, 2), (Op::Filter, 1), (Op::SelfOp, 1)])?;
    }
    let k = (0..w.insts.len()).max_by_key(|k| w.insts[*k].m.len()).unwrap();
    let base = cp(&w.insts[k]);
    ctx.nontrivial = base.m.len() >= 2;
    let nt = if ctx.small { 2 } else { ctx.rng.range(2, 4) };
    let steps = if ctx.small { 3 } else { ctx.rng.range(5, 40) };
    ctx.op("op.case", &[nt as u8], || format!("{} threads, {} steps each, {} entries", nt, steps, base.m.len()));
    // what each thread gets: clones, derived trees, iterators, values, keys
    let det = Inst { t: base.t.try_detached().map_err(es("detached"))?, m: base.m.clone() };
    let mut bags = Vec::new();
    let (txs, mut rxs): (Vec<_>, Vec<_>) = (0..=nt).map(|_| channel::<Item<S>>()).unzip();
    let own_rx = rxs.pop().unwrap();
    for from in rxs {
        let mut b = Bag { insts: vec![cp(&base)], held: vec![], dets: vec![Inst { t: det.t.clone(), m: det.m.clone() }], to: txs.clone(), from };
        if ctx.rng.chance(1, 2) {
            let k = ctx.rng.below(w.insts.len());
            b.insts.push(cp(&w.insts[k]));
        }
        if ctx.rng.chance(1, 2) {
            let p = g.query(&mut ctx.rng, &base.m);
            let t = base.t.try_filter_prefix(&p, b"").map_err(es("filter_prefix"))?;
            b.insts.push(Inst { t, m: filter_model(&base.m, &p, b"") });
        }
        for _ in 0..ctx.rng.below(4) {
            if let Some(h) = hold(ctx, &g, &base)? {
                b.held.push(h);
            }
        }
        bags.push(b);
    }
    // the shared tree is read through a reference by all of them
    let shared = cp(&base);
    drop(w);
    let barrier = Barrier::new(nt + 1);
    let ctxs: Vec<Ctx> = (0..=nt).map(|t| child(ctx, t)).collect();
    let mut own = Some(base);
    let results: Vec<(Ctx, Result<R<Vec<Instant>>, String>)> = std::thread::scope(|sc| {
        let mut it = ctxs.into_iter();
        let hs: Vec<_> = bags
            .into_iter()
            .map(|b| {
                let mut c = it.next().unwrap();
                let (g, store, shared, barrier) = (&g, &store, &shared, &barrier);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let store = store.clone();
                        barrier.wait();
                        let r = guarded(|| tree_thread(&mut c, g, store, b, shared, steps));
                        (c, r)
                    })
                    .unwrap()
            })
            .collect();
        // this thread goes on with the tree itself, and drops it
        let mut c = it.next().unwrap();
        barrier.wait();
        let b = Bag { insts: vec![own.take().unwrap()], held: vec![], dets: vec![], to: txs, from: own_rx };
        let r = guarded(|| tree_thread(&mut c, &g, store.clone(), b, &shared, steps / 2));
        let mut out: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        out.push((c, r));
        out
    });
    let mut err: R = Ok(());
    let mut times = Vec::new();
    for (t, (c, r)) in results.into_iter().enumerate() {
        merge(ctx, t, c);
        match r {
            Ok(Ok(l)) => times.push(l),
            Ok(Err(e)) | Err(e) => {
                if err.is_ok() {
                    err = Err(format!("thread {}: {}", t, e));
                }
            }
        }
    }
    err?;
    schedule(ctx, &times);
    verify(ctx, "the shared tree at the end", &shared.t, &shared.m)
}

fn tree_thread<S: Backend>(c: &mut Ctx, g: &KeyGen, store: S, b: Bag<S>, shared: &Inst<S>, steps: usize) -> R<Vec<Instant>> {
    let mut w = World::<S>::with_gen(c, store, g.clone());
    w.max_entries = if c.small { 10 } else { 80 };
    w.insts = b.insts;
    w.held = b.held;
    w.dets = b.dets;
    let (to, from) = (b.to, b.from);
    let mut times = Vec::new();
    for _ in 0..steps {
        jitter(c);
        times.push(Instant::now());
        if c.rng.chance(1, 8) {
            c.op("op.read_shared_tree", &[], || String::new());
            match c.rng.below(3) {
                0 => verify(c, "shared tree", &shared.t, &shared.m)?,
                1 => {
                    let k = g.query(&mut c.rng, &shared.m);
                    verify_prefix(c, &shared.t, &shared.m, &k)?;
                }
                _ => {
                    let i = cp(shared);
                    if w.insts.len() < 4 {
                        w.insts.push(i);
                    }
                }
            }
            continue;
        }
        if c.rng.chance(1, 4) {
            // what the others sent: look at it and give it up at once, or keep it
            for _ in 0..c.rng.range(1, 6) {
                match from.try_recv() {
                    Ok(Item::Held(mut h)) => {
                        c.stat("ev.received", 1);
                        h.step(c, 2)?;
                        if c.rng.chance(1, 4) && w.held.len() < 8 {
                            w.held.push(h);
                        }
                    }
                    Ok(Item::Inst(i)) => {
                        c.stat("ev.received", 1);
                        verify(c, "tree from another thread", &i.t, &i.m)?;
                        if c.rng.chance(1, 2) && w.insts.len() < 5 {
                            w.insts.push(i);
                        }
                    }
                    Err(_) => break,
                }
            }
        }
        if c.rng.chance(1, 6) && !w.insts.is_empty() {
            // give away keys and values of an iterator while it goes on, and trees while they change
            let k = c.rng.below(w.insts.len());
            let i = cp(&w.insts[k]);
            c.op("op.iterate_and_send", &[], || format!("#{}", k));
            if c.rng.chance(1, 3) {
                let _ = to[c.rng.below(to.len())].send(Item::Inst(i));
                continue;
            }
            let slow = c.rng.below(3) * 300;
            let s = RadixTree::store(&i.t).clone();
            let mut it = i.t.try_iter();
            for (ek, ev) in i.m.iter().take(16) {
                let (key, v) = match it.next() {
                    Some(r) => r.map_err(es("iter"))?,
                    None => fail!("iterator ends before key {}", hex(ek)),
                };
                ensure!(key.as_ref() == &ek[..], "iterator yields {} instead of {}", hex(&key), hex(ek));
                if c.rng.chance(2, 3) {
                    let _ = to[c.rng.below(to.len())].send(Item::Held(Held::Key(key, ek.clone())));
                }
                if c.rng.chance(1, 3) {
                    let _ = to[c.rng.below(to.len())].send(Item::Held(Held::Val(v, s.clone(), ev.clone())));
                }
                for _ in 0..slow {
                    std::hint::spin_loop();
                }
            }
            continue;
        }
        w.step(c, OPS)?;
        if w.insts.iter().any(|i| i.m.keys().any(|k| k.len() > 100000)) {
            break;
        }
    }
    w.finish(c)?;
    Ok(times)
}

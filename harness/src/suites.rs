//! The model based suites: one world profile per property.
use crate::ctx::{es, hex, Ctx, R};
use crate::gen::*;
use crate::run::guarded;
use crate::vstore::VStore;
use crate::world::*;
use crate::{ensure, fail};
use radixdb::store::{Detached, DynBlobStore, MemStore, PagedFileStore};
use radixdb::RadixTree;
use std::sync::Arc;

impl Backend for MemStore {
    const ATTACHED: bool = true;
    type E = anyhow::Error;
}
impl Backend for PagedFileStore {
    const ATTACHED: bool = true;
    type E = anyhow::Error;
}

pub type Weights = &'static [(Op, u32)];

/// an anonymous file
pub fn tmpfile() -> std::fs::File {
    #[cfg(miri)]
    {
        panic!("no files under miri")
    }
    #[cfg(not(miri))]
    unsafe {
        use std::os::fd::FromRawFd;
        let fd = libc::memfd_create(b"verif\0".as_ptr() as *const libc::c_char, 0);
        assert!(fd >= 0, "memfd_create failed");
        std::fs::File::from_raw_fd(fd)
    }
}

pub const PAGE_SIZES: &[u64] = &[4096, 8192, 16384, 65536, 1 << 20];

/// run a world over a store of a random kind
pub fn with_world(ctx: &mut Ctx, w: Weights, steps: (usize, usize), stores: [u32; 6], pre: usize) -> R {
    let kind = ctx.rng.weighted(&stores);
    let n = ctx.rng.range(steps.0, steps.1);
    match kind {
        0 => {
            ctx.stat("store.detached", 1);
            drive(ctx, Detached, w, n, pre)
        }
        1 => {
            ctx.stat("store.mem_dyn", 1);
            let s: DynBlobStore = Arc::new(MemStore::default());
            drive(ctx, s, w, n, pre)
        }
        2 if !cfg!(miri) => {
            ctx.stat("store.paged_dyn", 1);
            let s: DynBlobStore = Arc::new(PagedFileStore::new(tmpfile(), 1 << 23).map_err(es("open"))?);
            drive(ctx, s, w, n, pre)
        }
        3 => {
            ctx.stat("store.mem", 1);
            drive(ctx, MemStore::default(), w, n, pre)
        }
        4 if !cfg!(miri) => {
            ctx.stat("store.paged", 1);
            drive(ctx, PagedFileStore::new(tmpfile(), 1 << 23).map_err(es("open"))?, w, n, pre)
        }
        _ => {
            ctx.stat("store.custom", 1);
            let s = VStore::random(&mut ctx.rng);
            let len = s.lock().id_len;
            ctx.note(|| format!("custom store, id length {}", len));
            let r = drive(ctx, s.dynamic(), w, n, pre);
            let bad = s.lock().bad_reads.len();
            if r.is_ok() && bad > 0 {
                fail!("{} reads of ids the store never issued", bad);
            }
            r
        }
    }
}

fn drive<S: Backend>(ctx: &mut Ctx, store: S, w: Weights, n: usize, pre: usize) -> R {
    let mut world = World::<S>::new(ctx, store);
    if pre > 0 {
        // start with content, and (attached) with parts of it only in the store
        let k = ctx.rng.below(pre + 1);
        for _ in 0..k {
            world.apply(ctx, Op::Insert)?;
        }
        if S::ATTACHED && ctx.rng.chance(2, 3) {
            world.apply(ctx, Op::Reload)?;
        }
    }
    for _ in 0..n {
        world.step(ctx, w)?;
    }
    ctx.nontrivial = world.insts.iter().any(|i| i.m.len() >= 2) || !world.dets.is_empty();
    world.finish(ctx)
}

// detached, mem dyn, paged dyn, mem, paged, custom
const MIXED: [u32; 6] = [50, 6, 4, 4, 4, 32];
const ATTACHED: [u32; 6] = [0, 10, 10, 5, 10, 65];

pub fn c01(ctx: &mut Ctx) -> R {
    with_world(
        ctx,
        &[
            (Op::Insert, 40),
            (Op::InsertMany, 4),
            (Op::Fan, 1),
            (Op::Remove, 15),
            (Op::RemoveSame, 18),
            (Op::RemovePrefix, 5),
            (Op::RemoveAll, 2),
            (Op::Get, 10),
            (Op::CloneInst, 2),
            (Op::DropInst, 2),
            (Op::Fresh, 1),
            (Op::Reload, 1),
            (Op::Reattach, 1),
            (Op::Wrappers, 4),
        ],
        (5, 70),
        MIXED,
        20,
    )
}

pub fn c02(ctx: &mut Ctx) -> R {
    with_world(
        ctx,
        &[
            (Op::Insert, 12),
            (Op::InsertMany, 6),
            (Op::Fan, 1),
            (Op::RemoveSame, 6),
            (Op::Prefix, 30),
            (Op::Extremes, 6),
            (Op::GroupBy, 8),
            (Op::Filter, 14),
            (Op::Reload, 4),
            (Op::Reattach, 2),
            (Op::Wrappers, 4),
        ],
        (5, 60),
        MIXED,
        40,
    )
}

pub fn c03(ctx: &mut Ctx) -> R {
    with_world(
        ctx,
        &[
            (Op::Insert, 12),
            (Op::InsertMany, 4),
            (Op::Fan, 1),
            (Op::RemoveSame, 3),
            (Op::JoinWithDet, 14),
            (Op::JoinWithInst, 8),
            (Op::JoinNew, 16),
            (Op::JoinPred, 12),
            (Op::JoinForeign, 3),
            (Op::SelfOp, 4),
            (Op::CloneInst, 4),
            (Op::Filter, 3),
            (Op::Fresh, 2),
            (Op::Reload, 3),
            (Op::Wrappers, 5),
        ],
        (4, 30),
        MIXED,
        25,
    )
}

pub fn c04(ctx: &mut Ctx) -> R {
    with_world(
        ctx,
        &[
            (Op::Insert, 14),
            (Op::InsertMany, 8),
            (Op::Fan, 1),
            (Op::Retain, 20),
            (Op::RemoveSet, 20),
            (Op::CloneInst, 6),
            (Op::Filter, 3),
            (Op::Fresh, 2),
            (Op::Reload, 3),
            (Op::Wrappers, 4),
        ],
        (4, 40),
        MIXED,
        25,
    )
}

pub fn c05(ctx: &mut Ctx) -> R {
    with_world(
        ctx,
        &[
            (Op::Insert, 16),
            (Op::InsertMany, 3),
            (Op::Fan, 1),
            (Op::Remove, 4),
            (Op::RemoveSame, 10),
            (Op::RemovePrefix, 4),
            (Op::Filter, 6),
            (Op::GroupBy, 5),
            (Op::CloneInst, 14),
            (Op::DropInst, 6),
            (Op::Hold, 18),
            (Op::StepHeld, 16),
            (Op::DropHeld, 2),
            (Op::JoinWithDet, 5),
            (Op::JoinWithInst, 6),
            (Op::SelfOp, 5),
            (Op::JoinNew, 4),
            (Op::Retain, 3),
            (Op::RemoveSet, 3),
            (Op::Reattach, 3),
            (Op::Reload, 2),
            (Op::Attach, 2),
            (Op::Detach, 2),
            (Op::RemoveAll, 1),
        ],
        (10, 70),
        MIXED,
        25,
    )
}

pub fn c06(ctx: &mut Ctx) -> R {
    with_world(
        ctx,
        &[
            (Op::Insert, 14),
            (Op::InsertMany, 3),
            (Op::Fan, 1),
            (Op::Remove, 4),
            (Op::RemoveSame, 14),
            (Op::RemovePrefix, 6),
            (Op::RemoveAll, 2),
            (Op::Filter, 6),
            (Op::GroupBy, 3),
            (Op::JoinWithDet, 6),
            (Op::JoinWithInst, 3),
            (Op::JoinNew, 5),
            (Op::Retain, 4),
            (Op::RemoveSet, 4),
            (Op::SelfOp, 3),
            (Op::Reattach, 2),
            (Op::Reload, 3),
            (Op::Detach, 6),
            (Op::Attach, 2),
            (Op::Eq, 18),
            (Op::Shape, 6),
        ],
        (5, 50),
        MIXED,
        25,
    )
}

/// ids longer than the stored form can hold are refused, or they work
fn long_ids(ctx: &mut Ctx) -> R {
    let g = KeyGen::new(&mut ctx.rng);
    let n = ctx.rng.range(1, 20);
    let m = content(ctx, &g, n);
    let len = *ctx.rng.pick(&[126usize, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300]);
    let vary = ctx.rng.chance(1, 3);
    let store = VStore::new(len, vary).dynamic();
    let t = build(&m, ctx);
    ctx.op("op.long_ids", &(len as u64).to_be_bytes(), || format!("{} bytes", len));
    let r = guarded(|| -> anyhow::Result<Vec<u8>> { t.try_attached(store.clone())?.try_reattach() });
    match r {
        Ok(Ok(id)) => {
            ctx.stat("ev.long_ids_taken", 1);
            let l = RadixTree::<DynBlobStore>::try_load(store, Some(&id)).map_err(es("load"))?;
            verify(ctx, "tree with long ids", &l, &m)
        }
        _ => {
            ctx.stat("ev.long_ids_refused", 1);
            ensure!(len + 3 * vary as usize > 126, "ids of {} bytes are refused", len);
            Ok(())
        }
    }
}

pub fn c07(ctx: &mut Ctx) -> R {
    if ctx.rng.chance(1, 10) {
        long_ids(ctx)?;
    }
    with_world(
        ctx,
        &[
            (Op::Insert, 14),
            (Op::InsertMany, 6),
            (Op::Fan, 2),
            (Op::RemoveSame, 5),
            (Op::RemovePrefix, 1),
            (Op::Reattach, 10),
            (Op::Reload, 14),
            (Op::Attach, 8),
            (Op::Detach, 8),
            (Op::OldRoot, 3),
            (Op::Get, 10),
            (Op::Prefix, 10),
            (Op::Extremes, 4),
            (Op::Filter, 2),
            (Op::Eq, 2),
        ],
        (5, 40),
        ATTACHED,
        30,
    )
}

pub fn c08(ctx: &mut Ctx) -> R {
    with_world(
        ctx,
        &[
            (Op::Insert, 20),
            (Op::InsertMany, 3),
            (Op::Fan, 1),
            (Op::Remove, 4),
            (Op::RemoveSame, 12),
            (Op::RemovePrefix, 5),
            (Op::RemoveAll, 1),
            (Op::Get, 4),
            (Op::Prefix, 5),
            (Op::Extremes, 3),
            (Op::GroupBy, 3),
            (Op::Filter, 6),
            (Op::CloneInst, 3),
            (Op::JoinWithDet, 7),
            (Op::JoinWithInst, 6),
            (Op::JoinForeign, 6),
            (Op::JoinNew, 6),
            (Op::JoinPred, 5),
            (Op::Retain, 5),
            (Op::RemoveSet, 5),
            (Op::SelfOp, 3),
            (Op::Hold, 2),
            (Op::StepHeld, 2),
            (Op::Detach, 2),
            (Op::Attach, 3),
            (Op::Reattach, 6),
            (Op::Reload, 16),
            (Op::OldRoot, 2),
        ],
        (8, 60),
        ATTACHED,
        30,
    )
}

pub fn c09(ctx: &mut Ctx) -> R {
    let paged = !cfg!(miri) && ctx.rng.chance(1, 4);
    if paged {
        return c09_paged(ctx);
    }
    with_world(ctx, C09_OPS, (10, 60), [0, 15, 0, 10, 0, 75], 25)
}

const C09_OPS: Weights = &[
    (Op::Insert, 20),
    (Op::InsertMany, 3),
    (Op::RemoveSame, 12),
    (Op::RemovePrefix, 4),
    (Op::RemoveAll, 1),
    (Op::Filter, 4),
    (Op::JoinWithDet, 4),
    (Op::JoinWithInst, 4),
    (Op::Retain, 2),
    (Op::RemoveSet, 2),
    (Op::SelfOp, 2),
    (Op::CloneInst, 4),
    (Op::DropInst, 3),
    (Op::Attach, 3),
    (Op::Reattach, 22),
    (Op::Reload, 6),
    (Op::OldRoot, 18),
];

/// versions in a file, across reopening; the bytes of the committed part of the file never change
fn c09_paged(ctx: &mut Ctx) -> R {
    use std::os::unix::fs::FileExt;
    ctx.stat("store.paged_reopened", 1);
    let file = tmpfile();
    let ps = *ctx.rng.pick(&[1u64 << 18, 1 << 19, 1 << 20]);
    let g = KeyGen::new(&mut ctx.rng);
    let g = if ctx.small { g.mini() } else { g };
    let g = if g.profile == 8 { KeyGen::with_profile(&mut ctx.rng, 3) } else { g };
    let mut roots: Vec<(Vec<u8>, Model)> = Vec::new();
    let mut committed: Vec<u8> = Vec::new();
    let sessions = ctx.rng.range(2, 4);
    for s in 0..sessions {
        let store = PagedFileStore::new(file.try_clone().unwrap(), ps).map_err(es("open"))?;
        let d: DynBlobStore = Arc::new(store.clone());
        let mut w = World::<DynBlobStore>::with_gen(ctx, d.clone(), g.clone());
        w.max_entries = 150;
        ctx.note(|| format!("session {} page size {}", s, ps));
        if let Some(last) = roots.last() {
            // last_id is the last root when a persist was the last write
            let id = store.last_id();
            if let Some(id) = id {
                if id[..] == last.0[..] {
                    ctx.stat("ev.last_id_is_root", 1);
                }
            }
        }
        w.roots = roots.clone();
        if !w.roots.is_empty() {
            w.apply(ctx, Op::OldRoot)?;
        }
        for _ in 0..ctx.rng.range(5, 25) {
            w.step(ctx, C09_OPS)?;
        }
        for i in 0..w.insts.len() {
            let id = w.insts[i].t.try_reattach().map_err(es("reattach"))?;
            let m = w.insts[i].m.clone();
            w.roots.push((id, m));
        }
        w.finish(ctx)?;
        roots = w.roots.clone();
        drop(w);
        drop(d);
        drop(store);
        // append only
        let len = file.metadata().unwrap().len();
        let mut now = vec![0u8; (len - 4096) as usize];
        file.read_exact_at(&mut now, 4096).unwrap();
        ensure!(now.len() >= committed.len(), "the file shrank");
        ensure!(now[..committed.len()] == committed[..], "already committed bytes of the file were changed");
        committed = now;
        ctx.stat("ev.committed_bytes_compared", committed.len() as u64);
    }
    let store: DynBlobStore = Arc::new(PagedFileStore::new(file, ps).map_err(es("open"))?);
    for (id, m) in &roots {
        let t = RadixTree::try_load(store.clone(), Some(id)).map_err(es("load"))?;
        verify(ctx, "old version after reopening", &t, m)?;
        ctx.stat("ev.old_version_checked", 1);
    }
    ctx.nontrivial = roots.iter().any(|r| r.1.len() >= 2);
    let _ = hex;
    Ok(())
}

/// C26: what is stored depends on the content of a tree only
pub fn c26(ctx: &mut Ctx) -> R {
    if ctx.rng.chance(1, 4) {
        return c26_fresh(ctx);
    }
    let vs = VStore::random(&mut ctx.rng);
    vs.lock().cas = true;
    let store = vs.dynamic();
    let mut w = World::<DynBlobStore>::new(ctx, store.clone());
    w.max_entries = if ctx.small { 12 } else { 150 };
    for _ in 0..ctx.rng.range(5, 40) {
        w.step(ctx, C26_OPS)?;
        if ctx.rng.chance(1, 3) {
            let k = ctx.rng.below(w.insts.len());
            let m = w.insts[k].m.clone();
            let mut t = if ctx.rng.chance(1, 2) { w.insts[k].t.clone() } else { w.insts[k].t.try_detached().map_err(es("detached"))?.try_attached(store.clone()).map_err(es("attached"))? };
            let id = t.try_reattach().map_err(es("reattach"))?;
            let n = vs.lock().order.len();
            let mut f = build(&m, ctx).try_attached(store.clone()).map_err(es("attached"))?;
            let fid = f.try_reattach().map_err(es("reattach"))?;
            ensure!(id == fid, "a tree of {} entries is stored as {}, the same content built anew as {}", m.len(), hex(&id), hex(&fid));
            let n2 = vs.lock().order.len();
            ensure!(n == n2, "{} more blobs for the same content", n2 - n);
            ctx.stat("ev.ids_compared", 1);
        }
    }
    ctx.nontrivial = w.insts.iter().any(|i| i.m.len() >= 2);
    w.finish(ctx)
}
const C26_OPS: Weights = &[
    (Op::Insert, 20),
    (Op::InsertMany, 3),
    (Op::Remove, 4),
    (Op::RemoveSame, 12),
    (Op::RemovePrefix, 5),
    (Op::RemoveAll, 1),
    (Op::Filter, 6),
    (Op::CloneInst, 3),
    (Op::JoinWithDet, 7),
    (Op::JoinWithInst, 6),
    (Op::JoinForeign, 6),
    (Op::JoinNew, 6),
    (Op::Retain, 5),
    (Op::RemoveSet, 5),
    (Op::SelfOp, 3),
    (Op::Detach, 2),
    (Op::Attach, 3),
    (Op::Reattach, 6),
    (Op::Reload, 16),
    (Op::OldRoot, 2),
];

/// run on a thread with a stack of this many bytes
fn on_stack<T: Send>(size: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| match std::thread::Builder::new().stack_size(size).spawn_scoped(s, f).unwrap().join() {
        Ok(x) => x,
        Err(p) => std::panic::resume_unwind(p),
    })
}

/// a tree whose nodes are nested `depth` deep, and its content
fn chain(ctx: &mut Ctx, depth: usize) -> (RadixTree, Model) {
    let mut t = RadixTree::default();
    let mut tail: Vec<u8> = Vec::new();
    // (reversed path so far, suffix) of all entries, innermost first
    let mut ents: Vec<(usize, Vec<u8>, Vec<u8>)> = Vec::new();
    for i in 0..depth {
        let c = *ctx.rng.pick(b"ab");
        t = t.filter_prefix(b"", [c]);
        tail.push(c);
        if i == 0 || ctx.rng.chance(4, 5) {
            let v = vec![i as u8; *ctx.rng.pick(&[0usize, 1, 7, 8, 20])];
            t.insert(b"", &v);
            ents.push((i + 1, Vec::new(), v));
        }
        if i == 0 || ents.last().map(|e| e.0) != Some(i + 1) || ctx.rng.chance(1, 5) {
            let k = vec![if c == b'a' { b'b' } else { b'a' }, ctx.rng.byte()];
            t.insert(&k, b"side");
            ents.push((i + 1, k, b"side".to_vec()));
        }
    }
    // the path to the level i + 1 is the first depth - i - 1 bytes of the whole path
    tail.reverse();
    let mut m = Model::new();
    for (l, k, v) in ents {
        let mut key = tail[..depth - l].to_vec();
        key.extend_from_slice(&k);
        m.insert(key, v);
    }
    (t, m)
}

/// nested keys to a depth of 1000, with the usual stack of 8 MiB
pub fn c01_deep(ctx: &mut Ctx) -> R {
    let depth = std::env::var("DEEP").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| ctx.rng.range(300, 1000));
    on_stack(8 << 20, || deep(ctx, depth))
}

fn deep(ctx: &mut Ctx, depth: usize) -> R {
    let (mut t, mut m) = chain(ctx, depth);
    let bottom: Vec<u8> = m.keys().max_by_key(|k| k.len()).unwrap().clone();
    ctx.op("op.deep_tree", &bottom, || format!("depth {} entries {}", depth, m.len()));
    ctx.max("max.depth", depth as u64);
    verify(ctx, "deep tree", &t, &m)?;
    let snap = t.clone();
    let sm = m.clone();
    let change = |ctx: &mut Ctx, t: &mut RadixTree, m: &mut Model| -> R {
        for _ in 0..4 {
            let mut k = bottom.clone();
            k.truncate(ctx.rng.range(depth / 2, depth - 1));
            k.push(*ctx.rng.pick(b"abc"));
            if ctx.rng.chance(2, 3) {
                t.try_insert(&k, b"new").map_err(es("insert"))?;
                m.insert(k, b"new".to_vec());
            } else {
                t.try_remove(&k).map_err(es("remove"))?;
                m.remove(&k);
            }
        }
        verify(ctx, "deep tree after changes", t, m)
    };
    change(ctx, &mut t, &mut m)?;
    verify(ctx, "deep snapshot", &snap, &sm)?;
    let mut a = Inst { t, m };
    for _ in 0..4 {
        match ctx.rng.below(7) {
            0 => {
                let mode = ctx.rng.below(8);
                let j = *ctx.rng.pick(&JOINS);
                let x = join::<_, _, radixdb::store::NoError>(ctx, j, &a.t, &a.m, &snap, &sm, mode)?;
                verify(ctx, "deep combine", &x.t, &x.m)?;
                join_pred::<_, _, radixdb::store::NoError>(ctx, j, &a.t, &a.m, &snap, &sm, 0)?;
            }
            1 => {
                let mode = ctx.rng.below(8);
                let j = *ctx.rng.pick(&JOINS);
                let mut b = Inst { t: a.t.clone(), m: a.m.clone() };
                join_with(ctx, j, &mut b, &snap, &sm, mode, radixdb::node::IdentityConverter, take_same())?;
                verify(ctx, "deep combine in place", &b.t, &b.m)?;
                if ctx.rng.chance(1, 2) && b.m.len() > 2 {
                    a = b;
                }
            }
            2 => {
                let mut b = Inst { t: a.t.clone(), m: a.m.clone() };
                let r = ctx.rng.chance(1, 2);
                prefix_set(ctx, r, &mut b, &snap, &sm, 3)?;
                verify(ctx, "deep prefix set operation", &b.t, &b.m)?;
            }
            3 => {
                for k in [&bottom[..], &bottom[..depth / 2], b""] {
                    verify_get(ctx, &a.t, &a.m, k)?;
                    verify_prefix(ctx, &a.t, &a.m, k)?;
                }
                verify_extremes(ctx, &a.t, &a.m)?;
            }
            4 => {
                ensure!(a.t == a.t.clone(), "a deep tree differs from its clone");
                let cut = ctx.rng.range(0, depth);
                let n = a.t.try_group_by(|p, _| Ok(p.len() < cut)).count();
                ensure!(n > 0, "no groups");
            }
            _ => {
                let vs = VStore::random(&mut ctx.rng);
                let s = vs.dynamic();
                let mut x = a.t.try_attached(s.clone()).map_err(es("attached"))?;
                let id = x.try_reattach().map_err(es("reattach"))?;
                verify(ctx, "deep tree in a store", &x, &a.m)?;
                let mut l = Inst { t: RadixTree::<DynBlobStore>::try_load(s.clone(), Some(&id)).map_err(es("load"))?, m: a.m.clone() };
                let mode = ctx.rng.below(8);
                let j = *ctx.rng.pick(&JOINS);
                foreign_with(ctx, j, &mut l, &x, &a.m, mode)?;
                verify(ctx, "deep combine in a store", &l.t, &l.m)?;
                let id = l.t.try_reattach().map_err(es("reattach"))?;
                let l2: RadixTree<DynBlobStore> = RadixTree::try_load(s.clone(), Some(&id)).map_err(es("load"))?;
                let d = l2.try_detached().map_err(es("detached"))?;
                verify(ctx, "deep tree detached", &d, &l.m)?;
                ctx.stat("ev.deep_stored", 1);
            }
        }
    }
    ctx.stat("ev.deep_trees", 1);
    ctx.nontrivial = true;
    verify(ctx, "deep snapshot", &snap, &sm)
}

/// the demonstration of a known finding: deep enough nesting exhausts the stack
pub fn c01_chain(ctx: &mut Ctx) -> R {
    on_stack(8 << 20, || {
        let mut t = RadixTree::default();
        for _ in 0..200_000 {
            t = t.filter_prefix(b"", b"a");
            t.insert(b"", b"v");
        }
        ctx.note(|| "200000 nested keys, each a prefix of the next".to_string());
        ensure!(t.values().count() == 200_000, "values");
        drop(t);
        Ok(())
    })
}

/// the same content, built in different ways, makes the same writes in an empty store
fn c26_fresh(ctx: &mut Ctx) -> R {
    let g = KeyGen::new(&mut ctx.rng);
    let g = if ctx.small { g.mini() } else { g };
    let n = if ctx.small { 4 } else { *ctx.rng.pick(&[1usize, 3, 8, 20, 60]) };
    let m = content(ctx, &g, n);
    ctx.op("op.fresh_stores", &[], || show(&m));
    ctx.stat(PROFILE_STATS[g.profile], 1);
    ctx.nontrivial = m.len() >= 2;
    for (k, _) in m.iter().take(3) {
        ctx.sig.add(k);
    }
    let len = *ctx.rng.pick(&[1usize, 8, 32]);
    let mut first: Option<Vec<(Vec<u8>, Vec<u8>)>> = None;
    for way in 0..4 {
        let vs = VStore::new(len, false);
        let s = vs.dynamic();
        let t = match way {
            0 => m.iter().collect::<RadixTree>(),
            1 => build(&m, ctx),
            2 => {
                // by detours: too much first, and in two parts
                let mut a: RadixTree = RadixTree::default();
                let mut b: RadixTree = RadixTree::default();
                for (k, v) in &m {
                    if ctx.rng.chance(1, 2) {
                        a.insert(k, b"other value");
                    }
                    if ctx.rng.chance(1, 2) {
                        a.insert(k, v);
                    } else {
                        b.insert(k, v);
                    }
                    let mut extra = k.clone();
                    extra.push(7);
                    if !m.contains_key(&extra) {
                        a.insert(&extra, b"x");
                    }
                }
                a.outer_combine_with(&b, |x, y| setval(x, y.data()));
                let keys: Vec<Vec<u8>> = a.iter().map(|x| x.0.to_vec()).collect();
                for k in keys {
                    if !m.contains_key(&k) {
                        a.remove(&k);
                    }
                }
                a
            }
            _ => {
                // through another store
                let other = VStore::random(&mut ctx.rng).dynamic();
                let mut t = build(&m, ctx).try_attached(other.clone()).map_err(es("attached"))?;
                let id = t.try_reattach().map_err(es("reattach"))?;
                RadixTree::<DynBlobStore>::try_load(other, Some(&id)).map_err(es("load"))?.try_detached().map_err(es("detached"))?
            }
        };
        verify(ctx, "tree", &t, &m)?;
        let mut t = t.try_attached(s.clone()).map_err(es("attached"))?;
        t.try_reattach().map_err(es("reattach"))?;
        let i = vs.lock();
        let log: Vec<(Vec<u8>, Vec<u8>)> = i.order.iter().map(|id| (id.clone(), i.blobs[id].to_vec())).collect();
        drop(i);
        match &first {
            None => first = Some(log),
            Some(f) => {
                let k = f.iter().zip(&log).take_while(|(a, b)| a == b).count();
                ensure!(k == f.len() && k == log.len(), "persisting the same {} entries built in another way ({}): write {} of {} (instead of {}) differs", m.len(), way, k + 1, log.len(), f.len());
            }
        }
        ctx.stat("ev.write_sequences", 1);
    }
    Ok(())
}

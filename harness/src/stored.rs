//! C11 (store traffic) and C12 (stored format).
use crate::ctx::{es, hex, Ctx, R};
use crate::format::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::vstore::{Ev, VStore};
use crate::world::*;
use crate::{ensure, fail};
use radixdb::node::{DetachConverter, DowncastConverter};
use radixdb::store::{BlobStore, DynBlobStore, MemStore, PagedFileStore};
use radixdb::RadixTree;
use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

type Tree = RadixTree<DynBlobStore>;

fn fetcher(s: &VStore) -> impl Fn(&[u8]) -> Result<Vec<u8>, String> + '_ {
    move |id| s.raw(id).map(|x| x.to_vec()).ok_or_else(|| format!("no blob {}", hex(id)))
}

fn split(log: &[Ev]) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    let mut r = vec![];
    let mut w = vec![];
    for e in log {
        match e {
            Ev::Read(i) => r.push(i.clone()),
            Ev::Write(i) => w.push(i.clone()),
        }
    }
    (r, w)
}

/// ids that belong to a node
fn own_ids(n: &NodeInfo, out: &mut BTreeSet<Vec<u8>>) {
    for x in [&n.prefix_id, &n.value_id, &n.children_id] {
        if let Some(x) = x {
            out.insert(x.clone());
        }
    }
}

/// ids of all nodes met while looking for key: labels of nodes reached by their first byte, children of nodes
/// strictly above the key (those of a node at or below the key are not on the path), the value at the key
fn path_ids(d: &Decoded, key: &[u8]) -> (BTreeSet<Vec<u8>>, usize) {
    let mut out = BTreeSet::new();
    let mut at = 0usize;
    let mut depth = 0;
    loop {
        let n = &d.nodes[at];
        out.extend(n.prefix_id.clone());
        depth += 1;
        if !key.starts_with(&n.path) {
            return (out, depth);
        }
        if key.len() == n.path.len() {
            out.extend(n.value_id.clone());
            return (out, depth);
        }
        out.extend(n.children_id.clone());
        let c = key[n.path.len()];
        match n.kids.iter().find(|k| d.nodes[**k].label[0] == c) {
            Some(k) => at = *k,
            None => return (out, depth),
        }
    }
}

fn visited<'a>(d: &'a Decoded, key: &[u8], out: &mut BTreeSet<&'a [u8]>) {
    let mut at = 0usize;
    loop {
        let n = &d.nodes[at];
        out.insert(&n.path);
        if !key.starts_with(&n.path) || key.len() == n.path.len() {
            return;
        }
        let c = key[n.path.len()];
        match n.kids.iter().find(|k| d.nodes[**k].label[0] == c) {
            Some(k) => at = *k,
            None => return,
        }
    }
}

fn subtree_ids(d: &Decoded, prefix: &[u8]) -> BTreeSet<Vec<u8>> {
    let (mut out, _) = path_ids(d, prefix);
    for n in &d.nodes {
        if n.path.starts_with(prefix) {
            own_ids(n, &mut out);
        }
    }
    out
}

fn edge_ids(d: &Decoded, last: bool) -> BTreeSet<Vec<u8>> {
    let mut out = BTreeSet::new();
    let mut at = 0;
    loop {
        let n = &d.nodes[at];
        out.extend(n.prefix_id.clone());
        if (!last && n.value.is_some()) || n.kids.is_empty() {
            out.extend(n.value_id.clone());
            return out;
        }
        out.extend(n.children_id.clone());
        match if last { n.kids.last() } else { n.kids.first() } {
            Some(k) => at = *k,
            None => return out,
        }
    }
}

fn only(what: &str, reads: &[Vec<u8>], allowed: &BTreeSet<Vec<u8>>, d: &Decoded) -> R {
    for r in reads {
        ensure!(allowed.contains(r), "{}: reads blob {} ({:?}) that is not on the path", what, hex(r), d.ids.get(r));
    }
    Ok(())
}

/// a store with short values and inline labels has few blobs: prefer long ones
fn big_content(ctx: &mut Ctx, g: &KeyGen) -> Model {
    let n = match ctx.rng.below(4) {
        0 => ctx.rng.range(1, 6),
        1 | 2 => ctx.rng.range(5, 40),
        _ => ctx.rng.range(30, 150),
    };
    let n = if ctx.small { n.min(8) } else { n };
    content(ctx, g, n)
}

pub fn c11(ctx: &mut Ctx) -> R {
    let vs = VStore::random(&mut ctx.rng);
    let store: DynBlobStore = vs.dynamic();
    let g = KeyGen::new(&mut ctx.rng);
    let g = if ctx.small { g.mini() } else { g };
    ctx.stat(PROFILE_STATS[g.profile], 1);
    let mut m = big_content(ctx, &g);
    ctx.note(|| format!("content {}", show(&m)));
    ctx.nontrivial = m.len() >= 2;

    // attach and persist: every blob written is reachable from the new root
    let det = build(&m, ctx);
    vs.start_log();
    let mut t: Tree = det.try_attached(store.clone()).map_err(es("attached"))?;
    let mut root = t.try_reattach().map_err(es("reattach"))?;
    let (_, w) = split(&vs.take_log());
    let mut d = Decoder::decode(&fetcher(&vs), &root, true)?;
    ensure!(d.model == m, "the stored bytes do not decode to the content");
    for id in &w {
        ctx.stat("ev.first_writes", 1);
        ensure!(d.ids.contains_key(id) || *id == root || ctx_first_root(&vs, id), "attach wrote blob {} that is not part of the tree", hex(id));
    }

    let rounds = if ctx.small { 3 } else { ctx.rng.range(4, 14) };
    for _ in 0..rounds {
        match ctx.rng.below(6) {
            0 | 1 => queries(ctx, &vs, &store, &g, &m, &d, &root)?,
            2 => {
                // persisting an unchanged tree
                let mut t2: Tree = if ctx.rng.chance(1, 2) { t.clone() } else { RadixTree::try_load(store.clone(), Some(&root)).map_err(es("load"))? };
                let k = g.query(&mut ctx.rng, &m);
                t2.try_get(&k).map_err(es("get"))?;
                vs.start_log();
                let r2 = t2.try_reattach().map_err(es("reattach"))?;
                let (_, w) = split(&vs.take_log());
                ctx.op("op.persist_unchanged", &[], || format!("{} writes", w.len()));
                ensure!(w.len() <= 1, "persisting an unchanged tree writes {} blobs", w.len());
                let d2 = Decoder::decode(&fetcher(&vs), &r2, true)?;
                ensure!(d2.ids == d.ids, "persisting an unchanged tree rewrites parts of it");
            }
            _ => {
                // one change, then persist; sometimes from a freshly loaded tree
                if ctx.rng.chance(1, 2) {
                    vs.start_log();
                    t = RadixTree::try_load(store.clone(), Some(&root)).map_err(es("load"))?;
                    let (r, w) = split(&vs.take_log());
                    ensure!(r == vec![root.clone()], "loading a tree reads {} blobs", r.len());
                    ensure!(w.is_empty(), "loading a tree writes");
                    ctx.stat("ev.load", 1);
                }
                let old_m = m.clone();
                let key;
                vs.start_log();
                let kind = ctx.rng.below(8);
                match kind {
                    0..=2 => {
                        key = g.query(&mut ctx.rng, &m);
                        let v = value(ctx);
                        ctx.op("op.insert", &key, || format!("value {}", hex(&v)));
                        t.try_insert(&key, &v).map_err(es("insert"))?;
                        m.insert(key.clone(), v);
                    }
                    3 | 4 => {
                        key = if m.is_empty() { g.key(&mut ctx.rng) } else { pick_key(&mut ctx.rng, &m) };
                        ctx.op("op.remove", &key, || String::new());
                        t.try_remove(&key).map_err(es("remove"))?;
                        m.remove(&key);
                    }
                    5 => {
                        key = g.query(&mut ctx.rng, &m);
                        ctx.op("op.remove_prefix", &key, || String::new());
                        t.try_remove_prefix(&key).map_err(es("remove_prefix"))?;
                        m.retain(|k, _| !k.starts_with(&key));
                    }
                    _ => {
                        // a bulk change with a single key
                        key = g.query(&mut ctx.rng, &m);
                        let v = value(ctx);
                        ctx.op("op.bulk", &key, || format!("{} value {}", kind, hex(&v)));
                        let o = RadixTree::single(&key, &v);
                        if kind == 6 {
                            t.try_outer_combine_with(&o, DetachConverter, |a, _| {
                                setval(a, Some(&v));
                                Ok(())
                            })
                            .map_err(es("outer_combine_with"))?;
                            m.insert(key.clone(), v);
                        } else {
                            t.try_left_combine_with(&o, DowncastConverter, |a, _| {
                                a.set(None);
                                Ok(())
                            })
                            .map_err(es("left_combine_with"))?;
                            m.remove(&key);
                        }
                    }
                }
                let change = if kind <= 5 { Change::Single } else { Change::Bulk };
                let log = vs.take_log();
                let (_, w) = split(&log);
                ensure!(w.is_empty(), "a mutation wrote {} blobs to the store", w.len());
                ctx.stat("ev.mutations_without_write", 1);
                vs.start_log();
                let r2 = t.try_reattach().map_err(es("reattach"))?;
                let (_, w) = split(&vs.take_log());
                ctx.stat("ev.persist_after_change", 1);
                ctx.stat("ev.persist_writes", w.len() as u64);
                let d2 = Decoder::decode(&fetcher(&vs), &r2, true)?;
                ensure!(d2.model == m, "the stored bytes do not decode to the content after a change");
                let kept = untouched(ctx, &d, &old_m, &d2, &m, &key, change)?;
                ctx.stat("ev.untouched_subtrees", kept);
                let wset: BTreeSet<_> = w.iter().cloned().collect();
                for id in &wset {
                    ensure!(*id == r2 || d2.ids.contains_key(id), "persist wrote blob {} that is not part of the tree", hex(id));
                }
                // reusing: everything else in the new tree was there before
                for id in d2.ids.keys() {
                    ensure!(wset.contains(id) || d.ids.contains_key(id), "the new tree refers to blob {} which belongs to neither version", hex(id));
                }
                root = r2;
                d = d2;
            }
        }
    }
    let bad = vs.lock().bad_reads.len();
    ensure!(bad == 0, "{} reads of ids the store never issued", bad);
    // the last version is right
    let t: Tree = RadixTree::try_load(store.clone(), Some(&root)).map_err(es("load"))?;
    verify(ctx, "at the end", &t, &m)
}

/// attaching may store the root blob itself, which persisting then stores again
fn ctx_first_root(vs: &VStore, id: &[u8]) -> bool {
    Decoder::decode(&fetcher(vs), id, true).is_ok()
}

/// subtrees off the changed path with unchanged content must keep their ids
fn untouched(_ctx: &mut Ctx, old: &Decoded, old_m: &Model, new: &Decoded, new_m: &Model, key: &[u8], change: Change) -> R<u64> {
    let idx: HashMap<&[u8], &NodeInfo> = old.nodes.iter().map(|n| (&n.path[..], n)).collect();
    let mut touched = BTreeSet::new();
    if change == Change::Bulk {
        visited(old, key, &mut touched);
        visited(new, key, &mut touched);
    }
    let mut kept = 0;
    for n in &new.nodes {
        // a single insert or remove touches what is above or at the key
        if (change == Change::Single && key.starts_with(&n.path)) || touched.contains(&n.path[..]) {
            continue;
        }
        let Some(&o) = idx.get(&n.path[..]) else { continue };
        // same content strictly below?
        let below = |m: &'_ Model| -> Vec<(Vec<u8>, Vec<u8>)> { scan(m, &n.path).filter(|x| x.0.len() > n.path.len()).map(|(a, b)| (a.clone(), b.clone())).collect() };
        if n.children_id.is_some() && n.children_id != o.children_id && below(old_m) == below(new_m) {
            fail!("the untouched subtree at {} was written again (change at {})", hex(&n.path), hex(key));
        }
        kept += n.children_id.is_some() as u64;
        if n.path == key {
            continue;
        }
        if n.value_id.is_some() && old_m.get(&n.path) == new_m.get(&n.path) {
            ensure!(n.value_id == o.value_id, "the untouched value of {} was written again (change at {})", hex(&n.path), hex(key));
        }
        // (a root that gets a parent, or the reverse, is split at an empty prefix)
        if n.prefix_id.is_some() && n.label == o.label && std::ptr::eq(n, &new.nodes[0]) == std::ptr::eq(o, &old.nodes[0]) {
            ensure!(n.prefix_id == o.prefix_id, "the untouched label of {} was written again (change at {})", hex(&n.path), hex(key));
        }
    }
    Ok(kept)
}

#[derive(Clone, Copy, PartialEq)]
enum Change {
    Single,
    Bulk,
}

fn queries(ctx: &mut Ctx, vs: &VStore, store: &DynBlobStore, g: &KeyGen, m: &Model, d: &Decoded, root: &[u8]) -> R {
    let t: Tree = RadixTree::try_load(store.clone(), Some(root)).map_err(es("load"))?;
    let total = d.ids.len();
    for _ in 0..ctx.rng.range(1, 5) {
        let k = g.query(&mut ctx.rng, m);
        let (path, _) = path_ids(d, &k);
        let what = ctx.rng.below(12);
        ctx.op("op.query", &k, || format!("kind {}", what));
        ctx.stat("ev.queries", 1);
        vs.start_log();
        let mut allowed = None;
        match what {
            0..=2 => {
                let v = t.try_get(&k).map_err(es("get"))?;
                let early = split(&vs.take_log());
                only("get", &early.0, &path, d)?;
                ensure!(early.1.is_empty(), "get writes");
                if path.len() * 2 < total {
                    ctx.stat("ev.selective_lookup", 1);
                }
                vs.start_log();
                if let Some(v) = v {
                    let v = loadval(&v, store)?;
                    ensure!(Some(&v) == m.get(&k), "get({}) is wrong", hex(&k));
                }
                allowed = Some(path);
            }
            3 => {
                let c = t.try_contains_key(&k).map_err(es("contains_key"))?;
                ensure!(c == m.contains_key(&k), "contains_key is wrong");
                allowed = Some(path);
            }
            4 => {
                let c = t.try_has_prefix(&k).map_err(es("has_prefix"))?;
                ensure!(c == (scan(m, &k).count() > 0), "has_prefix is wrong");
                allowed = Some(path);
            }
            5 | 6 => {
                let mut it = t.try_scan_prefix(&k).map_err(es("scan_prefix"))?;
                verify_kv_iter("scan_prefix", &mut it, store, &mut scan(m, &k).map(|(a, b)| (a.clone(), b.clone())))?;
                let s = subtree_ids(d, &k);
                if s.len() * 2 < total {
                    ctx.stat("ev.selective_scan", 1);
                }
                allowed = Some(s);
            }
            7 => {
                t.try_first_value().map_err(es("first_value"))?;
                t.try_first_entry(vec![]).map_err(es("first_entry"))?;
                allowed = Some(edge_ids(d, false));
            }
            8 => {
                t.try_last_value().map_err(es("last_value"))?;
                t.try_last_entry(vec![]).map_err(es("last_entry"))?;
                allowed = Some(edge_ids(d, true));
            }
            9 => {
                verify(ctx, "iteration", &t, m)?;
            }
            10 => {
                let r = t.try_filter_prefix(&k, &k).map_err(es("filter_prefix"))?;
                ensure!(r.is_empty() == (scan(m, &k).count() == 0), "filter_prefix is wrong");
                allowed = Some(path);
            }
            _ => {
                let dt = t.try_detached().map_err(es("detached"))?;
                verify(ctx, "detached", &dt, m)?;
            }
        }
        let (r, w) = split(&vs.take_log());
        ensure!(w.is_empty(), "a query (kind {}) wrote {} blobs", what, w.len());
        if let Some(a) = allowed {
            only(&format!("query kind {}", what), &r, &a, d)?;
        }
        // only what belongs to the tree
        for id in &r {
            ensure!(d.ids.contains_key(id), "query kind {} reads a blob that is not part of the tree", what);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

pub fn c12(ctx: &mut Ctx) -> R {
    match ctx.rng.below(10) {
        0..=4 => c12_decode(ctx),
        5..=8 => c12_encode(ctx),
        _ => c12_docs(ctx),
    }
}

/// what radixdb stores is what the documentation says
fn c12_decode(ctx: &mut Ctx) -> R {
    let vs = VStore::random(&mut ctx.rng);
    let kind = if cfg!(miri) { 0 } else { ctx.rng.below(6) };
    let store: DynBlobStore = match kind {
        0..=3 => vs.dynamic(),
        4 => Arc::new(MemStore::default()),
        _ => Arc::new(PagedFileStore::new(crate::suites::tmpfile(), 1 << 23).map_err(es("open"))?),
    };
    let fetch = |id: &[u8]| store.read(id).map(|x| x.to_vec()).map_err(|e| format!("{:?}", e));
    let mut w = World::<DynBlobStore>::new(ctx, store.clone());
    let n = ctx.rng.range(3, 30);
    for _ in 0..n {
        w.step(
            ctx,
            &[
                (Op::Insert, 20),
                (Op::InsertMany, 6),
                (Op::Fan, 2),
                (Op::RemoveSame, 10),
                (Op::RemovePrefix, 4),
                (Op::Filter, 4),
                (Op::GroupBy, 2),
                (Op::JoinWithDet, 5),
                (Op::JoinWithInst, 4),
                (Op::Retain, 3),
                (Op::RemoveSet, 3),
                (Op::SelfOp, 2),
                (Op::Attach, 4),
                (Op::Reattach, 6),
                (Op::Reload, 8),
            ],
        )?;
    }
    for i in 0..w.insts.len() {
        let id = w.insts[i].t.try_reattach().map_err(es("reattach"))?;
        let m = w.insts[i].m.clone();
        w.roots.push((id, m));
    }
    for (id, m) in &w.roots {
        let d = Decoder::decode(&fetch, id, true).map_err(|e| format!("stored tree is not as documented: {}", e))?;
        ensure!(d.model == *m, "the stored bytes decode to {} instead of {}", show(&d.model), show(m));
        ctx.stat("ev.trees_decoded", 1);
        ctx.stat("ev.nodes_decoded", d.nodes.len() as u64);
        ctx.stat("ev.indirect_fields", d.indirect);
        ctx.stat("ev.record_size_const", d.record_const);
        ctx.stat("ev.record_size_varying", d.record_var);
    }
    ctx.nontrivial = w.roots.iter().any(|r| r.1.len() >= 2);
    Ok(())
}

/// blobs made by someone else load with the right content
fn c12_encode(ctx: &mut Ctx) -> R {
    let vs = VStore::random(&mut ctx.rng);
    let store: DynBlobStore = vs.dynamic();
    let g = KeyGen::new(&mut ctx.rng);
    let g = if ctx.small { g.mini() } else { g };
    let m = big_content(ctx, &g);
    ctx.note(|| format!("content {}", show(&m)));
    let variant = ctx.rng.chance(1, 2);
    let seed = ctx.rng.next();
    let mut put = |data: &[u8]| vs.put(data);
    let root = Encoder { put: &mut put, variant, rng: Rng::new(seed) }.tree(&m);
    let d = Decoder::decode(&fetcher(&vs), &root, !variant).map_err(|e| format!("harness encoder: {}", e))?;
    if d.model != m {
        fail!("harness encoder and decoder disagree");
    }
    ctx.stat(if variant { "ev.encoded_variant" } else { "ev.encoded" }, 1);
    ctx.op("op.load_foreign_blobs", &root, || format!("{} entries, {} blobs", m.len(), d.ids.len()));
    let load = || -> R<Tree> { RadixTree::try_load(store.clone(), Some(&root)).map_err(es("load")) };
    let t = load()?;
    verify(ctx, "loaded from encoded blobs", &t, &m)?;
    verify_shape(ctx, "loaded from encoded blobs", &t, &m)?;
    verify_extremes(ctx, &t, &m)?;
    for _ in 0..8 {
        let k = g.query(&mut ctx.rng, &m);
        verify_get(ctx, &t, &m, &k)?;
        verify_prefix(ctx, &t, &m, &k)?;
    }
    let dt = t.try_detached().map_err(es("detached"))?;
    verify(ctx, "detached from encoded blobs", &dt, &m)?;
    let fresh = build(&m, ctx);
    check_eq(ctx, "detached from encoded blobs", &dt, &m, &fresh, &m)?;
    // and can be used on
    let mut w = World::<DynBlobStore>::with_gen(ctx, store.clone(), g.clone());
    w.insts.push(Inst { t: load()?, m: m.clone() });
    w.roots.push((root.clone(), m.clone()));
    for _ in 0..ctx.rng.range(1, 8) {
        w.step(
            ctx,
            &[
                (Op::Insert, 10),
                (Op::RemoveSame, 10),
                (Op::RemovePrefix, 4),
                (Op::Filter, 4),
                (Op::JoinWithDet, 4),
                (Op::JoinNew, 4),
                (Op::Retain, 3),
                (Op::RemoveSet, 3),
                (Op::GroupBy, 3),
                (Op::Reload, 4),
            ],
        )?;
    }
    // a root blob is exactly one record: a part of one, or more than one, is refused
    let blob = vs.raw(&root).ok_or("root blob is gone")?;
    let mut bad: Vec<Vec<u8>> = vec![];
    for _ in 0..3 {
        bad.push(blob[..ctx.rng.below(blob.len())].to_vec());
        let n = ctx.rng.range(1, 9);
        let more = ctx.rng.bytes(n);
        bad.push([blob.as_slice(), &more].concat());
    }
    bad.push([blob.as_slice(), &blob].concat());
    bad.push([blob.as_slice(), &[0]].concat());
    bad.push(blob[..blob.len() - 1].to_vec());
    for b in bad {
        let id = vs.put(&b);
        ctx.op("op.load_odd_root", &b, || format!("{} bytes instead of {}", b.len(), blob.len()));
        ctx.stat("ev.odd_roots", 1);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| RadixTree::try_load(store.clone(), Some(&id)).is_ok())) {
            Ok(false) => {}
            Ok(true) => fail!("a root blob {} that is not one record ({} bytes, the record has {}) is accepted", hex(&b), b.len(), blob.len()),
            Err(_) => fail!("a root blob {} that is not one record panics instead of being refused", hex(&b)),
        }
    }
    ctx.nontrivial = m.len() >= 2;
    w.finish(ctx)
}

/// the examples given in the documentation
fn c12_docs(ctx: &mut Ctx) -> R {
    let store: DynBlobStore = Arc::new(MemStore::default());
    let save = |t: &RadixTree| -> R<Vec<u8>> {
        let mut a = t.try_attached(store.clone()).map_err(es("attached"))?;
        let id = a.try_reattach().map_err(es("reattach"))?;
        Ok(store.read(&id).map_err(es("read"))?.to_vec())
    };
    let check = |what: &str, got: &[u8], exp: &[u8]| -> R {
        ensure!(got == exp, "documented example {}: stored {} instead of {}", what, hex(got), hex(exp));
        Ok(())
    };
    ctx.op("op.documented_examples", &[], || String::new());
    ctx.stat("ev.documented_examples", 4);
    check("simplest node", &save(&RadixTree::single("", ""))?, &[0, 0, 0x80])?;
    check("small leaf", &save(&RadixTree::single("hello", "world!"))?, b"\x05hello\x06world!\x80")?;
    let large = save(&RadixTree::single([b'a'; 256], [b'b'; 256]))?;
    ensure!(large.len() == 20 && large[..2] == [0x89, b'a'] && large[10] == 0x88 && large[19] == 0x80, "documented example large leaf: stored {}", hex(&large));
    ensure!(store.read(&large[2..10]).map_err(es("read"))?.to_vec() == [b'a'; 256], "documented example large leaf: prefix blob is wrong");
    ensure!(store.read(&large[11..19]).map_err(es("read"))?.to_vec() == [b'b'; 256], "documented example large leaf: value blob is wrong");
    let t: RadixTree = [("aa", ""), ("ab", "")].into_iter().collect();
    let b = save(&t)?;
    ensure!(b.len() == 13 && b[..5] == [0x01, 0x61, 0x80, 0x89, 0x04], "documented example branch node: stored {}", hex(&b));
    let kids = store.read(&b[5..]).map_err(es("read"))?.to_vec();
    check("branch children", &kids, &[1, 0x61, 0, 0x80, 1, 0x62, 0, 0x80])?;
    let e = save(&RadixTree::default())?;
    check("empty tree", &e, &[0, 0x80, 0x80])
}

// ---------------------------------------------------------------- golden data of an earlier version

/// text format: "tree <n>", "root <hex>", "blob <id> <data>", "entry <k> <v>"; "paged <size>", "file <hex>", "id <hex> <data>"
pub fn golden_write(path: &str) {
    use std::fmt::Write;
    let hx = |d: &[u8]| if d.is_empty() { "-".to_string() } else { d.iter().map(|b| format!("{:02x}", b)).collect::<String>() };
    let mut out = String::new();
    for i in 0..24u64 {
        let mut ctx = Ctx::new(1000 + i, i);
        let profile = [0usize, 1, 2, 3, 4, 5, 6, 7][i as usize % 8];
        let g = KeyGen::with_profile(&mut ctx.rng, profile);
        let n = if i < 8 { 6 } else { 18 };
        let mut m = content(&mut ctx, &g, n);
        m.retain(|k, v| k.len() < 600 && v.len() < 600);
        let vs = VStore::new([8usize, 1, 32, 64][i as usize % 4], i % 5 == 4);
        let mut t = build(&m, &mut ctx).try_attached(vs.dynamic()).unwrap();
        let root = t.try_reattach().unwrap();
        writeln!(out, "tree {}", i).unwrap();
        let inner = vs.lock();
        for id in &inner.order {
            writeln!(out, "blob {} {}", hx(id), hx(&inner.blobs[id])).unwrap();
        }
        for (k, v) in &m {
            writeln!(out, "entry {} {}", hx(k), hx(v)).unwrap();
        }
        writeln!(out, "root {}", hx(&root)).unwrap();
    }
    for (i, ps) in [1024u64, 4096, 8192].into_iter().enumerate() {
        let mut rng = Rng::new(77 + i as u64);
        let f = crate::suites::tmpfile();
        let s = PagedFileStore::new(f.try_clone().unwrap(), ps).unwrap();
        let mut ids = vec![];
        for _ in 0..30 {
            let n = match rng.below(4) {
                0 => rng.range(0, 20),
                1 => ps as usize - 8,
                _ => rng.range(0, ps as usize / 3),
            };
            let d = vec![rng.byte(); n];
            ids.push((s.write(&d).unwrap(), d));
        }
        writeln!(out, "paged {}", ps).unwrap();
        for (id, d) in &ids {
            // data is one repeated byte
            writeln!(out, "id {} {} {}", hx(id), d.len(), d.first().cloned().unwrap_or(0)).unwrap();
        }
        use std::os::unix::fs::FileExt;
        let mut buf = vec![0u8; f.metadata().unwrap().len() as usize];
        f.read_exact_at(&mut buf, 0).unwrap();
        // run length encoding
        let mut j = 0;
        while j < buf.len() {
            let mut k = j;
            while k < buf.len() && buf[k] == buf[j] {
                k += 1;
            }
            writeln!(out, "run {} {}", k - j, buf[j]).unwrap();
            j = k;
        }
        writeln!(out, "endfile").unwrap();
    }
    std::fs::write(path, out).unwrap();
}

pub static GOLDEN: &str = include_str!("../golden.txt");

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// data stored by the earliest version must load
pub fn c12_golden(ctx: &mut Ctx) -> R {
    let mut trees = Vec::new();
    let mut pages = Vec::new();
    let mut blobs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut m = Model::new();
    let mut ids: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut file: Vec<u8> = vec![];
    let mut ps = 0u64;
    for l in GOLDEN.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        match p[0] {
            "tree" => {
                blobs = vec![];
                m = Model::new();
            }
            "blob" => blobs.push((unhex(p[1]), unhex(p[2]))),
            "entry" => {
                m.insert(unhex(p[1]), unhex(p[2]));
            }
            "root" => trees.push((unhex(p[1]), std::mem::take(&mut blobs), std::mem::take(&mut m))),
            "paged" => {
                ps = p[1].parse().unwrap();
                ids = vec![];
                file = vec![];
            }
            "id" => ids.push((unhex(p[1]), vec![p[3].parse().unwrap(); p[2].parse().unwrap()])),
            "run" => file.extend(std::iter::repeat(p[2].parse::<u8>().unwrap()).take(p[1].parse().unwrap())),
            "endfile" => pages.push((ps, std::mem::take(&mut ids), std::mem::take(&mut file))),
            _ => fail!("golden file: {}", l),
        }
    }
    let i = ctx.index as usize % (trees.len() + pages.len());
    ctx.nontrivial = true;
    ctx.op("op.golden", &[i as u8], || String::new());
    if i < trees.len() {
        let (root, blobs, m) = &trees[i];
        let vs = VStore::new(8, false);
        {
            let mut inner = vs.lock();
            for (id, b) in blobs {
                inner.blobs.insert(id.clone(), Arc::new(b.clone()));
                inner.order.push(id.clone());
            }
        }
        let store = vs.dynamic();
        let t: Tree = RadixTree::try_load(store.clone(), Some(root)).map_err(es("load"))?;
        verify(ctx, "tree stored by an earlier version", &t, m)?;
        verify_shape(ctx, "tree stored by an earlier version", &t, m)?;
        verify_extremes(ctx, &t, m)?;
        for k in m.keys() {
            verify_get(ctx, &t, m, k)?;
            verify_prefix(ctx, &t, m, &k[..k.len() / 2])?;
        }
        let d = t.try_detached().map_err(es("detached"))?;
        let fresh = build(m, ctx);
        check_eq(ctx, "detached tree of an earlier version", &d, m, &fresh, m)?;
        ctx.stat("ev.golden_trees", 1);
        return Ok(());
    }
    if cfg!(miri) {
        return Ok(());
    }
    let (ps, ids, file) = &pages[i - trees.len()];
    use std::os::unix::fs::FileExt;
    let f = crate::suites::tmpfile();
    f.write_all_at(file, 0).unwrap();
    let s = PagedFileStore::new(f, *ps).map_err(es("open"))?;
    ensure!(s.last_id().map(|x| x.to_vec()) == ids.last().map(|x| x.0.clone()), "last_id of a file of an earlier version is {:?}", s.last_id());
    for (id, d) in ids {
        let b = s.read(id).map_err(es("read"))?;
        ensure!(&b[..] == &d[..], "blob {} of a file of an earlier version is wrong", hex(id));
        ctx.stat("ev.golden_blobs", 1);
    }
    let n = s.write(b"new").map_err(es("write"))?;
    ensure!(&s.read(&n).map_err(es("read"))?[..] == b"new", "writing to a file of an earlier version fails");
    for (id, d) in ids {
        let b = s.read(id).map_err(es("read"))?;
        ensure!(&b[..] == &d[..], "blob {} of a file of an earlier version is wrong after a write", hex(id));
    }
    Ok(())
}

//! C10: every store access of every operation fails once, and from there on.
use crate::ctx::{es, hex, Ctx, R};
use crate::callbacks::Inside;
use crate::gen::*;
use crate::run::guarded;
use crate::vstore::VStore;
use crate::world::*;
use crate::{ensure, fail};
use radixdb::node::{DetachConverter, DowncastConverter, IdentityConverter};
use radixdb::store::{Detached, DynBlobStore};
use radixdb::RadixTree;
use std::rc::Rc;

type Tree = RadixTree<DynBlobStore>;
type DInst = Inst<DynBlobStore>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fo {
    Insert,
    Remove,
    RemovePrefix,
    Filter,
    Get,
    Contains,
    HasPrefix,
    FirstValue,
    LastValue,
    FirstEntry,
    LastEntry,
    Iter,
    Values,
    Scan,
    GroupBy,
    WithDet(Join),
    WithSame(Join),
    WithForeign(Join),
    New(Join),
    NewForeign(Join),
    NewDet(Join),
    Pred(Join),
    PredForeign(Join),
    Set(bool),
    SetDet(bool),
    SetForeign(bool),
    Detached,
    Attached,
    Reattach,
    Load,
    ValueLoad,
}

pub const OPS: &[(Fo, u32, &str)] = &[
    (Fo::Insert, 8, "op.insert"),
    (Fo::Remove, 8, "op.remove"),
    (Fo::RemovePrefix, 6, "op.remove_prefix"),
    (Fo::Filter, 4, "op.filter_prefix"),
    (Fo::Get, 3, "op.get"),
    (Fo::Contains, 2, "op.contains_key"),
    (Fo::HasPrefix, 2, "op.has_prefix"),
    (Fo::FirstValue, 1, "op.first_value"),
    (Fo::LastValue, 1, "op.last_value"),
    (Fo::FirstEntry, 1, "op.first_entry"),
    (Fo::LastEntry, 1, "op.last_entry"),
    (Fo::Iter, 3, "op.iter"),
    (Fo::Values, 3, "op.values"),
    (Fo::Scan, 3, "op.scan_prefix"),
    (Fo::GroupBy, 3, "op.group_by"),
    (Fo::WithDet(Join::Outer), 3, "op.outer_with_detached"),
    (Fo::WithDet(Join::Inner), 3, "op.inner_with_detached"),
    (Fo::WithDet(Join::Left), 3, "op.left_with_detached"),
    (Fo::WithSame(Join::Outer), 3, "op.outer_with_same_store"),
    (Fo::WithSame(Join::Inner), 3, "op.inner_with_same_store"),
    (Fo::WithSame(Join::Left), 3, "op.left_with_same_store"),
    (Fo::WithForeign(Join::Outer), 3, "op.outer_with_foreign"),
    (Fo::WithForeign(Join::Inner), 3, "op.inner_with_foreign"),
    (Fo::WithForeign(Join::Left), 3, "op.left_with_foreign"),
    (Fo::New(Join::Outer), 2, "op.outer_new"),
    (Fo::New(Join::Inner), 2, "op.inner_new"),
    (Fo::New(Join::Left), 2, "op.left_new"),
    (Fo::NewForeign(Join::Outer), 1, "op.outer_new_foreign"),
    (Fo::NewForeign(Join::Inner), 1, "op.inner_new_foreign"),
    (Fo::NewForeign(Join::Left), 1, "op.left_new_foreign"),
    (Fo::NewDet(Join::Outer), 1, "op.outer_new_detached_left"),
    (Fo::NewDet(Join::Inner), 1, "op.inner_new_detached_left"),
    (Fo::NewDet(Join::Left), 1, "op.left_new_detached_left"),
    (Fo::Pred(Join::Inner), 2, "op.inner_pred"),
    (Fo::Pred(Join::Left), 2, "op.left_pred"),
    (Fo::PredForeign(Join::Inner), 1, "op.inner_pred_foreign"),
    (Fo::PredForeign(Join::Left), 1, "op.left_pred_foreign"),
    (Fo::Set(true), 3, "op.retain_same_store"),
    (Fo::Set(false), 3, "op.remove_set_same_store"),
    (Fo::SetDet(true), 3, "op.retain_detached"),
    (Fo::SetDet(false), 3, "op.remove_set_detached"),
    (Fo::SetForeign(true), 2, "op.retain_foreign"),
    (Fo::SetForeign(false), 2, "op.remove_set_foreign"),
    (Fo::Detached, 3, "op.detached"),
    (Fo::Attached, 2, "op.attached"),
    (Fo::Reattach, 6, "op.reattach"),
    (Fo::Load, 2, "op.load"),
    (Fo::ValueLoad, 1, "op.value_load"),
];

pub struct Env {
    pub vs: VStore,
    pub fs: VStore,
    pub store: DynBlobStore,
    pub same: DInst,
    pub foreign: DInst,
    pub det: Inst<Detached>,
    pub root: Option<(Vec<u8>, Model)>,
    pub key: Vec<u8>,
    pub val: Vec<u8>,
    pub sub: Vec<u8>,
    pub mode: usize,
    pub cut: usize,
}

/// what an operation gave; looked at once the store works again
pub enum Out {
    /// the tree itself changed; its model is already the expected one
    Changed,
    Det(Inst<Detached>),
    Tree(DInst),
    Val(Option<radixdb::node::Value<DynBlobStore>>, Option<Vec<u8>>),
    Entry(Option<(Vec<u8>, radixdb::node::Value<DynBlobStore>)>, Option<(Vec<u8>, Vec<u8>)>),
    /// iteration: entries, and whether it ended with an error
    Kv(Vec<(Vec<u8>, radixdb::node::Value<DynBlobStore>)>, Vec<(Vec<u8>, Vec<u8>)>, bool),
    Vals(Vec<radixdb::node::Value<DynBlobStore>>, Vec<Vec<u8>>, bool),
    Groups(Vec<Tree>, Vec<Model>, bool),
    Persisted(Vec<u8>),
    Done,
}

/// drain an iterator: the entries, then at most one error, then the end
fn drain<T, E: std::fmt::Debug>(it: &mut dyn Iterator<Item = Result<T, E>>, max: usize) -> R<(Vec<T>, bool)> {
    let mut out = Vec::new();
    let mut err = false;
    loop {
        match it.next() {
            None => {
                for _ in 0..3 {
                    ensure!(it.next().is_none(), "iterator continues after its end");
                }
                return Ok((out, err));
            }
            Some(Ok(x)) => {
                ensure!(!err, "iterator yields an entry after an error");
                out.push(x);
                ensure!(out.len() <= max, "iterator yields more than the {} entries of the tree", max);
            }
            Some(Err(_)) => {
                ensure!(!err, "iterator yields a second error");
                err = true;
            }
        }
    }
}

fn groups_of(m: &Model, cut: usize) -> Vec<Model> {
    fn walk(m: &Model, at: Vec<u8>, cut: usize, out: &mut Vec<Model>) {
        let sub: Model = scan(m, &at).map(|(k, v)| (k.clone(), v.clone())).collect();
        if sub.is_empty() {
            return;
        }
        let node = lcp(&sub);
        if node.len() >= cut {
            out.push(sub);
            return;
        }
        if let Some(v) = sub.get(&node) {
            out.push([(node.clone(), v.clone())].into_iter().collect());
        }
        let mut firsts: Vec<u8> = sub.keys().filter(|k| k.len() > node.len()).map(|k| k[node.len()]).collect();
        firsts.dedup();
        for c in firsts {
            let mut n = node.clone();
            n.push(c);
            walk(&sub, n, cut, out);
        }
    }
    let mut out = Vec::new();
    walk(m, Vec::new(), cut, &mut out);
    out
}

pub fn run(ctx: &mut Ctx, op: Fo, a: &mut DInst, e: &Env) -> R<Out> {
    let pairs = |m: &Model| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>();
    let k = &e.key;
    Ok(match op {
        Fo::Insert => {
            a.t.try_insert(k, &e.val).map_err(es("insert"))?;
            a.m.insert(k.clone(), e.val.clone());
            Out::Changed
        }
        Fo::Remove => {
            a.t.try_remove(k).map_err(es("remove"))?;
            a.m.remove(k);
            Out::Changed
        }
        Fo::RemovePrefix => {
            a.t.try_remove_prefix(k).map_err(es("remove_prefix"))?;
            a.m.retain(|x, _| !x.starts_with(k));
            Out::Changed
        }
        Fo::Filter => {
            let t = a.t.try_filter_prefix(k, &e.sub).map_err(es("filter_prefix"))?;
            Out::Tree(Inst { t, m: filter_model(&a.m, k, &e.sub) })
        }
        Fo::Get => Out::Val(a.t.try_get(k).map_err(es("get"))?, a.m.get(k).cloned()),
        Fo::Contains => {
            let c = a.t.try_contains_key(k).map_err(es("contains_key"))?;
            ensure!(c == a.m.contains_key(k), "contains_key({}) is {}", hex(k), c);
            Out::Done
        }
        Fo::HasPrefix => {
            let c = a.t.try_has_prefix(k).map_err(es("has_prefix"))?;
            ensure!(c == scan(&a.m, k).next().is_some(), "has_prefix({}) is {}", hex(k), c);
            Out::Done
        }
        Fo::FirstValue => Out::Val(a.t.try_first_value().map_err(es("first_value"))?, a.m.values().next().cloned()),
        Fo::LastValue => Out::Val(a.t.try_last_value().map_err(es("last_value"))?, a.m.values().next_back().cloned()),
        Fo::FirstEntry => Out::Entry(a.t.try_first_entry(vec![]).map_err(es("first_entry"))?, pairs(&a.m).first().cloned()),
        Fo::LastEntry => Out::Entry(a.t.try_last_entry(vec![]).map_err(es("last_entry"))?, pairs(&a.m).last().cloned()),
        Fo::Iter => {
            let (x, err) = drain(&mut a.t.try_iter(), a.m.len())?;
            Out::Kv(x.into_iter().map(|(k, v)| (k.to_vec(), v)).collect(), pairs(&a.m), err)
        }
        Fo::Scan => {
            let mut it = a.t.try_scan_prefix(k).map_err(es("scan_prefix"))?;
            let (x, err) = drain(&mut it, a.m.len())?;
            let exp = scan(&a.m, k).map(|(k, v)| (k.clone(), v.clone())).collect();
            Out::Kv(x.into_iter().map(|(k, v)| (k.to_vec(), v)).collect(), exp, err)
        }
        Fo::Values => {
            let (x, err) = drain(&mut a.t.try_values(), a.m.len())?;
            Out::Vals(x, a.m.values().cloned().collect(), err)
        }
        Fo::GroupBy => {
            let cut = e.cut;
            let (x, err) = drain(&mut a.t.try_group_by(move |p, _| Ok(p.len() < cut)), a.m.len() + 1)?;
            Out::Groups(x, groups_of(&a.m, cut), err)
        }
        Fo::WithDet(j) => {
            if e.mode & 1 == 0 {
                join_with(ctx, j, a, &e.det.t, &e.det.m, e.mode, DowncastConverter, take_det())?;
            } else {
                join_with(ctx, j, a, &e.det.t, &e.det.m, e.mode, DetachConverter, take_det())?;
            }
            Out::Changed
        }
        Fo::WithSame(j) => {
            if e.mode & 1 == 0 {
                join_with(ctx, j, a, &e.same.t, &e.same.m, e.mode, IdentityConverter, take_same())?;
            } else {
                join_with(ctx, j, a, &e.same.t, &e.same.m, e.mode, DetachConverter, take_same())?;
            }
            Out::Changed
        }
        Fo::WithForeign(j) => {
            foreign_with(ctx, j, a, &e.foreign.t, &e.foreign.m, e.mode)?;
            Out::Changed
        }
        Fo::New(j) => Out::Det(join::<_, _, anyhow::Error>(ctx, j, &a.t, &a.m, &e.same.t, &e.same.m, e.mode)?),
        Fo::NewForeign(j) => Out::Det(join::<_, _, anyhow::Error>(ctx, j, &a.t, &a.m, &e.foreign.t, &e.foreign.m, e.mode)?),
        Fo::NewDet(j) => Out::Det(join::<_, _, anyhow::Error>(ctx, j, &e.det.t, &e.det.m, &a.t, &a.m, e.mode)?),
        Fo::Pred(j) => {
            join_pred::<_, _, anyhow::Error>(ctx, j, &a.t, &a.m, &e.same.t, &e.same.m, e.mode as u64)?;
            Out::Done
        }
        Fo::PredForeign(j) => {
            join_pred::<_, _, anyhow::Error>(ctx, j, &a.t, &a.m, &e.foreign.t, &e.foreign.m, e.mode as u64)?;
            Out::Done
        }
        Fo::Set(r) => {
            prefix_set(ctx, r, a, &e.same.t, &e.same.m, (e.mode % 4) as u64)?;
            Out::Changed
        }
        Fo::SetDet(r) => {
            prefix_set(ctx, r, a, &e.det.t, &e.det.m, (e.mode % 4) as u64)?;
            Out::Changed
        }
        Fo::SetForeign(r) => {
            foreign_set(ctx, r, a, &e.foreign.t, &e.foreign.m, (e.mode % 4) as u64)?;
            Out::Changed
        }
        Fo::Detached => Out::Det(Inst { t: a.t.try_detached().map_err(es("detached"))?, m: a.m.clone() }),
        Fo::Attached => Out::Tree(Inst { t: e.det.t.try_attached(e.store.clone()).map_err(es("attached"))?, m: e.det.m.clone() }),
        Fo::Reattach => Out::Persisted(a.t.try_reattach().map_err(es("reattach"))?),
        Fo::Load => match &e.root {
            Some((id, m)) => Out::Tree(Inst { t: RadixTree::try_load(e.store.clone(), Some(id)).map_err(es("load"))?, m: m.clone() }),
            None => Out::Done,
        },
        Fo::ValueLoad => {
            if let Some(v) = a.t.try_get(k).map_err(es("get"))? {
                let b = v.load(&e.store).map_err(es("value load"))?;
                ensure!(Some(&b[..]) == a.m.get(k).map(|x| &x[..]), "value of {} is {}", hex(k), hex(&b));
            }
            Out::Done
        }
    })
}

/// judge the result; returns whether an iterator ended with an error
pub fn judge(ctx: &mut Ctx, out: Out, a: &DInst, e: &Env) -> R<bool> {
    let s = &e.store;
    match out {
        Out::Done => Ok(false),
        Out::Changed => {
            verify(ctx, "result", &a.t, &a.m)?;
            verify_shape(ctx, "result", &a.t, &a.m)?;
            Ok(false)
        }
        Out::Det(x) => {
            verify(ctx, "result", &x.t, &x.m)?;
            Ok(false)
        }
        Out::Tree(x) => {
            verify(ctx, "result", &x.t, &x.m)?;
            Ok(false)
        }
        Out::Val(v, w) => {
            let v = v.map(|v| loadval(&v, s)).transpose()?;
            ensure!(v == w, "value {:?} instead of {:?}", v.map(|x| hex(&x)), w.map(|x| hex(&x)));
            Ok(false)
        }
        Out::Entry(v, w) => {
            let v = v.map(|(k, v)| Ok::<_, String>((k, loadval(&v, s)?))).transpose()?;
            ensure!(v == w, "entry {:?} instead of {:?}", v.map(|x| hex(&x.0)), w.map(|x| hex(&x.0)));
            Ok(false)
        }
        Out::Kv(got, want, err) => {
            ensure!(err || got.len() == want.len(), "iterator ends without an error after {} of {} entries", got.len(), want.len());
            ensure!(got.len() <= want.len(), "too many entries");
            for ((k, v), (wk, wv)) in got.iter().zip(&want) {
                ensure!(k == wk, "iterator yields key {} instead of {}", hex(k), hex(wk));
                let v = loadval(v, s)?;
                ensure!(&v == wv, "iterator yields value {} instead of {} for {}", hex(&v), hex(wv), hex(wk));
            }
            if err && !got.is_empty() {
                ctx.stat("ev.iterators_failed_midway", 1);
            }
            Ok(err)
        }
        Out::Vals(got, want, err) => {
            ensure!(err || got.len() == want.len(), "values ends without an error after {} of {} entries", got.len(), want.len());
            for (v, wv) in got.iter().zip(&want) {
                let v = loadval(v, s)?;
                ensure!(&v == wv, "values yields {} instead of {}", hex(&v), hex(wv));
            }
            if err && !got.is_empty() {
                ctx.stat("ev.iterators_failed_midway", 1);
            }
            Ok(err)
        }
        Out::Groups(got, want, err) => {
            let got: Vec<_> = if want.is_empty() { got.into_iter().filter(|t| !t.is_empty()).collect() } else { got };
            ensure!(err || got.len() == want.len(), "group_by ends without an error after {} of {} groups", got.len(), want.len());
            ensure!(got.len() <= want.len(), "group_by yields too many groups");
            for (t, m) in got.iter().zip(&want) {
                verify(ctx, "group", t, m)?;
            }
            Ok(err)
        }
        Out::Persisted(id) => {
            let t = RadixTree::try_load(s.clone(), Some(&id)).map_err(es("load"))?;
            verify(ctx, "persisted", &t, &a.m)?;
            verify(ctx, "tree after persisting", &a.t, &a.m)?;
            Ok(false)
        }
    }
}

pub fn copy(i: &DInst) -> DInst {
    Inst { t: i.t.clone(), m: i.m.clone() }
}

/// a tree of which some parts are only in the store and others only in memory
pub fn part_stored(ctx: &mut Ctx, g: &KeyGen, store: &DynBlobStore, base: &Model, n: usize) -> R<DInst> {
    let mut m = if base.is_empty() { content(ctx, g, n) } else { related(ctx, g, base, n) };
    let mut t: Tree = build(&m, ctx).try_attached(store.clone()).map_err(es("attached"))?;
    let how = ctx.rng.below(4);
    if how > 0 {
        let id = t.try_reattach().map_err(es("reattach"))?;
        if how > 1 {
            t = RadixTree::try_load(store.clone(), Some(&id)).map_err(es("load"))?;
        }
    }
    if how == 3 {
        for _ in 0..ctx.rng.range(1, 3) {
            let k = g.query(&mut ctx.rng, &m);
            if ctx.rng.chance(1, 2) {
                t.try_remove(&k).map_err(es("remove"))?;
                m.remove(&k);
            } else {
                let v = value(ctx);
                t.try_insert(&k, &v).map_err(es("insert"))?;
                m.insert(k, v);
            }
        }
    }
    Ok(Inst { t, m })
}

pub fn c10(ctx: &mut Ctx) -> R {
    store_failures(ctx, false)
}

/// every store access fails, by an error or (C25) by a panic
pub fn store_failures(ctx: &mut Ctx, panics: bool) -> R {
    let vs = VStore::random(&mut ctx.rng);
    let fs = VStore::random(&mut ctx.rng);
    let store = vs.dynamic();
    let fstore = fs.dynamic();
    let g = KeyGen::new(&mut ctx.rng);
    let g = if ctx.small { g.mini() } else { g };
    ctx.note(|| format!("key profile {}", PROFILES[g.profile]));
    ctx.stat(PROFILE_STATS[g.profile], 1);
    let n = if ctx.small { ctx.rng.range(1, 5) } else { *ctx.rng.pick(&[1usize, 3, 6, 10, 20, 45, 120]) };
    let mut a = part_stored(ctx, &g, &store, &Model::new(), n)?;
    ctx.note(|| format!("tree {}", show(&a.m)));
    let nb = ctx.rng.range(1, 12);
    let same = part_stored(ctx, &g, &store, &a.m, nb)?;
    let foreign = part_stored(ctx, &g, &fstore, &a.m, nb)?;
    let dm = related(ctx, &g, &a.m, nb);
    let det = Inst { t: build(&dm, ctx), m: dm };
    let mut e = Env {
        vs,
        fs,
        store,
        same,
        foreign,
        det,
        root: None,
        key: vec![],
        val: vec![],
        sub: vec![],
        mode: 0,
        cut: 0,
    };
    ctx.nontrivial = a.m.len() >= 2;
    let rounds = if ctx.small { 2 } else { ctx.rng.range(2, 6) };
    let w: Vec<u32> = OPS.iter().map(|x| x.1).collect();
    for _ in 0..rounds {
        let (op, _, name) = OPS[ctx.rng.weighted(&w)];
        e.key = if ctx.rng.chance(2, 3) && !a.m.is_empty() { pick_key(&mut ctx.rng, &a.m) } else { g.query(&mut ctx.rng, &a.m) };
        if matches!(op, Fo::RemovePrefix | Fo::Filter | Fo::Scan | Fo::HasPrefix) {
            let n = ctx.rng.range(0, e.key.len());
            e.key.truncate(n);
        }
        e.val = value(ctx);
        e.sub = if ctx.rng.chance(1, 2) { Vec::new() } else { g.key(&mut ctx.rng) };
        e.mode = ctx.rng.below(8);
        e.cut = ctx.rng.range(0, 10);
        if ctx.rng.chance(1, 3) {
            e.same = part_stored(ctx, &g, &e.store, &a.m, nb)?;
        }
        let key = e.key.clone();
        ctx.op(name, &key, || format!("mode {} cut {}", e.mode, e.cut));
        let before = a.m.clone();
        // without faults
        let mut c = copy(&a);
        e.vs.plan(u64::MAX, u64::MAX, false, false);
        e.fs.plan(u64::MAX, u64::MAX, false, false);
        let r = guarded(|| run(ctx, op, &mut c, &e)).map_err(|p| format!("without faults: {}", p))??;
        let (na, nf) = (e.vs.lock().acc, e.fs.lock().acc);
        e.vs.clear_plan();
        e.fs.clear_plan();
        let failed = judge(ctx, r, &c, &e)?;
        ensure!(!failed, "an iterator failed without a fault");
        ctx.max("max.accesses", na + nf);
        if panics && na + nf > 0 {
            // the stores use other handles, also ones that share nodes with the tree
            let each = (60 / (na + nf)).clamp(1, 4);
            let inside = Inside::new(ctx, &g, e.store.clone(), vec![copy(&a), copy(&e.same)], vec![Inst { t: e.det.t.clone(), m: e.det.m.clone() }], each)?;
            let h = inside.clone();
            crate::vstore::set_hook(Some(Rc::new(move || h.step())));
            let mut c = copy(&a);
            let r = guarded(|| run(ctx, op, &mut c, &e));
            crate::vstore::set_hook(None);
            let r = r.and_then(|x| x).map_err(|p| format!("{}, the store uses other handles: {}", name, p))?;
            inside.finish(ctx, "ev.reentrant_store_ops").map_err(|p| format!("{}: {}", name, p))?;
            let failed = judge(ctx, r, &c, &e).map_err(|p| format!("{}, the store uses other handles: {}", name, p))?;
            ensure!(!failed, "an iterator failed without a fault");
            verify(ctx, "clone of the tree", &a.t, &a.m)?;
            verify_shape(ctx, "clone of the tree", &a.t, &a.m)?;
            verify(ctx, "operand", &e.same.t, &e.same.m)?;
            verify(ctx, "operand in another store", &e.foreign.t, &e.foreign.m)?;
        }
        // every access fails, once or from there on
        for (which, n) in [(0, na), (1, nf)] {
            let all = if ctx.small { 4 } else if ctx.thorough { 200 } else { 32 };
            let mut at: Vec<u64> = if n <= all {
                (0..n).collect()
            } else {
                let mut v: Vec<u64> = (0..all / 4).chain(n - all / 4..n).collect();
                for _ in 0..all / 2 {
                    v.push(ctx.rng.below(n as usize) as u64);
                }
                v
            };
            at.sort();
            at.dedup();
            for p in at {
                for until in [p + 1, u64::MAX] {
                    let st = if which == 0 { &e.vs } else { &e.fs };
                    let mut c = copy(&a);
                    st.plan(p, until, true, true);
                    st.lock().fail_panics = panics;
                    let r = guarded(|| run(ctx, op, &mut c, &e));
                    let hit = st.clear_plan();
                    ctx.stat("ev.faults_injected", (hit > 0) as u64);
                    let at = || format!("store access {} of {} fails{}", p + 1, n, if until == u64::MAX { " and all later ones" } else { "" });
                    let r = match r {
                        Err(x) if panics && x.contains("injected panic") => {
                            ctx.stat("ev.store_panics", 1);
                            Ok(Err("injected: unexpected error".to_string()))
                        }
                        r => r,
                    };
                    let r = r.map_err(|x| format!("{} ({}): {}", name, at(), x))?;
                    let (failed, text) = match r {
                        Ok(out) => (judge(ctx, out, &c, &e).map_err(|x| format!("{} ({}): succeeds with a wrong result: {}", name, at(), x))?, String::new()),
                        Err(x) => {
                            ensure!(hit > 0 && x.contains(": unexpected error"), "{} ({}): {}", name, at(), x);
                            (true, x)
                        }
                    };
                    if !failed {
                        ctx.stat(if hit > 0 { "ev.fault_tolerated" } else { "ev.fault_not_reached" }, 1);
                        continue;
                    }
                    ctx.stat("ev.failed_ops", 1);
                    let judge_after = |ctx: &mut Ctx| -> R {
                        // content as before
                        ensure!(c.m == before, "harness: model changed");
                        verify(ctx, "tree after the failed operation", &c.t, &before)?;
                        verify_shape(ctx, "tree after the failed operation", &c.t, &before)?;
                        verify(ctx, "clone of the tree after the failed operation", &a.t, &before)?;
                        verify(ctx, "same store operand after the failed operation", &e.same.t, &e.same.m)?;
                        verify(ctx, "foreign operand after the failed operation", &e.foreign.t, &e.foreign.m)?;
                        verify(ctx, "detached operand after the failed operation", &e.det.t, &e.det.m)
                    };
                    judge_after(ctx).map_err(|x| format!("{} ({}, {}): {}", name, at(), text, x))?;
                    if ctx.rng.chance(1, 6) {
                        // the survivor can be persisted and loaded
                        let id = c.t.try_reattach().map_err(es("reattach after a failure"))?;
                        let l: Tree = RadixTree::try_load(e.store.clone(), Some(&id)).map_err(es("load"))?;
                        verify(ctx, "tree persisted after the failed operation", &l, &before)?;
                        ctx.stat("ev.persisted_after_failure", 1);
                    }
                    // retry
                    let r = guarded(|| run(ctx, op, &mut c, &e)).map_err(|x| format!("{} ({}): retry: {}", name, at(), x))?;
                    let r = r.map_err(|x| format!("{} ({}): retry: {}", name, at(), x))?;
                    let f = judge(ctx, r, &c, &e).map_err(|x| format!("{} ({}): retry: {}", name, at(), x))?;
                    ensure!(!f, "{} ({}): retry fails", name, at());
                    ctx.stat("ev.retries", 1);
                }
            }
        }
        // go on with the tree itself: fail once or a few times, then (maybe) succeed
        let fails = ctx.rng.below(3);
        for _ in 0..fails {
            let p = ctx.rng.below(na.max(1) as usize + 1) as u64;
            e.vs.plan(p, if ctx.rng.chance(1, 2) { p + 1 } else { u64::MAX }, true, true);
            let r = guarded(|| run(ctx, op, &mut a, &e)).map_err(|x| format!("{}: {}", name, x))?;
            let hit = e.vs.clear_plan();
            match r {
                Ok(out) => {
                    judge(ctx, out, &a, &e)?;
                }
                Err(x) => {
                    ensure!(hit > 0 && x.contains(": unexpected error"), "{}: {}", name, x);
                    ctx.stat("ev.failed_in_history", 1);
                }
            }
        }
        if ctx.rng.chance(3, 4) {
            let r = run(ctx, op, &mut a, &e)?;
            if let Out::Persisted(id) = &r {
                e.root = Some((id.clone(), a.m.clone()));
            }
            judge(ctx, r, &a, &e)?;
        }
        if a.m.len() > 200 || a.m.keys().any(|k| k.len() > 300000) {
            break;
        }
        if ctx.rng.chance(1, 2) {
            let id = a.t.try_reattach().map_err(es("reattach"))?;
            if ctx.rng.chance(2, 3) {
                a.t = RadixTree::try_load(e.store.clone(), Some(&id)).map_err(es("load"))?;
            }
            e.root = Some((id, a.m.clone()));
        }
    }
    for s in [&e.vs, &e.fs] {
        let bad = s.lock().bad_reads.len();
        if bad > 0 {
            fail!("{} reads of ids the store never issued", bad);
        }
    }
    verify(ctx, "at the end", &a.t, &a.m)
}

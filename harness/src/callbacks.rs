//! C25: callbacks and stores that panic, callbacks that fail, and callbacks that use everything they can reach.
use crate::ctx::{es, hex, Ctx, R};
use crate::faults::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::run::guarded;
use crate::vstore::VStore;
use crate::world::*;
use crate::{ensure, fail};
use radixdb::node::{DetachConverter, DowncastConverter, IdentityConverter};
use radixdb::store::{Detached, DynBlobStore, NoError};
use radixdb::RadixTree;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Operand {
    Same,
    Det,
    Foreign,
}
use Operand::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cb {
    With(Join, Operand),
    New(Join, Operand),
    Rev(Join),
    Pred(Join, Operand),
    Set(bool, Operand),
    Group,
}

impl Cb {
    fn in_place(&self) -> bool {
        matches!(self, Cb::With(..) | Cb::Set(..))
    }
    fn name(&self) -> &'static str {
        match self {
            Cb::With(Join::Outer, _) => "op.outer_with",
            Cb::With(Join::Inner, _) => "op.inner_with",
            Cb::With(Join::Left, _) => "op.left_with",
            Cb::New(Join::Outer, _) => "op.outer_new",
            Cb::New(Join::Inner, _) => "op.inner_new",
            Cb::New(Join::Left, _) => "op.left_new",
            Cb::Rev(_) => "op.new_from_foreign",
            Cb::Pred(Join::Left, _) => "op.left_pred",
            Cb::Pred(..) => "op.inner_pred",
            Cb::Set(true, _) => "op.retain_set",
            Cb::Set(false, _) => "op.remove_set",
            Cb::Group => "op.group_by",
        }
    }
    fn random(rng: &mut Rng) -> Self {
        let o = *rng.pick(&[Same, Det, Foreign]);
        let j = *rng.pick(&JOINS);
        match rng.below(12) {
            0..=4 => Cb::With(j, o),
            5 | 6 => Cb::New(j, o),
            7 => Cb::Rev(j),
            8 => Cb::Pred(if j == Join::Outer { Join::Left } else { j }, o),
            9 | 10 => Cb::Set(rng.chance(1, 2), o),
            _ => Cb::Group,
        }
    }
}

struct Env25<S: Backend> {
    fs: VStore,
    same: Inst<S>,
    foreign: Inst<DynBlobStore>,
    det: Inst<Detached>,
    mode: usize,
    cut: usize,
}

/// run the operation and compare its result
fn run25<S: Backend, E>(ctx: &mut Ctx, op: Cb, a: &mut Inst<S>, e: &Env25<S>) -> R
where
    E: From<S::E> + From<NoError> + From<anyhow::Error> + std::fmt::Debug,
{
    let set = (e.mode % 4) as u64;
    match op {
        Cb::With(j, Same) if e.mode & 1 == 0 => join_with(ctx, j, a, &e.same.t, &e.same.m, e.mode, IdentityConverter, take_same())?,
        Cb::With(j, Same) => join_with(ctx, j, a, &e.same.t, &e.same.m, e.mode, DetachConverter, take_same())?,
        Cb::With(j, Det) if e.mode & 1 == 0 => join_with(ctx, j, a, &e.det.t, &e.det.m, e.mode, DowncastConverter, take_det())?,
        Cb::With(j, Det) => join_with(ctx, j, a, &e.det.t, &e.det.m, e.mode, DetachConverter, take_det())?,
        Cb::With(j, Foreign) => foreign_with(ctx, j, a, &e.foreign.t, &e.foreign.m, e.mode)?,
        Cb::Set(r, Same) => prefix_set(ctx, r, a, &e.same.t, &e.same.m, set)?,
        Cb::Set(r, Det) => prefix_set(ctx, r, a, &e.det.t, &e.det.m, set)?,
        Cb::Set(r, Foreign) => foreign_set(ctx, r, a, &e.foreign.t, &e.foreign.m, set)?,
        Cb::New(j, o) => {
            let x = match o {
                Same => join::<_, _, E>(ctx, j, &a.t, &a.m, &e.same.t, &e.same.m, e.mode)?,
                Det => join::<_, _, E>(ctx, j, &a.t, &a.m, &e.det.t, &e.det.m, e.mode)?,
                Foreign => join::<_, _, E>(ctx, j, &a.t, &a.m, &e.foreign.t, &e.foreign.m, e.mode)?,
            };
            return verify(ctx, "result", &x.t, &x.m);
        }
        Cb::Rev(j) => {
            let x = join::<_, _, E>(ctx, j, &e.foreign.t, &e.foreign.m, &a.t, &a.m, e.mode)?;
            return verify(ctx, "result", &x.t, &x.m);
        }
        Cb::Pred(j, Same) => return join_pred::<_, _, E>(ctx, j, &a.t, &a.m, &e.same.t, &e.same.m, e.mode as u64),
        Cb::Pred(j, Det) => return join_pred::<_, _, E>(ctx, j, &a.t, &a.m, &e.det.t, &e.det.m, e.mode as u64),
        Cb::Pred(j, Foreign) => return join_pred::<_, _, E>(ctx, j, &a.t, &a.m, &e.foreign.t, &e.foreign.m, e.mode as u64),
        Cb::Group => {
            group_by(ctx, &a.t, &a.m, e.mode as u64 % 5, e.cut)?;
        }
    }
    verify(ctx, "result", &a.t, &a.m)?;
    verify_shape(ctx, "result", &a.t, &a.m)
}

fn others<S: Backend>(ctx: &mut Ctx, a: &Inst<S>, e: &Env25<S>) -> R {
    verify(ctx, "clone of the tree", &a.t, &a.m)?;
    verify(ctx, "operand", &e.same.t, &e.same.m)?;
    verify(ctx, "operand in another store", &e.foreign.t, &e.foreign.m)?;
    verify(ctx, "detached operand", &e.det.t, &e.det.m)
}

/// a detached tree of which a callback panicked half way: it has entries of the operands only, and can be used
fn usable<S: Backend>(ctx: &mut Ctx, g: &KeyGen, c: &mut Inst<S>, of: &[&Model]) -> R {
    let mut m = Model::new();
    let limit = of.iter().map(|x| x.len()).sum::<usize>();
    let s = RadixTree::store(&c.t).clone();
    let mut last: Option<Vec<u8>> = None;
    for r in c.t.try_iter() {
        let (k, v) = r.map_err(es("iter"))?;
        let k = k.to_vec();
        ensure!(of.iter().any(|x| x.contains_key(&k)), "the tree has the key {} which is in none of the operands", hex(&k));
        if let Some(l) = &last {
            ensure!(*l < k, "iteration yields {} after {}", hex(&k), hex(l));
        }
        last = Some(k.clone());
        m.insert(k, loadval(&v, &s)?);
        ensure!(m.len() <= limit, "too many entries");
    }
    ctx.stat("ev.half_done_trees", 1);
    ctx.stat("ev.half_done_entries", m.len() as u64);
    c.m = m;
    verify(ctx, "half modified tree", &c.t, &c.m)?;
    for _ in 0..3 {
        let k = g.query(&mut ctx.rng, &c.m);
        match ctx.rng.below(4) {
            0 | 1 => {
                let v = value(ctx);
                c.t.try_insert(&k, &v).map_err(es("insert"))?;
                c.m.insert(k.clone(), v);
            }
            2 => {
                c.t.try_remove(&k).map_err(es("remove"))?;
                c.m.remove(&k);
            }
            _ => {
                // emptied nodes may still be there, so has_prefix is not judged
                let exp: Vec<_> = scan(&c.m, &k).map(|(k, v)| (k.clone(), v.clone())).collect();
                let mut it = c.t.try_scan_prefix(&k).map_err(es("scan_prefix"))?;
                verify_kv_iter("scan_prefix", &mut it, &s, &mut exp.into_iter())?;
            }
        }
        verify_get(ctx, &c.t, &c.m, &k)?;
        verify(ctx, "half modified tree after another operation", &c.t, &c.m)?;
    }
    let x = c.t.clone();
    c.t.try_remove_prefix(b"").map_err(es("remove_prefix"))?;
    ensure!(c.t.is_empty(), "not empty after all entries were removed");
    verify(ctx, "clone of the half modified tree", &x, &c.m)?;
    c.t.try_insert(b"k", b"v").map_err(es("insert"))?;
    c.m = [(b"k".to_vec(), b"v".to_vec())].into_iter().collect();
    verify(ctx, "tree filled again", &c.t, &c.m)
}

const INSIDE: &[(Op, u32)] = &[
    (Op::Insert, 10),
    (Op::RemoveSame, 6),
    (Op::RemovePrefix, 2),
    (Op::Get, 3),
    (Op::Prefix, 3),
    (Op::Extremes, 2),
    (Op::GroupBy, 2),
    (Op::Filter, 2),
    (Op::CloneInst, 8),
    (Op::DropInst, 6),
    (Op::JoinWithDet, 3),
    (Op::JoinWithInst, 3),
    (Op::JoinNew, 2),
    (Op::Retain, 1),
    (Op::RemoveSet, 1),
    (Op::Hold, 5),
    (Op::StepHeld, 8),
    (Op::DropHeld, 3),
    (Op::Detach, 2),
    (Op::Reattach, 3),
    (Op::Reload, 2),
];

fn count<S: Backend, E>(ctx: &mut Ctx, op: Cb, a: &Inst<S>, e: &Env25<S>) -> R<u64>
where
    E: From<S::E> + From<NoError> + From<anyhow::Error> + std::fmt::Debug,
{
    let n = Rc::new(Cell::new(0u64));
    let h = n.clone();
    set_hook(Some(Rc::new(move |_| {
        h.set(h.get() + 1);
        false
    })));
    let mut c = Inst { t: a.t.clone(), m: a.m.clone() };
    let r = guarded(|| run25::<S, E>(ctx, op, &mut c, e));
    set_hook(None);
    r.map_err(|x| format!("undisturbed: {}", x))?.map_err(|x| format!("undisturbed: {}", x))?;
    Ok(n.get())
}

/// handles that are used from inside of callbacks and store accesses; cloning gives another handle of the same
pub struct Inside<S: Backend>(Rc<RefCell<(World<S>, Ctx, R, u64)>>, usize);

impl<S: Backend> Clone for Inside<S> {
    fn clone(&self) -> Self {
        Inside(self.0.clone(), self.1)
    }
}

impl<S: Backend> Inside<S> {
    pub fn new(ctx: &mut Ctx, g: &KeyGen, store: S, insts: Vec<Inst<S>>, dets: Vec<Inst<Detached>>, each: u64) -> R<Self> {
        let mut inner = Ctx::new(ctx.rng.next(), ctx.index);
        inner.small = ctx.small;
        inner.verbose = ctx.verbose;
        let mut w = World::<S>::with_gen(&mut inner, store, g.clone());
        w.max_entries = 200;
        w.insts.extend(insts);
        w.dets.extend(dets);
        w.apply(&mut inner, Op::Hold)?;
        Ok(Inside(Rc::new(RefCell::new((w, inner, Ok(()), 0))), each as usize))
    }
    pub fn step(&self) {
        // not for the callbacks and store accesses of the operations made here
        if let Ok(mut x) = self.0.try_borrow_mut() {
            let (w, ctx, r, steps) = &mut *x;
            for _ in 0..self.1 {
                if r.is_ok() && *steps < 300 {
                    *steps += 1;
                    *r = w.step(ctx, INSIDE);
                }
            }
        }
    }
    pub fn finish(self, ctx: &mut Ctx, stat: &'static str) -> R {
        let (mut w, mut inner, ri, steps) = match Rc::try_unwrap(self.0) {
            Ok(x) => x.into_inner(),
            Err(_) => fail!("harness: hook kept"),
        };
        let t = std::mem::take(&mut inner.trace);
        for x in t {
            ctx.note(|| format!("      inside: {}", x));
        }
        ri.map_err(|x| format!("operation made inside: {}", x))?;
        ctx.stat(stat, steps);
        w.finish(&mut inner).map_err(|x| format!("handles used inside: {}", x))?;
        ctx.stat("ev.held_checked", inner.stats.get("ev.held_checked").copied().unwrap_or(0));
        Ok(())
    }
}

fn rounds<S: Backend, E>(ctx: &mut Ctx, g: &KeyGen, store: S, a: &mut Inst<S>, e: &mut Env25<S>) -> R
where
    E: From<S::E> + From<NoError> + From<anyhow::Error> + std::fmt::Debug,
{
    let rounds = if ctx.small { 2 } else { ctx.rng.range(2, 6) };
    for _ in 0..rounds {
        let op = Cb::random(&mut ctx.rng);
        e.mode = ctx.rng.below(8);
        e.cut = ctx.rng.range(0, 10);
        ctx.op(op.name(), &[e.mode as u8], || format!("{:?} mode {} cut {}", op, e.mode, e.cut));
        let n = count::<S, E>(ctx, op, a, e)?;
        ctx.stat("ev.callbacks", n);
        let before = a.m.clone();
        let all = if ctx.small { 3 } else if ctx.thorough { 100 } else { 12 };
        let mut at: Vec<u64> = (0..n).collect();
        while at.len() > all {
            let k = ctx.rng.below(at.len());
            at.swap_remove(k);
        }
        for p in at {
            for kind in 0..2 {
                let panics = kind == 0;
                // the errors of an in place operation on a detached tree have no value
                if !panics && op.in_place() && !S::ATTACHED || (!panics && op == Cb::Group && !S::ATTACHED) {
                    continue;
                }
                let mut c = Inst { t: a.t.clone(), m: a.m.clone() };
                let mut held = hold(ctx, g, &c)?;
                let seen = Rc::new(Cell::new(0u64));
                let s = seen.clone();
                set_hook(Some(Rc::new(move |_| {
                    let k = s.get();
                    s.set(k + 1);
                    if k == p && panics {
                        panic!("callback panics");
                    }
                    k == p
                })));
                let r = guarded(|| run25::<S, E>(ctx, op, &mut c, e));
                set_hook(None);
                let what = || format!("{:?}, call {} of {} {}", op, p + 1, n, if panics { "panics" } else { "fails" });
                match r {
                    Err(x) if panics && x.contains("callback panics") => ctx.stat("ev.callback_panics", 1),
                    Ok(Err(x)) if !panics && x.contains("callback fails") => ctx.stat("ev.callback_errors", 1),
                    Err(x) => fail!("{}: {}", what(), x),
                    Ok(Err(x)) => fail!("{}: {}", what(), x),
                    Ok(Ok(())) => fail!("{}: the operation succeeds, the failure is lost", what()),
                }
                ensure!(seen.get() == p + 1, "{}: {} more calls after the failure", what(), seen.get() - p - 1);
                let mut after = |ctx: &mut Ctx| -> R {
                    others(ctx, a, e)?;
                    if S::ATTACHED || !op.in_place() {
                        ensure!(c.m == before, "harness: model changed");
                        verify(ctx, "tree", &c.t, &before)?;
                        verify_shape(ctx, "tree", &c.t, &before)?;
                        run25::<S, E>(ctx, op, &mut c, e).map_err(|x| format!("retry: {}", x))?;
                        ctx.stat("ev.retries", 1);
                    } else {
                        let b = match op {
                            Cb::With(_, Same) | Cb::Set(_, Same) => &e.same.m,
                            Cb::With(_, Det) | Cb::Set(_, Det) => &e.det.m,
                            _ => &e.foreign.m,
                        };
                        usable(ctx, g, &mut c, &[&before, b])?;
                    }
                    if let Some(h) = &mut held {
                        h.step(ctx, 1000)?;
                    }
                    others(ctx, a, e)
                };
                let r = guarded(|| after(ctx));
                r.unwrap_or_else(Err).map_err(|x| format!("{}: afterwards: {}", what(), x))?;
            }
        }
        // a store that panics below an in place operation on a detached tree
        if let (false, Cb::With(_, Foreign) | Cb::Set(_, Foreign)) = (S::ATTACHED, op) {
            for _ in 0..if ctx.small { 1 } else { 4 } {
                let p = ctx.rng.below(6) as u64;
                let panics = ctx.rng.chance(1, 2);
                let mut c = Inst { t: a.t.clone(), m: a.m.clone() };
                e.fs.plan(p, u64::MAX, true, true);
                e.fs.lock().fail_panics = panics;
                let r = guarded(|| run25::<S, E>(ctx, op, &mut c, e));
                let hit = e.fs.clear_plan();
                if hit == 0 {
                    r.unwrap_or_else(Err).map_err(|x| format!("{:?}: {}", op, x))?;
                    continue;
                }
                let what = || format!("{:?}, access {} of the store of the operand {}", op, p + 1, if panics { "panics" } else { "fails" });
                match r {
                    Ok(Ok(())) => fail!("{}: the operation succeeds, the failure is lost", what()),
                    Ok(Err(x)) => fail!("{}: {}", what(), x),
                    Err(x) => ensure!(!panics || x.contains("injected panic"), "{}: {}", what(), x),
                }
                ctx.stat("ev.store_panics", 1);
                let mut after = |ctx: &mut Ctx| -> R {
                    others(ctx, a, e)?;
                    usable(ctx, g, &mut c, &[&before, &e.foreign.m])?;
                    others(ctx, a, e)
                };
                let r = guarded(|| after(ctx));
                r.unwrap_or_else(Err).map_err(|x| format!("{}: afterwards: {}", what(), x))?;
            }
        }
        // callbacks that use other handles
        if n > 0 {
            let mut c = Inst { t: a.t.clone(), m: a.m.clone() };
            let snap = Inst { t: a.t.clone(), m: a.m.clone() };
            let insts = vec![Inst { t: a.t.clone(), m: a.m.clone() }, Inst { t: e.same.t.clone(), m: e.same.m.clone() }];
            let dets = vec![Inst { t: e.det.t.clone(), m: e.det.m.clone() }];
            let inside = Inside::new(ctx, g, store.clone(), insts, dets, (200 / n).clamp(1, 4))?;
            let h = inside.clone();
            set_hook(Some(Rc::new(move |_| {
                h.step();
                false
            })));
            if ctx.rng.chance(1, 3) {
                let h = inside.clone();
                crate::vstore::set_hook(Some(Rc::new(move || h.step())));
            }
            let r = guarded(|| run25::<S, E>(ctx, op, &mut c, e));
            set_hook(None);
            crate::vstore::set_hook(None);
            r.unwrap_or_else(Err).map_err(|x| format!("{:?} with a callback that uses other handles: {}", op, x))?;
            inside.finish(ctx, "ev.reentrant_ops").map_err(|x| format!("{:?}: {}", op, x))?;
            others(ctx, a, e)?;
            verify(ctx, "clone of the tree", &snap.t, &snap.m)?;
            if ctx.rng.chance(1, 2) && c.m.len() < 300 {
                *a = c;
            }
        }
    }
    Ok(())
}

pub fn c25(ctx: &mut Ctx) -> R {
    if ctx.rng.chance(1, 3) {
        ctx.stat("kind.store_panics", 1);
        return store_failures(ctx, true);
    }
    let fs = VStore::random(&mut ctx.rng);
    let fstore = fs.dynamic();
    let g = KeyGen::new(&mut ctx.rng);
    let g = if ctx.small { g.mini() } else { g };
    ctx.note(|| format!("key profile {}", PROFILES[g.profile]));
    ctx.stat(PROFILE_STATS[g.profile], 1);
    let n = if ctx.small { ctx.rng.range(1, 5) } else { *ctx.rng.pick(&[1usize, 3, 6, 10, 20, 45, 100]) };
    let nb = if ctx.small { 3 } else { ctx.rng.range(1, 16) };
    if ctx.rng.chance(1, 2) {
        ctx.stat("kind.detached", 1);
        let m = content(ctx, &g, n);
        let mut a = Inst { t: build(&m, ctx), m };
        let m = related(ctx, &g, &a.m, nb);
        let same = Inst { t: build(&m, ctx), m };
        let m = related(ctx, &g, &a.m, nb);
        let det = Inst { t: build(&m, ctx), m };
        let foreign = part_stored(ctx, &g, &fstore, &a.m, nb)?;
        ctx.note(|| format!("tree {}", show(&a.m)));
        let mut e = Env25::<Detached> { fs, same, foreign, det, mode: 0, cut: 0 };
        ctx.nontrivial = a.m.len() >= 2;
        rounds::<_, anyhow::Error>(ctx, &g, Detached, &mut a, &mut e)
    } else {
        ctx.stat("kind.attached", 1);
        let vs = VStore::random(&mut ctx.rng);
        let store = vs.dynamic();
        let mut a = part_stored(ctx, &g, &store, &Model::new(), n)?;
        let same = part_stored(ctx, &g, &store, &a.m, nb)?;
        let foreign = part_stored(ctx, &g, &fstore, &a.m, nb)?;
        let m = related(ctx, &g, &a.m, nb);
        let det = Inst { t: build(&m, ctx), m };
        ctx.note(|| format!("tree {}", show(&a.m)));
        let mut e = Env25::<DynBlobStore> { fs, same, foreign, det, mode: 0, cut: 0 };
        ctx.nontrivial = a.m.len() >= 2;
        rounds::<_, anyhow::Error>(ctx, &g, store, &mut a, &mut e)
    }
}

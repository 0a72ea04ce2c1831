//! A family of trees over one store, driven by random operations and watched by an executable model.
use crate::ctx::{es, hex, Ctx, R};
use crate::gen::*;
use crate::rng::fnv;
use crate::{ensure, fail};
use radixdb::node::{DetachConverter, DowncastConverter, IdentityConverter, IterKey, KeyValueIter, NodeConverter, Value, ValueIter, ValueRef};
use radixdb::store::{BlobStore, Detached, DynBlobStore, NoError};
use radixdb::RadixTree;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// what the engine needs to know about a store type
pub trait Backend: BlobStore<Error = Self::E> + Clone {
    const ATTACHED: bool;
    type E: From<NoError> + From<anyhow::Error> + std::fmt::Debug + Into<anyhow::Error>;
}
impl Backend for Detached {
    const ATTACHED: bool = false;
    type E = NoError;
}
impl Backend for DynBlobStore {
    const ATTACHED: bool = true;
    type E = anyhow::Error;
}

pub struct Inst<S: BlobStore> {
    pub t: RadixTree<S>,
    pub m: Model,
}

/// make a value from bytes through the public api
pub fn mkval(data: &[u8]) -> Value {
    RadixTree::leaf(data).value().unwrap().to_owned()
}

pub fn setval<S: BlobStore>(v: &mut Value<S>, data: Option<&[u8]>) {
    match data {
        None => v.set(None),
        Some(d) => {
            let l = RadixTree::leaf(d);
            let r = l.value().unwrap();
            v.set(Some(r.downcast::<S>()));
        }
    }
}

pub fn loadval<S: Backend>(v: &Value<S>, s: &S) -> R<Vec<u8>> {
    Ok(v.load(s).map_err(es("value load"))?.to_vec())
}

pub fn build(m: &Model, ctx: &mut Ctx) -> RadixTree {
    let mut v: Vec<(&Vec<u8>, &Vec<u8>)> = m.iter().collect();
    match ctx.rng.below(3) {
        0 => {}
        1 => v.reverse(),
        _ => {
            for i in (1..v.len()).rev() {
                let j = ctx.rng.below(i + 1);
                v.swap(i, j);
            }
        }
    }
    v.into_iter().collect()
}

/// full content comparison of a tree with a model
pub fn verify<S: Backend>(ctx: &mut Ctx, what: &str, t: &RadixTree<S>, m: &Model) -> R {
    if ctx.skip() {
        return Ok(());
    }
    ctx.stat("ev.verify", 1);
    ctx.stat("ev.entries_compared", m.len() as u64);
    let s = RadixTree::store(t);
    let mut it = t.try_iter();
    let mut exp = m.iter();
    loop {
        match (it.next(), exp.next()) {
            (None, None) => break,
            (Some(r), e) => {
                let (k, v) = r.map_err(es("iter"))?;
                let Some((ek, ev)) = e else {
                    fail!("{}: iteration yields extra key {}", what, hex(&k));
                };
                ensure!(k.as_ref() == &ek[..], "{}: iteration yields key {} instead of {}", what, hex(&k), hex(ek));
                let v = loadval(&v, s)?;
                ensure!(&v == ev, "{}: iteration yields value {} instead of {} for key {}", what, hex(&v), hex(ev), hex(ek));
            }
            (None, Some((ek, _))) => fail!("{}: iteration ends before key {}", what, hex(ek)),
        }
    }
    let mut it = t.try_values();
    let mut exp = m.values();
    loop {
        match (it.next(), exp.next()) {
            (None, None) => break,
            (Some(r), e) => {
                let v = r.map_err(es("values"))?;
                let v = loadval(&v, s)?;
                ensure!(Some(&v) == e, "{}: values yields {} instead of {:?}", what, hex(&v), e.map(|x| hex(x)));
            }
            (None, Some(e)) => fail!("{}: values ends before {}", what, hex(e)),
        }
    }
    Ok(())
}

/// the parts of the root that depend only on the content
pub fn verify_shape<S: Backend>(ctx: &mut Ctx, what: &str, t: &RadixTree<S>, m: &Model) -> R {
    if ctx.skip() {
        return Ok(());
    }
    ctx.stat("ev.shape", 1);
    ensure!(t.is_empty() == m.is_empty(), "{}: is_empty is {} with {} entries", what, t.is_empty(), m.len());
    ensure!(t.is_leaf() == (m.len() <= 1), "{}: is_leaf is {} with {} entries", what, t.is_leaf(), m.len());
    let lcp = lcp(m);
    let has = !m.is_empty() && m.contains_key(&lcp);
    ensure!(t.value().is_some() == has, "{}: root value is_some {} instead of {}", what, t.value().is_some(), has);
    if let Some(v) = t.value() {
        let v = loadval(&v.to_owned(), RadixTree::store(t))?;
        ensure!(v == m[&lcp], "{}: root value {} instead of {}", what, hex(&v), hex(&m[&lcp]));
    }
    Ok(())
}

pub fn verify_root_prefix(what: &str, t: &RadixTree, m: &Model) -> R {
    let l = lcp(m);
    let p = t.prefix();
    let p = p.data().unwrap_or(b"<none>");
    ensure!(p == &l[..], "{}: root prefix is {} instead of {}", what, hex(p), hex(&l));
    Ok(())
}

pub fn lcp(m: &Model) -> Vec<u8> {
    match (m.keys().next(), m.keys().next_back()) {
        (Some(a), Some(b)) => a.iter().zip(b.iter()).take_while(|(x, y)| x == y).map(|(x, _)| *x).collect(),
        _ => Vec::new(),
    }
}

pub fn verify_get<S: Backend>(ctx: &mut Ctx, t: &RadixTree<S>, m: &Model, k: &[u8]) -> R {
    ctx.stat("ev.get", 1);
    let s = RadixTree::store(t);
    let got = t.try_get(k).map_err(es("get"))?;
    let got = match &got {
        Some(v) => Some(loadval(v, s)?),
        None => None,
    };
    ensure!(got.as_ref() == m.get(k), "get({}) is {:?} instead of {:?}", hex(k), got.map(|x| hex(&x)), m.get(k).map(|x| hex(x)));
    let c = t.try_contains_key(k).map_err(es("contains_key"))?;
    ensure!(c == m.contains_key(k), "contains_key({}) is {}", hex(k), c);
    Ok(())
}

pub fn verify_kv_iter<S: Backend>(what: &str, it: &mut KeyValueIter<S>, s: &S, exp: &mut dyn Iterator<Item = (Vec<u8>, Vec<u8>)>) -> R<u64> {
    let mut n = 0;
    loop {
        let e = exp.next();
        match (it.next(), e) {
            (None, None) => return Ok(n),
            (Some(r), e) => {
                n += 1;
                let (k, v) = r.map_err(es("iterator"))?;
                let Some((ek, ev)) = e else {
                    fail!("{}: yields extra key {}", what, hex(&k));
                };
                ensure!(k.as_ref() == &ek[..], "{}: yields key {} instead of {}", what, hex(&k), hex(&ek));
                let v = loadval(&v, s)?;
                ensure!(v == ev, "{}: yields value {} instead of {} for key {}", what, hex(&v), hex(&ev), hex(&ek));
            }
            (None, Some((ek, _))) => fail!("{}: ends before key {}", what, hex(&ek)),
        }
    }
}

/// every prefix and extremal query for one prefix
pub fn verify_prefix<S: Backend>(ctx: &mut Ctx, t: &RadixTree<S>, m: &Model, p: &[u8]) -> R {
    ctx.stat("ev.prefix_query", 1);
    let s = RadixTree::store(t);
    let exp: Vec<(Vec<u8>, Vec<u8>)> = scan(m, p).map(|(k, v)| (k.clone(), v.clone())).collect();
    let hp = t.try_has_prefix(p).map_err(es("has_prefix"))?;
    ensure!(hp == !exp.is_empty(), "has_prefix({}) is {} with {} matching entries", hex(p), hp, exp.len());
    let mut it = t.try_scan_prefix(p).map_err(es("scan_prefix"))?;
    verify_kv_iter("scan_prefix", &mut it, s, &mut exp.iter().cloned()).map_err(|e| format!("{} (prefix {})", e, hex(p)))?;
    if exp.len() > 1 {
        ctx.stat("ev.scan_multi", 1);
    }
    Ok(())
}

/// in which way the query prefix relates to the content (for coverage)
pub fn classify_prefix(m: &Model, p: &[u8]) -> &'static str {
    let mut it = scan(m, p);
    let first = it.next().map(|x| x.0);
    match first {
        None => {
            if (0..p.len()).any(|i| m.contains_key(&p[..i])) {
                "q.miss_beyond_key"
            } else {
                "q.miss"
            }
        }
        Some(f) => {
            let n = scan(m, p).count();
            if f.len() == p.len() {
                if n > 1 {
                    "q.at_inner_key"
                } else {
                    "q.at_leaf"
                }
            } else {
                let last = scan(m, p).last().unwrap().0;
                let branch = f.iter().zip(last.iter()).take_while(|(a, b)| a == b).count();
                if n > 1 && branch == p.len() {
                    "q.at_branch"
                } else {
                    "q.inside_edge"
                }
            }
        }
    }
}

pub fn filter_model(m: &Model, p: &[u8], sub: &[u8]) -> Model {
    scan(m, p)
        .map(|(k, v)| {
            let mut n = sub.to_vec();
            n.extend_from_slice(&k[p.len()..]);
            (n, v.clone())
        })
        .collect()
}

pub fn verify_extremes<S: Backend>(ctx: &mut Ctx, t: &RadixTree<S>, m: &Model) -> R {
    ctx.stat("ev.extremes", 1);
    let s = RadixTree::store(t);
    let lv = |x: Option<Value<S>>| -> R<Option<Vec<u8>>> { x.map(|v| loadval(&v, s)).transpose() };
    let pre = if ctx.rng.chance(1, 2) { Vec::new() } else { b"pre".to_vec() };
    let cat = |k: &Vec<u8>| {
        let mut p = pre.clone();
        p.extend_from_slice(k);
        p
    };
    let first = m.iter().next();
    let last = m.iter().next_back();
    let g = lv(t.try_first_value().map_err(es("first_value"))?)?;
    ensure!(g.as_ref() == first.map(|x| x.1), "first_value {:?} instead of {:?}", g.map(|x| hex(&x)), first.map(|x| hex(x.1)));
    let g = lv(t.try_last_value().map_err(es("last_value"))?)?;
    ensure!(g.as_ref() == last.map(|x| x.1), "last_value {:?} instead of {:?}", g.map(|x| hex(&x)), last.map(|x| hex(x.1)));
    let g = t.try_first_entry(pre.clone()).map_err(es("first_entry"))?;
    let g = g.map(|(k, v)| Ok::<_, String>((k, loadval(&v, s)?))).transpose()?;
    ensure!(g == first.map(|(k, v)| (cat(k), v.clone())), "first_entry key {:?} instead of {:?}", g.map(|x| hex(&x.0)), first.map(|x| hex(x.0)));
    let g = t.try_last_entry(pre.clone()).map_err(es("last_entry"))?;
    let g = g.map(|(k, v)| Ok::<_, String>((k, loadval(&v, s)?))).transpose()?;
    ensure!(g == last.map(|(k, v)| (cat(k), v.clone())), "last_entry key {:?} instead of {:?}", g.map(|x| hex(&x.0)), last.map(|x| hex(x.0)));
    Ok(())
}

// ---------------------------------------------------------------- joins

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Join {
    Outer,
    Inner,
    Left,
}
pub const JOINS: [Join; 3] = [Join::Outer, Join::Inner, Join::Left];

/// a deterministic combiner, a pure function of both values
pub fn comb(mode: usize, a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    match mode {
        0 => Some(a.to_vec()),
        1 => Some(b.to_vec()),
        2 => None,
        _ => {
            let h = fnv(a) ^ fnv(b).rotate_left(17) ^ (mode as u64).wrapping_mul(0x9e3779b97f4a7c15);
            match h % 7 {
                0 => None,
                1 => Some(a.to_vec()),
                2 => Some(b.to_vec()),
                3 => Some(Vec::new()),
                4 if a.len() + b.len() <= 600 => Some([a, b].concat()),
                5 => Some(vec![h as u8; [7usize, 8, 9, 126, 127, 128, 129][((h >> 8) % 7) as usize]]),
                _ => Some(h.to_be_bytes().to_vec()),
            }
        }
    }
}

pub fn join_model(j: Join, a: &Model, b: &Model, mode: usize) -> (Model, Vec<(Vec<u8>, Vec<u8>)>) {
    let mut m = Model::new();
    let mut calls = Vec::new();
    for (k, av) in a {
        match b.get(k) {
            Some(bv) => {
                calls.push((av.clone(), bv.clone()));
                if let Some(v) = comb(mode, av, bv) {
                    m.insert(k.clone(), v);
                }
            }
            None => {
                if j != Join::Inner {
                    m.insert(k.clone(), av.clone());
                }
            }
        }
    }
    if j == Join::Outer {
        for (k, bv) in b {
            if !a.contains_key(k) {
                m.insert(k.clone(), bv.clone());
            }
        }
    }
    calls.sort();
    (m, calls)
}

pub fn check_calls(what: &str, mut got: Vec<(Vec<u8>, Vec<u8>)>, want: &[(Vec<u8>, Vec<u8>)]) -> R {
    got.sort();
    if got != want {
        let extra = got.iter().find(|x| got.iter().filter(|y| y == x).count() > want.iter().filter(|y| y == x).count());
        let miss = want.iter().find(|x| want.iter().filter(|y| y == x).count() > got.iter().filter(|y| y == x).count());
        fail!(
            "{}: the combiner was called {} times instead of {}; unexpected call {:?}, missing call {:?}",
            what,
            got.len(),
            want.len(),
            extra.map(|(a, b)| (hex(a), hex(b))),
            miss.map(|(a, b)| (hex(a), hex(b)))
        );
    }
    Ok(())
}

fn vr<S: Backend>(v: &ValueRef<S>, s: &S) -> Result<Vec<u8>, S::E> {
    let o = v.to_owned();
    Ok(o.load(s)?.to_vec())
}

thread_local! {
    static HOOK: RefCell<Option<Rc<dyn Fn(bool) -> bool>>> = const { RefCell::new(None) };
}
/// what every callback of the suites does besides its work (C25): called with false at its start and
/// with true at its end; true makes the callback fail
pub fn set_hook(f: Option<Rc<dyn Fn(bool) -> bool>>) {
    HOOK.with(|h| *h.borrow_mut() = f);
}
fn hook<E: From<anyhow::Error>>(end: bool) -> Result<(), E> {
    let h = HOOK.with(|h| h.borrow().clone());
    match h {
        Some(h) if h(end) => Err(anyhow::anyhow!("callback fails").into()),
        _ => Ok(()),
    }
}

/// how a combiner can take the right value as it is, without loading it
pub type Take<S, S2> = Option<for<'a, 'b> fn(&'a mut Value<S>, &'b ValueRef<'b, S2>)>;
/// for operands of the same store
pub fn take_same<S: Backend>() -> Take<S, S> {
    Some(|x, y| x.set(Some(y)))
}
/// for detached operands
pub fn take_det<S: Backend>() -> Take<S, Detached> {
    Some(|x, y| x.set(Some(y.downcast::<S>())))
}

/// the in place form; checks result and combiner calls
pub fn join_with<S: Backend, S2: Backend, C: NodeConverter<S2, S> + Clone>(
    ctx: &mut Ctx,
    j: Join,
    a: &mut Inst<S>,
    b: &RadixTree<S2>,
    bm: &Model,
    mode: usize,
    c: C,
    take: Take<S, S2>,
) -> R
where
    S::E: From<S2::E>,
{
    let calls = RefCell::new(Vec::new());
    let s = RadixTree::store(&a.t).clone();
    let s2 = RadixTree::store(b).clone();
    let f = |x: &mut Value<S>, y: &ValueRef<S2>| -> Result<(), S::E> {
        hook::<S::E>(false)?;
        let av = x.load(&s)?.to_vec();
        let bv = vr(y, &s2)?;
        match comb(mode, &av, &bv) {
            Some(v) if v == av => {}
            Some(v) => match take {
                Some(take) if v == bv && (mode == 1 || mode & 4 != 0) => take(x, y),
                _ => setval(x, Some(&v)),
            },
            None => setval(x, None),
        }
        calls.borrow_mut().push((av, bv));
        hook(true)
    };
    let (m, want) = join_model(j, &a.m, bm, mode);
    if !want.is_empty() {
        ctx.stat("ev.combiner_calls", want.len() as u64);
    }
    let r = match j {
        Join::Outer => a.t.try_outer_combine_with(b, c, &f),
        Join::Inner => a.t.try_inner_combine_with(b, c, &f),
        Join::Left => a.t.try_left_combine_with(b, c, &f),
    };
    r.map_err(es("combine_with"))?;
    a.m = m;
    check_calls("combine_with", calls.into_inner(), &want)
}

/// the form that creates a new (detached) tree
pub fn join<S: Backend, S2: Backend, E: From<S::E> + From<S2::E> + From<anyhow::Error> + std::fmt::Debug>(
    ctx: &mut Ctx,
    j: Join,
    a: &RadixTree<S>,
    am: &Model,
    b: &RadixTree<S2>,
    bm: &Model,
    mode: usize,
) -> R<Inst<Detached>> {
    let calls = RefCell::new(Vec::new());
    let s = RadixTree::store(a).clone();
    let s2 = RadixTree::store(b).clone();
    let f = |x: &ValueRef<S>, y: &ValueRef<S2>| -> Result<Option<Value>, E> {
        hook::<E>(false)?;
        let av = vr(x, &s)?;
        let bv = vr(y, &s2)?;
        let r = comb(mode, &av, &bv).map(|v| mkval(&v));
        calls.borrow_mut().push((av, bv));
        hook::<E>(true)?;
        Ok(r)
    };
    let (m, want) = join_model(j, am, bm, mode);
    if !want.is_empty() {
        ctx.stat("ev.combiner_calls", want.len() as u64);
    }
    let t = match j {
        Join::Outer => a.try_outer_combine(b, &f),
        Join::Inner => a.try_inner_combine(b, &f),
        Join::Left => a.try_left_combine(b, &f),
    }
    .map_err(es("combine"))?;
    check_calls("combine", calls.into_inner(), &want)?;
    Ok(Inst { t, m })
}

/// predicate forms
pub fn join_pred<S: Backend, S2: Backend, E: From<S::E> + From<S2::E> + From<anyhow::Error> + std::fmt::Debug>(ctx: &mut Ctx, j: Join, a: &RadixTree<S>, am: &Model, b: &RadixTree<S2>, bm: &Model, mode: u64) -> R {
    let s = RadixTree::store(a).clone();
    let s2 = RadixTree::store(b).clone();
    let pred = |av: &[u8], bv: &[u8]| match mode {
        0 => false,
        1 => true,
        2 => av == bv,
        3 => av != bv,
        n => (fnv(av) ^ fnv(bv)) % n == 0,
    };
    let calls = RefCell::new(Vec::new());
    let trues = Cell::new(0u32);
    let after = Cell::new(false);
    let f = |x: &ValueRef<S>, y: &ValueRef<S2>| -> Result<bool, E> {
        hook::<E>(false)?;
        let av = vr(x, &s)?;
        let bv = vr(y, &s2)?;
        if trues.get() > 0 {
            after.set(true);
        }
        let r = pred(&av, &bv);
        if r {
            trues.set(trues.get() + 1);
        }
        calls.borrow_mut().push((av, bv));
        hook::<E>(true)?;
        Ok(r)
    };
    let mut want: Vec<_> = am.iter().filter_map(|(k, v)| bm.get(k).map(|w| (v.clone(), w.clone()))).collect();
    want.sort();
    let any = want.iter().any(|(x, y)| pred(x, y));
    let (got, exp) = match j {
        Join::Left => (
            a.try_left_combine_pred(b, &f).map_err(es("left_combine_pred"))?,
            any || am.keys().any(|k| !bm.contains_key(k)),
        ),
        _ => (a.try_inner_combine_pred(b, &f).map_err(es("inner_combine_pred"))?, any),
    };
    ctx.stat("ev.pred", 1);
    ctx.stat(if exp { "ev.pred_true" } else { "ev.pred_false" }, 1);
    ensure!(got == exp, "{:?} predicate combine is {} instead of {} (mode {})", j, got, exp, mode);
    ensure!(!after.get(), "{:?} predicate called again after it returned true", j);
    let mut got_calls = calls.into_inner();
    got_calls.sort();
    if !got {
        check_calls("combine_pred (false)", got_calls, &want)?;
    } else {
        // sub-multiset
        let mut w = want.iter().peekable();
        for c in &got_calls {
            loop {
                match w.next() {
                    Some(x) if x == c => break,
                    Some(x) if x < c => continue,
                    _ => fail!("combine_pred: unexpected or repeated call with ({}, {})", hex(&c.0), hex(&c.1)),
                }
            }
        }
    }
    Ok(())
}

/// retain_prefix_with / remove_prefix_with
pub fn prefix_set<S: Backend, S2: Backend>(ctx: &mut Ctx, retain: bool, a: &mut Inst<S>, b: &RadixTree<S2>, bm: &Model, mode: u64) -> R
where
    S::E: From<S2::E>,
{
    let s2 = RadixTree::store(b).clone();
    let pred = |bv: &[u8]| match mode {
        0 => true,
        1 => false,
        n => fnv(bv) % n == 0,
    };
    let calls = RefCell::new(Vec::new());
    let f = |y: &ValueRef<S2>| -> Result<bool, S::E> {
        hook::<S::E>(false)?;
        let bv = vr(y, &s2)?;
        let r = pred(&bv);
        calls.borrow_mut().push(bv);
        hook::<S::E>(true)?;
        Ok(r)
    };
    let sel: Vec<&Vec<u8>> = bm.iter().filter(|(_, v)| pred(v)).map(|x| x.0).collect();
    let mut m = a.m.clone();
    m.retain(|k, _| sel.iter().any(|p| k.starts_with(p)) == retain);
    if retain {
        a.t.try_retain_prefix_with(b, &f).map_err(es("retain_prefix_with"))?;
    } else {
        a.t.try_remove_prefix_with(b, &f).map_err(es("remove_prefix_with"))?;
    }
    if m.len() != a.m.len() && !m.is_empty() {
        ctx.stat("ev.prefix_set_partial", 1);
    }
    a.m = m;
    for c in calls.into_inner() {
        ensure!(bm.values().any(|v| *v == c), "predicate called with {} which is not a value of the prefix tree", hex(&c));
    }
    Ok(())
}

/// group_by with a descend decision that is a pure function of the path
pub fn group_by<S: Backend>(ctx: &mut Ctx, t: &RadixTree<S>, m: &Model, mode: u64, cut: usize) -> R<Vec<Inst<S>>> {
    let out: Vec<_> = t
        .try_group_by(|path, _node| {
            hook::<S::E>(true)?;
            Ok(match mode {
                0 => path.len() < cut,
                1 => false,
                2 => true,
                n => fnv(path) % n != 0,
            })
        })
        .take(m.len() + 2)
        .collect();
    ctx.stat("ev.group_by", 1);
    ctx.stat("ev.groups", out.len() as u64);
    let descend = |path: &[u8]| match mode {
        0 => path.len() < cut,
        1 => false,
        2 => true,
        n => fnv(path) % n != 0,
    };
    // the expected groups: walk the radix structure of the model
    let mut groups: Vec<Model> = Vec::new();
    fn walk(m: &Model, at: Vec<u8>, descend: &dyn Fn(&[u8]) -> bool, out: &mut Vec<Model>) {
        let sub: Model = scan(m, &at).map(|(k, v)| (k.clone(), v.clone())).collect();
        if sub.is_empty() {
            return;
        }
        let node = lcp(&sub);
        if !descend(&node) {
            out.push(sub);
            return;
        }
        if let Some(v) = sub.get(&node) {
            out.push([(node.clone(), v.clone())].into_iter().collect());
        }
        let mut firsts: Vec<u8> = sub.keys().filter(|k| k.len() > node.len()).map(|k| k[node.len()]).collect();
        firsts.dedup();
        for c in firsts {
            let mut n = node.clone();
            n.push(c);
            walk(&sub, n, descend, out);
        }
    }
    walk(m, Vec::new(), &descend, &mut groups);
    let mut res = Vec::new();
    for r in out {
        let t = r.map_err(es("group_by"))?;
        if t.is_empty() && m.is_empty() {
            // an empty tree may be reported as one empty group
            continue;
        }
        ensure!(res.len() < groups.len(), "group_by yields more than the expected {} groups", groups.len());
        let m = std::mem::take(&mut groups[res.len()]);
        verify(ctx, "group_by group", &t, &m)?;
        res.push(Inst { t, m });
    }
    ensure!(res.len() == groups.len(), "group_by yields {} groups instead of {}", res.len(), groups.len());
    Ok(res)
}

/// in place combine of an attached tree with a tree in another store
pub fn foreign_with<S: Backend>(ctx: &mut Ctx, j: Join, a: &mut Inst<S>, f: &RadixTree<DynBlobStore>, fm: &Model, mode: usize) -> R {
    join_with::<S, DynBlobStore, _>(ctx, j, a, f, fm, mode, DetachConverter, None)
}

pub fn foreign_set<S: Backend>(ctx: &mut Ctx, retain: bool, a: &mut Inst<S>, f: &RadixTree<DynBlobStore>, fm: &Model, mode: u64) -> R {
    prefix_set(ctx, retain, a, f, fm, mode)
}

/// the infallible methods of detached trees
pub fn wrappers(ctx: &mut Ctx, g: &KeyGen, a: &mut Inst<Detached>, b: &Inst<Detached>, max: usize) -> R {
    let n = ctx.rng.range(1, 6);
    for _ in 0..n {
        let k = g.query(&mut ctx.rng, &a.m);
        let mode = ctx.rng.below(8);
        let what = ctx.rng.below(19);
        ctx.stat("ev.infallible_calls", 1);
        ctx.note(|| format!("   method {} key {} mode {}", what, hex(&k), mode));
        let vals = |x: &ValueRef| x.data().map(|x| x.to_vec()).unwrap_or_default();
        let f = |x: &ValueRef, y: &ValueRef| comb(mode, &vals(x), &vals(y)).map(|v| mkval(&v));
        let fw = |x: &mut Value, y: &ValueRef| {
            let r = comb(mode, x.as_ref(), &vals(y));
            setval(x, r.as_deref());
        };
        let pred = |x: &ValueRef, y: &ValueRef| (fnv(&vals(x)) ^ fnv(&vals(y))) % 3 == 0;
        let mpred = |x: &Vec<u8>, y: &Vec<u8>| (fnv(x) ^ fnv(y)) % 3 == 0;
        let mut_b = a.m.len() + b.m.len() <= max;
        match what {
            0 if a.m.len() < max => {
                let v = value(ctx);
                a.t.insert(&k, &v);
                a.m.insert(k, v);
            }
            1 => {
                a.t.remove(&k);
                a.m.remove(&k);
            }
            2 => {
                a.t.remove_prefix(&k);
                a.m.retain(|x, _| !x.starts_with(&k));
            }
            3 => {
                let got = a.t.get(&k).map(|v| v.to_vec());
                ensure!(got.as_ref() == a.m.get(&k), "get({}) is {:?} instead of {:?}", hex(&k), got.map(|x| hex(&x)), a.m.get(&k).map(|x| hex(x)));
                ensure!(a.t.contains_key(&k) == a.m.contains_key(&k), "contains_key({}) is wrong", hex(&k));
                ensure!(a.t.has_prefix(&k) == (scan(&a.m, &k).count() > 0), "has_prefix({}) is wrong", hex(&k));
            }
            4 => {
                let got: Vec<(Vec<u8>, Vec<u8>)> = a.t.iter().take(a.m.len() + 1).map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
                let exp: Vec<_> = a.m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                ensure!(got == exp, "iter() yields {} entries, different from the expected {}", got.len(), exp.len());
                let got: Vec<Vec<u8>> = a.t.values().take(a.m.len() + 1).map(|v| v.to_vec()).collect();
                let exp: Vec<_> = a.m.values().cloned().collect();
                ensure!(got == exp, "values() yields {} entries, different from the expected {}", got.len(), exp.len());
            }
            5 => {
                let got: Vec<(Vec<u8>, Vec<u8>)> = a.t.scan_prefix(&k).take(a.m.len() + 1).map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
                let exp: Vec<_> = scan(&a.m, &k).map(|(k, v)| (k.clone(), v.clone())).collect();
                ensure!(got == exp, "scan_prefix({}) yields {} entries, different from the expected {}", hex(&k), got.len(), exp.len());
            }
            6 => {
                let cut = k.len();
                let mut n = 0;
                let mut all = Model::new();
                for t in a.t.group_by(|p, _| p.len() < cut).take(a.m.len() + 2) {
                    n += 1;
                    for (k, v) in t.iter() {
                        ensure!(all.insert(k.to_vec(), v.to_vec()).is_none(), "group_by: key {} is in two groups", hex(&k));
                    }
                }
                ensure!(all == a.m, "group_by: {} groups do not partition the content", n);
            }
            7..=9 => {
                let j = JOINS[what - 7];
                let t = match j {
                    Join::Outer => a.t.outer_combine(&b.t, f),
                    Join::Inner => a.t.inner_combine(&b.t, f),
                    Join::Left => a.t.left_combine(&b.t, f),
                };
                let (m, _) = join_model(j, &a.m, &b.m, mode);
                verify(ctx, "combine result", &t, &m)?;
            }
            10..=12 if mut_b => {
                let j = JOINS[what - 10];
                match j {
                    Join::Outer => a.t.outer_combine_with(&b.t, fw),
                    Join::Inner => a.t.inner_combine_with(&b.t, fw),
                    Join::Left => a.t.left_combine_with(&b.t, fw),
                };
                a.m = join_model(j, &a.m, &b.m, mode).0;
            }
            13 => {
                let got = a.t.inner_combine_pred(&b.t, pred);
                let exp = a.m.iter().any(|(k, v)| b.m.get(k).map(|w| mpred(v, w)).unwrap_or(false));
                ensure!(got == exp, "inner_combine_pred is {}", got);
                let got = a.t.left_combine_pred(&b.t, pred);
                let exp = a.m.iter().any(|(k, v)| b.m.get(k).map(|w| mpred(v, w)).unwrap_or(true));
                ensure!(got == exp, "left_combine_pred is {}", got);
            }
            14 => {
                let first = a.m.iter().next().map(|(k, v)| (k.clone(), v.clone()));
                let last = a.m.iter().next_back().map(|(k, v)| (k.clone(), v.clone()));
                ensure!(a.t.first_value().map(|v| v.to_vec()) == first.clone().map(|x| x.1), "first_value is wrong");
                ensure!(a.t.last_value().map(|v| v.to_vec()) == last.clone().map(|x| x.1), "last_value is wrong");
                ensure!(a.t.first_entry(vec![]).map(|(k, v)| (k, v.to_vec())) == first, "first_entry is wrong");
                ensure!(a.t.last_entry(vec![]).map(|(k, v)| (k, v.to_vec())) == last, "last_entry is wrong");
            }
            15 => {
                let sub = g.key(&mut ctx.rng);
                let t = a.t.filter_prefix(&k, &sub);
                verify(ctx, "filter_prefix result", &t, &filter_model(&a.m, &k, &sub))?;
            }
            16 | 17 => {
                let sel = |x: &[u8]| mode == 0 || fnv(x) % (mode as u64 + 1) == 0;
                let ps: Vec<&Vec<u8>> = b.m.iter().filter(|(_, v)| sel(v)).map(|x| x.0).collect();
                if what == 16 {
                    a.t.retain_prefix_with(&b.t, |v: &ValueRef| sel(&vals(v)));
                    a.m.retain(|k, _| ps.iter().any(|p| k.starts_with(p)));
                } else {
                    a.t.remove_prefix_with(&b.t, |v: &ValueRef| sel(&vals(v)));
                    a.m.retain(|k, _| !ps.iter().any(|p| k.starts_with(p)));
                }
            }
            _ => {
                let v = value(ctx);
                let t = RadixTree::single(&k, &v);
                let m: Model = [(k.clone(), v.clone())].into_iter().collect();
                verify(ctx, "single", &t, &m)?;
                verify_root_prefix("single", &t, &m)?;
                let t = radixdb::radixtree! { k => v, "x".as_bytes() => "" };
                let mut m = m;
                m.insert(b"x".to_vec(), Vec::new());
                verify(ctx, "radixtree!", &t, &m)?;
                let t = RadixTree::leaf(&v);
                let m: Model = [(Vec::new(), v)].into_iter().collect();
                verify(ctx, "leaf", &t, &m)?;
            }
        }
        verify(ctx, "after infallible operation", &a.t, &a.m)?;
        verify_shape(ctx, "after infallible operation", &a.t, &a.m)?;
        verify(ctx, "operand of infallible operation", &b.t, &b.m)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- the world

pub enum Held<S: Backend> {
    Kv(KeyValueIter<S>, S, std::vec::IntoIter<(Vec<u8>, Vec<u8>)>),
    Vals(ValueIter<S>, S, std::vec::IntoIter<Vec<u8>>),
    Key(IterKey, Vec<u8>),
    Blob(radixdb::store::Blob<'static>, Vec<u8>),
    Val(Value<S>, S, Vec<u8>),
}

impl<S: Backend> Held<S> {
    /// advance by at most n; true when finished
    pub fn step(&mut self, ctx: &mut Ctx, n: usize) -> R<bool> {
        ctx.stat("ev.held_checked", 1);
        match self {
            Held::Kv(it, s, exp) => {
                for _ in 0..n {
                    match (it.next(), exp.next()) {
                        (None, None) => return Ok(true),
                        (Some(r), Some((ek, ev))) => {
                            let (k, v) = r.map_err(es("held iterator"))?;
                            ensure!(k.as_ref() == &ek[..], "held iterator yields key {} instead of {}", hex(&k), hex(&ek));
                            let v = loadval(&v, s)?;
                            ensure!(v == ev, "held iterator yields value {} instead of {}", hex(&v), hex(&ev));
                        }
                        (g, e) => fail!("held iterator: ended={} but should be ended={}", g.is_none(), e.is_none()),
                    }
                }
                Ok(false)
            }
            Held::Vals(it, s, exp) => {
                for _ in 0..n {
                    match (it.next(), exp.next()) {
                        (None, None) => return Ok(true),
                        (Some(r), Some(ev)) => {
                            let v = loadval(&r.map_err(es("held values iterator"))?, s)?;
                            ensure!(v == ev, "held values iterator yields {} instead of {}", hex(&v), hex(&ev));
                        }
                        (g, e) => fail!("held values iterator: ended={} but should be ended={}", g.is_none(), e.is_none()),
                    }
                }
                Ok(false)
            }
            Held::Key(k, e) => {
                ensure!(k.as_ref() == &e[..], "held key changed to {} from {}", hex(k), hex(e));
                Ok(false)
            }
            Held::Blob(k, e) => {
                ensure!(&k[..] == &e[..], "held blob changed to {} from {}", hex(k), hex(e));
                Ok(false)
            }
            Held::Val(v, s, e) => {
                let g = loadval(v, s)?;
                ensure!(g == *e, "held value changed to {} from {}", hex(&g), hex(e));
                Ok(false)
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Insert,
    InsertMany,
    Fan,
    Remove,
    RemoveSame,
    RemovePrefix,
    Get,
    Prefix,
    Extremes,
    GroupBy,
    Filter,
    CloneInst,
    DropInst,
    Fresh,
    JoinWithDet,
    JoinWithInst,
    JoinNew,
    JoinPred,
    Retain,
    RemoveSet,
    Hold,
    StepHeld,
    DropHeld,
    Eq,
    Detach,
    Attach,
    Reattach,
    Reload,
    OldRoot,
    RemoveAll,
    Shape,
    SelfOp,
    JoinForeign,
    Wrappers,
}

pub struct World<S: Backend> {
    pub store: S,
    pub insts: Vec<Inst<S>>,
    pub dets: Vec<Inst<Detached>>,
    pub held: Vec<Held<S>>,
    pub held_d: Vec<Held<Detached>>,
    pub roots: Vec<(Vec<u8>, Model)>,
    pub g: KeyGen,
    pub max_entries: usize,
    /// how often (1 in n) the full content is verified after a mutation
    pub verify_every: usize,
}

pub fn hold<S: Backend>(ctx: &mut Ctx, g: &KeyGen, i: &Inst<S>) -> R<Option<Held<S>>> {
    let s = RadixTree::store(&i.t).clone();
    let all = |m: &Model| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>().into_iter();
    Ok(Some(match ctx.rng.below(6) {
        0 | 1 => Held::Kv(i.t.try_iter(), s, all(&i.m)),
        2 => {
            let p = g.query(&mut ctx.rng, &i.m);
            let e: Vec<_> = scan(&i.m, &p).map(|(k, v)| (k.clone(), v.clone())).collect();
            Held::Kv(i.t.try_scan_prefix(&p).map_err(es("scan_prefix"))?, s, e.into_iter())
        }
        3 => Held::Vals(i.t.try_values(), s, i.m.values().cloned().collect::<Vec<_>>().into_iter()),
        4 => {
            if i.m.is_empty() {
                return Ok(None);
            }
            let n = ctx.rng.below(i.m.len().min(20));
            let mut it = i.t.try_iter();
            let (k, v) = match it.nth(n) {
                Some(r) => r.map_err(es("iter"))?,
                None => fail!("iteration ends before entry {} of {}", n, i.m.len()),
            };
            let (ek, ev) = i.m.iter().nth(n).unwrap();
            if ctx.rng.chance(1, 3) {
                Held::Blob(k.to_owned_blob(), ek.clone())
            } else if ctx.rng.chance(1, 2) {
                // keep the key while the iterator it came from moves on
                let _ = it.nth(2);
                Held::Key(k, ek.clone())
            } else {
                Held::Val(v, s, ev.clone())
            }
        }
        _ => {
            if i.m.is_empty() {
                return Ok(None);
            }
            let k = pick_key(&mut ctx.rng, &i.m);
            match i.t.try_get(&k).map_err(es("get"))? {
                Some(v) => Held::Val(v, s, i.m[&k].clone()),
                None => fail!("get({}) is None for a present key", hex(&k)),
            }
        }
    }))
}

impl<S: Backend> World<S> {
    pub fn new(ctx: &mut Ctx, store: S) -> Self {
        let g = KeyGen::new(&mut ctx.rng);
        Self::with_gen(ctx, store, g)
    }
    pub fn with_gen(ctx: &mut Ctx, store: S, g: KeyGen) -> Self {
        ctx.note(|| format!("key profile {}", PROFILES[g.profile]));
        ctx.stat(PROFILE_STATS[g.profile], 1);
        let max_entries = if ctx.small { 12 } else { 600 };
        let g = if ctx.small { g.mini() } else { g };
        World {
            insts: vec![Inst {
                t: RadixTree::<S>::empty(store.clone()),
                m: Model::new(),
            }],
            dets: Vec::new(),
            held: Vec::new(),
            held_d: Vec::new(),
            roots: Vec::new(),
            store,
            g,
            max_entries,
            verify_every: 4,
        }
    }

    fn det(&mut self, ctx: &mut Ctx) -> usize {
        if self.dets.is_empty() || ctx.rng.chance(1, 3) {
            let base = self.insts[ctx.rng.below(self.insts.len())].m.clone();
            let n = match ctx.rng.below(8) {
                0 => 0,
                1..=3 => ctx.rng.range(1, 3),
                4..=6 => ctx.rng.range(3, 12),
                _ => {
                    if ctx.small {
                        3
                    } else {
                        ctx.rng.range(12, 60)
                    }
                }
            };
            let g = self.g.clone();
            let m = related(ctx, &g, &base, n);
            let t = build(&m, ctx);
            ctx.note(|| format!("  detached operand {}", show(&m)));
            self.push_det(ctx, Inst { t, m });
            return self.dets.len() - 1;
        }
        ctx.rng.below(self.dets.len())
    }

    fn push_det(&mut self, ctx: &mut Ctx, i: Inst<Detached>) {
        if self.dets.len() >= 4 {
            let k = ctx.rng.below(self.dets.len());
            self.dets.swap_remove(k);
        }
        self.dets.push(i);
    }
    fn push_inst(&mut self, ctx: &mut Ctx, i: Inst<S>) {
        if self.insts.len() >= 4 {
            let k = ctx.rng.below(self.insts.len());
            self.insts.swap_remove(k);
        }
        self.insts.push(i);
    }

    fn after(&mut self, ctx: &mut Ctx, i: usize, what: &'static str, full: bool) -> R {
        let inst = &self.insts[i];
        if full || ctx.rng.chance(1, self.verify_every) || inst.m.len() < 6 {
            verify(ctx, what, &inst.t, &inst.m)?;
            verify_shape(ctx, what, &inst.t, &inst.m)?;
        } else {
            let k = self.g.query(&mut ctx.rng, &inst.m);
            verify_get(ctx, &inst.t, &inst.m, &k)?;
        }
        ctx.max("max.entries", self.insts[i].m.len() as u64);
        Ok(())
    }

    pub fn step(&mut self, ctx: &mut Ctx, weights: &[(Op, u32)]) -> R {
        let w: Vec<u32> = weights.iter().map(|x| x.1).collect();
        let op = weights[ctx.rng.weighted(&w)].0;
        self.apply(ctx, op)
    }

    pub fn apply(&mut self, ctx: &mut Ctx, op: Op) -> R {
        let i = ctx.rng.below(self.insts.len());
        match op {
            Op::Insert => {
                if self.insts[i].m.len() >= self.max_entries {
                    return Ok(());
                }
                let k = if ctx.rng.chance(1, 2) { self.g.key(&mut ctx.rng) } else { self.g.query(&mut ctx.rng, &self.insts[i].m) };
                let v = value(ctx);
                ctx.op("op.insert", &k, || format!("-> #{} value {}", i, hex(&v)));
                let inst = &mut self.insts[i];
                inst.t.try_insert(&k, &v).map_err(es("insert"))?;
                inst.m.insert(k.clone(), v);
                let inst = &self.insts[i];
                verify_get(ctx, &inst.t, &inst.m, &k)?;
                self.after(ctx, i, "after insert", false)
            }
            Op::InsertMany => {
                let n = if ctx.small { ctx.rng.range(1, 4) } else { ctx.rng.range(1, 40) };
                ctx.op("op.insert_many", &[], || format!("#{} n={}", i, n));
                for _ in 0..n {
                    if self.insts[i].m.len() >= self.max_entries {
                        break;
                    }
                    let k = self.g.key(&mut ctx.rng);
                    let v = value(ctx);
                    ctx.note(|| format!("   {} => {}", hex(&k), hex(&v)));
                    let inst = &mut self.insts[i];
                    inst.t.try_insert(&k, &v).map_err(es("insert"))?;
                    inst.m.insert(k, v);
                }
                self.after(ctx, i, "after inserts", true)
            }
            Op::Fan => {
                // a node with (nearly) all 256 children
                if ctx.small || self.insts[i].m.len() + 256 > self.max_entries {
                    return Ok(());
                }
                let base = self.g.query(&mut ctx.rng, &self.insts[i].m);
                let skip = match ctx.rng.below(3) {
                    0 => None,
                    1 => Some(*ctx.rng.pick(&[0u8, 255, 127, 128])),
                    _ => Some(ctx.rng.byte()),
                };
                let deep = ctx.rng.chance(1, 3);
                let vlen = *ctx.rng.pick(&[0usize, 1, 1, 9, 127, 128]);
                ctx.op("op.fan", &base, || format!("#{} skip {:?} deep {} vlen {}", i, skip, deep, vlen));
                for c in 0..=255u8 {
                    if Some(c) == skip {
                        continue;
                    }
                    let mut k = base.clone();
                    k.push(c);
                    if deep && c % 5 == 0 {
                        k.push(c);
                    }
                    let v = vec![c; vlen];
                    let inst = &mut self.insts[i];
                    inst.t.try_insert(&k, &v).map_err(es("insert"))?;
                    inst.m.insert(k, v);
                }
                self.after(ctx, i, "after fan", true)?;
                // lookups of every child
                let inst = &self.insts[i];
                for c in [0u8, 1, 2, 127, 128, 129, 253, 254, 255] {
                    let mut k = base.clone();
                    k.push(c);
                    verify_get(ctx, &inst.t, &inst.m, &k)?;
                }
                Ok(())
            }
            Op::Remove | Op::RemoveSame => {
                let k = if op == Op::RemoveSame && !self.insts[i].m.is_empty() {
                    pick_key(&mut ctx.rng, &self.insts[i].m)
                } else {
                    self.g.query(&mut ctx.rng, &self.insts[i].m)
                };
                let inst = &mut self.insts[i];
                let present = inst.m.contains_key(&k);
                ctx.op(if present { "op.remove" } else { "op.remove_absent" }, &k, || format!("#{}", i));
                inst.t.try_remove(&k).map_err(es("remove"))?;
                inst.m.remove(&k);
                let inst = &self.insts[i];
                verify_get(ctx, &inst.t, &inst.m, &k)?;
                self.after(ctx, i, "after remove", false)
            }
            Op::RemoveAll => {
                ctx.op("op.remove_all", &[], || format!("#{}", i));
                let mut keys: Vec<_> = self.insts[i].m.keys().cloned().collect();
                if ctx.rng.chance(1, 2) {
                    keys.reverse();
                }
                keys.truncate(60);
                for k in keys {
                    let inst = &mut self.insts[i];
                    inst.t.try_remove(&k).map_err(es("remove"))?;
                    inst.m.remove(&k);
                    if ctx.rng.chance(1, 8) {
                        self.after(ctx, i, "while removing all", false)?;
                    }
                }
                self.after(ctx, i, "after removing all", true)
            }
            Op::RemovePrefix => {
                let p = self.g.query(&mut ctx.rng, &self.insts[i].m);
                let inst = &mut self.insts[i];
                let n = scan(&inst.m, &p).count();
                ctx.op(if n > 0 { "op.remove_prefix" } else { "op.remove_prefix_absent" }, &p, || format!("#{}", i));
                inst.t.try_remove_prefix(&p).map_err(es("remove_prefix"))?;
                inst.m.retain(|k, _| !k.starts_with(&p));
                self.after(ctx, i, "after remove_prefix", true)
            }
            Op::Get => {
                let k = self.g.query(&mut ctx.rng, &self.insts[i].m);
                ctx.op("op.get", &k, || format!("#{}", i));
                let inst = &self.insts[i];
                verify_get(ctx, &inst.t, &inst.m, &k)
            }
            Op::Prefix => {
                let k = self.g.query(&mut ctx.rng, &self.insts[i].m);
                ctx.op("op.prefix_query", &k, || format!("#{}", i));
                let inst = &self.insts[i];
                ctx.stat(classify_prefix(&inst.m, &k), 1);
                verify_prefix(ctx, &inst.t, &inst.m, &k)
            }
            Op::Extremes => {
                ctx.op("op.extremes", &[], || format!("#{}", i));
                let inst = &self.insts[i];
                verify_extremes(ctx, &inst.t, &inst.m)
            }
            Op::GroupBy => {
                let mode = *ctx.rng.pick(&[0u64, 0, 0, 1, 2, 3, 4]);
                let cut = ctx.rng.range(0, 10);
                ctx.op("op.group_by", &[mode as u8, cut as u8], || format!("#{}", i));
                let inst = &self.insts[i];
                let mut gs = group_by(ctx, &inst.t, &inst.m, mode, cut)?;
                if !gs.is_empty() && ctx.rng.chance(1, 2) {
                    let k = ctx.rng.below(gs.len());
                    let x = gs.swap_remove(k);
                    self.push_inst(ctx, x);
                }
                Ok(())
            }
            Op::Filter => {
                let p = self.g.query(&mut ctx.rng, &self.insts[i].m);
                let sub = match ctx.rng.below(4) {
                    0 => Vec::new(),
                    1 => p.clone(),
                    2 => b"x".to_vec(),
                    _ => self.g.key(&mut ctx.rng),
                };
                ctx.op("op.filter_prefix", &p, || format!("#{} sub {}", i, hex(&sub)));
                let inst = &self.insts[i];
                ctx.stat(classify_prefix(&inst.m, &p), 1);
                let t = inst.t.try_filter_prefix(&p, &sub).map_err(es("filter_prefix"))?;
                let m = filter_model(&inst.m, &p, &sub);
                verify(ctx, "filter_prefix result", &t, &m)?;
                verify_shape(ctx, "filter_prefix result", &t, &m)?;
                if ctx.rng.chance(1, 2) {
                    self.push_inst(ctx, Inst { t, m });
                }
                Ok(())
            }
            Op::CloneInst => {
                ctx.op("op.clone", &[], || format!("#{}", i));
                let inst = &self.insts[i];
                let c = Inst {
                    t: inst.t.clone(),
                    m: inst.m.clone(),
                };
                self.push_inst(ctx, c);
                Ok(())
            }
            Op::DropInst => {
                ctx.op("op.drop", &[], || format!("#{}", i));
                if self.insts.len() > 1 {
                    self.insts.swap_remove(i);
                }
                Ok(())
            }
            Op::Fresh => {
                ctx.op("op.fresh", &[], || String::new());
                let t = RadixTree::<S>::empty(self.store.clone());
                self.push_inst(ctx, Inst { t, m: Model::new() });
                Ok(())
            }
            Op::JoinWithDet => {
                let d = self.det(ctx);
                let j = *ctx.rng.pick(&JOINS);
                let mode = ctx.rng.below(8);
                let conv = ctx.rng.below(2);
                let i = ctx.rng.below(self.insts.len());
                ctx.op("op.join_with_detached", &[j as u8, mode as u8], || format!("#{} {:?} with det #{}", i, j, d));
                let det = &self.dets[d];
                let a = &mut self.insts[i];
                if a.m.len() + det.m.len() > self.max_entries {
                    return Ok(());
                }
                // via the converters: a detached operand can be used with any tree
                if conv == 0 {
                    join_with(ctx, j, a, &det.t, &det.m, mode, DowncastConverter, take_det())?;
                } else {
                    join_with(ctx, j, a, &det.t, &det.m, mode, DetachConverter, take_det())?;
                }
                self.after(ctx, i, "after combine_with", true)?;
                let det = &self.dets[d];
                if ctx.rng.chance(1, 4) {
                    verify(ctx, "operand after combine_with", &det.t, &det.m)?;
                }
                Ok(())
            }
            Op::JoinWithInst => {
                let k = ctx.rng.below(self.insts.len());
                let j = *ctx.rng.pick(&JOINS);
                let mode = ctx.rng.below(8);
                let conv = ctx.rng.below(2);
                ctx.op("op.join_with_same_store", &[j as u8, mode as u8], || format!("#{} {:?} with #{}", i, j, k));
                let (t, m) = (self.insts[k].t.clone(), self.insts[k].m.clone());
                if self.insts[i].m.len() + m.len() > self.max_entries {
                    return Ok(());
                }
                let a = &mut self.insts[i];
                if conv == 0 {
                    join_with(ctx, j, a, &t, &m, mode, IdentityConverter, take_same())?;
                } else {
                    join_with(ctx, j, a, &t, &m, mode, DetachConverter, take_same())?;
                }
                self.after(ctx, i, "after combine_with", true)?;
                if ctx.rng.chance(1, 4) {
                    verify(ctx, "operand after combine_with", &t, &m)?;
                }
                Ok(())
            }
            Op::SelfOp => {
                // a tree combined with itself, a filtered part of itself, or an old version of itself
                let j = *ctx.rng.pick(&JOINS);
                let mode = ctx.rng.below(8);
                let p = self.g.query(&mut ctx.rng, &self.insts[i].m);
                ctx.op("op.join_with_part_of_self", &p, || format!("#{} {:?} mode {}", i, j, mode));
                let a = &mut self.insts[i];
                let t = a.t.try_filter_prefix(&p, &p).map_err(es("filter_prefix"))?;
                let m = filter_model(&a.m, &p, &p);
                join_with(ctx, j, a, &t, &m, mode, IdentityConverter, take_same())?;
                self.after(ctx, i, "after combine_with part of itself", true)?;
                verify(ctx, "operand after combine_with", &t, &m)
            }
            Op::JoinForeign => {
                // an operand attached to a different store
                let d = self.det(ctx);
                let other: DynBlobStore = if ctx.rng.chance(1, 3) {
                    std::sync::Arc::new(radixdb::store::MemStore::default())
                } else {
                    crate::vstore::VStore::random(&mut ctx.rng).dynamic()
                };
                let i = ctx.rng.below(self.insts.len());
                let mut f = self.dets[d].t.try_attached(other.clone()).map_err(es("attached"))?;
                let fm = self.dets[d].m.clone();
                let reload = ctx.rng.chance(2, 3);
                if reload {
                    let id = f.try_reattach().map_err(es("reattach"))?;
                    f = RadixTree::try_load(other, Some(&id)).map_err(es("load"))?;
                }
                let j = *ctx.rng.pick(&JOINS);
                let mode = ctx.rng.below(8);
                let kind = ctx.rng.below(5);
                ctx.op("op.foreign_operand", &[j as u8, mode as u8, kind as u8], || format!("#{} {:?} det #{} in another store, reloaded {}", i, j, d, reload));
                match kind {
                    0 if S::ATTACHED => {
                        if self.insts[i].m.len() + fm.len() > self.max_entries {
                            return Ok(());
                        }
                        foreign_with(ctx, j, &mut self.insts[i], &f, &fm, mode)?;
                        self.after(ctx, i, "after combine_with foreign", true)?;
                    }
                    1 if S::ATTACHED => {
                        let retain = ctx.rng.chance(1, 2);
                        foreign_set(ctx, retain, &mut self.insts[i], &f, &fm, mode as u64)?;
                        self.after(ctx, i, "after prefix set op with foreign", true)?;
                    }
                    2 => {
                        let a = &self.insts[i];
                        join_pred::<_, _, S::E>(ctx, j, &a.t, &a.m, &f, &fm, mode as u64)?;
                    }
                    3 => {
                        let a = &self.insts[i];
                        let r = join::<_, _, S::E>(ctx, j, &f, &fm, &a.t, &a.m, mode)?;
                        verify(ctx, "combine result (foreign left)", &r.t, &r.m)?;
                    }
                    _ => {
                        let a = &self.insts[i];
                        let r = join::<_, _, S::E>(ctx, j, &a.t, &a.m, &f, &fm, mode)?;
                        verify(ctx, "combine result (foreign right)", &r.t, &r.m)?;
                        verify_shape(ctx, "combine result", &r.t, &r.m)?;
                        if r.m.len() <= self.max_entries {
                            self.push_det(ctx, r);
                        }
                    }
                }
                verify(ctx, "foreign operand", &f, &fm)
            }
            Op::Wrappers => {
                let d = self.det(ctx);
                let e = self.det(ctx);
                let d = d.min(self.dets.len() - 1);
                ctx.op("op.infallible_api", &[], || format!("det #{} det #{}", d, e));
                let other = Inst {
                    t: self.dets[e].t.clone(),
                    m: self.dets[e].m.clone(),
                };
                let g = self.g.clone();
                let max = self.max_entries;
                wrappers(ctx, &g, &mut self.dets[d], &other, max)
            }
            Op::JoinNew => {
                let j = *ctx.rng.pick(&JOINS);
                let mode = ctx.rng.below(8);
                let r = match ctx.rng.below(3) {
                    0 => {
                        let d = self.det(ctx);
                        ctx.op("op.join_new", &[j as u8, mode as u8], || format!("#{} {:?} det #{}", i, j, d));
                        let (a, b) = (&self.insts[i.min(self.insts.len() - 1)], &self.dets[d]);
                        join::<_, _, S::E>(ctx, j, &a.t, &a.m, &b.t, &b.m, mode)?
                    }
                    1 => {
                        let d = self.det(ctx);
                        ctx.op("op.join_new", &[j as u8, mode as u8], || format!("det #{} {:?} #{}", d, j, i));
                        let (a, b) = (&self.dets[d], &self.insts[i.min(self.insts.len() - 1)]);
                        join::<_, _, S::E>(ctx, j, &a.t, &a.m, &b.t, &b.m, mode)?
                    }
                    _ => {
                        let k = ctx.rng.below(self.insts.len());
                        ctx.op("op.join_new", &[j as u8, mode as u8], || format!("#{} {:?} #{}", i, j, k));
                        let (a, b) = (&self.insts[i], &self.insts[k]);
                        join::<_, _, S::E>(ctx, j, &a.t, &a.m, &b.t, &b.m, mode)?
                    }
                };
                verify(ctx, "combine result", &r.t, &r.m)?;
                verify_shape(ctx, "combine result", &r.t, &r.m)?;
                verify_root_prefix("combine result", &r.t, &r.m)?;
                if r.m.len() <= self.max_entries {
                    self.push_det(ctx, r);
                }
                Ok(())
            }
            Op::JoinPred => {
                let j = if ctx.rng.chance(1, 2) { Join::Inner } else { Join::Left };
                let mode = *ctx.rng.pick(&[0u64, 0, 0, 1, 2, 3, 3, 4, 7]);
                if ctx.rng.chance(1, 2) {
                    let d = self.det(ctx);
                    let i = ctx.rng.below(self.insts.len());
                    let swap = ctx.rng.chance(1, 2);
                    ctx.op("op.join_pred", &[j as u8, mode as u8], || format!("#{} {:?} det #{} swap {}", i, j, d, swap));
                    let (a, b) = (&self.insts[i], &self.dets[d]);
                    if swap {
                        join_pred::<_, _, S::E>(ctx, j, &b.t, &b.m, &a.t, &a.m, mode)
                    } else {
                        join_pred::<_, _, S::E>(ctx, j, &a.t, &a.m, &b.t, &b.m, mode)
                    }
                } else {
                    let k = ctx.rng.below(self.insts.len());
                    ctx.op("op.join_pred", &[j as u8, mode as u8], || format!("#{} {:?} #{}", i, j, k));
                    let (a, b) = (&self.insts[i], &self.insts[k]);
                    join_pred::<_, _, S::E>(ctx, j, &a.t, &a.m, &b.t, &b.m, mode)
                }
            }
            Op::Retain | Op::RemoveSet => {
                let retain = op == Op::Retain;
                let mode = *ctx.rng.pick(&[0u64, 0, 0, 1, 2, 2, 3]);
                let name = if retain { "op.retain_prefix_with" } else { "op.remove_prefix_with" };
                if ctx.rng.chance(2, 3) {
                    let d = self.det(ctx);
                    let i = ctx.rng.below(self.insts.len());
                    ctx.op(name, &[mode as u8], || format!("#{} det #{}", i, d));
                    let det = &self.dets[d];
                    let a = &mut self.insts[i];
                    prefix_set(ctx, retain, a, &det.t, &det.m, mode)?;
                    self.after(ctx, i, name, true)
                } else {
                    let k = ctx.rng.below(self.insts.len());
                    ctx.op(name, &[mode as u8], || format!("#{} #{}", i, k));
                    let (t, m) = (self.insts[k].t.clone(), self.insts[k].m.clone());
                    let a = &mut self.insts[i];
                    prefix_set(ctx, retain, a, &t, &m, mode)?;
                    self.after(ctx, i, name, true)?;
                    verify(ctx, "prefix operand", &t, &m)
                }
            }
            Op::Hold => {
                ctx.op("op.hold", &[], || format!("#{}", i));
                if let Some(h) = hold(ctx, &self.g, &self.insts[i])? {
                    if self.held.len() >= 6 {
                        self.held.swap_remove(0);
                    }
                    self.held.push(h);
                }
                if !self.dets.is_empty() && ctx.rng.chance(1, 3) {
                    let d = ctx.rng.below(self.dets.len());
                    if let Some(h) = hold(ctx, &self.g, &self.dets[d])? {
                        if self.held_d.len() >= 4 {
                            self.held_d.swap_remove(0);
                        }
                        self.held_d.push(h);
                    }
                }
                Ok(())
            }
            Op::StepHeld => {
                ctx.op("op.step_held", &[], || String::new());
                let n = ctx.rng.range(1, 5);
                if !self.held.is_empty() {
                    let k = ctx.rng.below(self.held.len());
                    if self.held[k].step(ctx, n)? {
                        self.held.swap_remove(k);
                    }
                }
                if !self.held_d.is_empty() {
                    let k = ctx.rng.below(self.held_d.len());
                    if self.held_d[k].step(ctx, n)? {
                        self.held_d.swap_remove(k);
                    }
                }
                Ok(())
            }
            Op::DropHeld => {
                ctx.op("op.drop_held", &[], || String::new());
                if !self.held.is_empty() {
                    let k = ctx.rng.below(self.held.len());
                    self.held.swap_remove(k);
                }
                Ok(())
            }
            Op::Shape => {
                let inst = &self.insts[i];
                verify_shape(ctx, "shape", &inst.t, &inst.m)
            }
            Op::Eq => {
                // only meaningful for detached trees: bring everything to detached form
                let d = self.det(ctx);
                let i = ctx.rng.below(self.insts.len());
                ctx.op("op.eq", &[], || format!("#{} det #{}", i, d));
                let inst = &self.insts[i];
                let t = inst.t.try_detached().map_err(es("detached"))?;
                let det = &self.dets[d];
                check_eq(ctx, "eq", &t, &inst.m, &det.t, &det.m)?;
                let fresh = build(&inst.m, ctx);
                check_eq(ctx, "eq with freshly built", &t, &inst.m, &fresh, &inst.m)?;
                verify_root_prefix("detached", &t, &inst.m)?;
                // a close but different content
                if !inst.m.is_empty() {
                    let mut m2 = inst.m.clone();
                    let k = pick_key(&mut ctx.rng, &inst.m);
                    match ctx.rng.below(4) {
                        0 => {
                            m2.remove(&k);
                        }
                        1 => {
                            let v = m2.get_mut(&k).unwrap();
                            if v.is_empty() {
                                v.push(0)
                            } else {
                                v.pop();
                            }
                        }
                        2 => {
                            let mut k2 = k.clone();
                            k2.push(0);
                            m2.insert(k2, b"".to_vec());
                        }
                        _ => {
                            let n = ctx.rng.range(0, k.len());
                            m2.insert(k[..n].to_vec(), b"".to_vec());
                        }
                    }
                    let other = build(&m2, ctx);
                    check_eq(ctx, "eq with neighbour", &t, &inst.m, &other, &m2)?;
                }
                eq_relatives(ctx, &det.t, &det.m)
            }
            Op::Detach => {
                ctx.op("op.detach", &[], || format!("#{}", i));
                let inst = &self.insts[i];
                let t = inst.t.try_detached().map_err(es("detached"))?;
                let m = inst.m.clone();
                verify(ctx, "detached", &t, &m)?;
                verify_shape(ctx, "detached", &t, &m)?;
                self.push_det(ctx, Inst { t, m });
                Ok(())
            }
            Op::Attach => {
                if !S::ATTACHED {
                    return Ok(());
                }
                let d = self.det(ctx);
                ctx.op("op.attach", &[], || format!("det #{}", d));
                let det = &self.dets[d];
                let t = det.t.try_attached(self.store.clone()).map_err(es("attached"))?;
                let m = det.m.clone();
                verify(ctx, "attached", &t, &m)?;
                verify_shape(ctx, "attached", &t, &m)?;
                self.push_inst(ctx, Inst { t, m });
                Ok(())
            }
            Op::Reattach => {
                if !S::ATTACHED {
                    return Ok(());
                }
                ctx.op("op.reattach", &[], || format!("#{}", i));
                let inst = &mut self.insts[i];
                let id = inst.t.try_reattach().map_err(es("reattach"))?;
                let m = inst.m.clone();
                ctx.stat("ev.versions", 1);
                if self.roots.len() >= 40 {
                    let k = ctx.rng.below(self.roots.len());
                    self.roots.swap_remove(k);
                }
                self.roots.push((id, m));
                self.after(ctx, i, "after reattach", false)
            }
            Op::Reload => {
                if !S::ATTACHED {
                    return Ok(());
                }
                ctx.op("op.reload", &[], || format!("#{}", i));
                let inst = &mut self.insts[i];
                let id = inst.t.try_reattach().map_err(es("reattach"))?;
                inst.t = RadixTree::try_load(self.store.clone(), Some(&id)).map_err(es("load"))?;
                let m = inst.m.clone();
                self.roots.push((id, m));
                self.after(ctx, i, "after reload", true)
            }
            Op::OldRoot => {
                if self.roots.is_empty() {
                    return Ok(());
                }
                let k = ctx.rng.below(self.roots.len());
                ctx.op("op.load_old_version", &[], || format!("{}", k));
                let (id, m) = &self.roots[k];
                let t = RadixTree::try_load(self.store.clone(), Some(id)).map_err(es("load"))?;
                verify(ctx, "old version", &t, m)?;
                verify_shape(ctx, "old version", &t, m)?;
                ctx.stat("ev.old_version_checked", 1);
                if ctx.rng.chance(1, 3) {
                    let m = m.clone();
                    self.push_inst(ctx, Inst { t, m });
                }
                Ok(())
            }
        }
    }

    /// everything must still be as the model says
    pub fn finish(&mut self, ctx: &mut Ctx) -> R {
        for inst in &self.insts {
            verify(ctx, "at the end", &inst.t, &inst.m)?;
        }
        for det in &self.dets {
            verify(ctx, "at the end (detached)", &det.t, &det.m)?;
        }
        for mut h in self.held.drain(..) {
            h.step(ctx, 100000)?;
        }
        for mut h in self.held_d.drain(..) {
            h.step(ctx, 100000)?;
        }
        for (id, m) in &self.roots {
            let t = RadixTree::try_load(self.store.clone(), Some(id)).map_err(es("load"))?;
            verify(ctx, "old version at the end", &t, m)?;
            ctx.stat("ev.old_version_checked", 1);
        }
        Ok(())
    }
}

/// trees derived from each other, which have nodes in common
fn eq_relatives(ctx: &mut Ctx, t: &RadixTree, m: &Model) -> R {
    if m.is_empty() {
        return Ok(());
    }
    let mut family = vec![(t.clone(), m.clone())];
    for _ in 0..3 {
        let (mut u, mut um) = family[ctx.rng.below(family.len())].clone();
        if um.is_empty() {
            continue;
        }
        let k = pick_key(&mut ctx.rng, &um);
        let n = ctx.rng.range(0, k.len());
        match ctx.rng.below(7) {
            0 | 1 => {
                let p = &k[..n];
                let mut sub = p.to_vec();
                match ctx.rng.below(5) {
                    0 => sub.push(0),
                    1 => {
                        sub.pop();
                    }
                    2 => sub = vec![],
                    3 if n > 0 => sub[n - 1] ^= 1,
                    _ => {}
                }
                u = u.filter_prefix(p, &sub);
                um = filter_model(&um, p, &sub);
            }
            2 => {
                let v = um[&k].clone();
                u.insert(&k, &v);
            }
            3 => {
                let v = um.get_mut(&k).unwrap();
                match ctx.rng.below(3) {
                    0 => v.push(0),
                    1 => {
                        v.pop();
                    }
                    _ => *v = vec![],
                }
                u.insert(&k, &*v);
            }
            4 => {
                u.remove(&k);
                um.remove(&k);
            }
            5 => {
                u.insert(&k[..n], b"");
                um.insert(k[..n].to_vec(), vec![]);
            }
            _ => {
                let v = um[&k].clone();
                u.remove(&k);
                u.insert(&k, &v);
            }
        }
        for (a, am) in &family {
            ctx.stat("ev.eq_related", 1);
            check_eq(ctx, "eq with a tree derived from it", a, am, &u, &um)?;
        }
        family.push((u, um));
    }
    Ok(())
}

pub fn check_eq(ctx: &mut Ctx, what: &str, a: &RadixTree, am: &Model, b: &RadixTree, bm: &Model) -> R {
    let exp = am == bm;
    ctx.stat(if exp { "ev.eq_true" } else { "ev.eq_false" }, 1);
    ensure!((a == b) == exp, "{}: == is {} for contents {} and {}", what, a == b, show(am), show(bm));
    ensure!((b == a) == exp, "{}: == (swapped) is {} for contents {} and {}", what, b == a, show(am), show(bm));
    ensure!((a != b) == !exp, "{}: != is {} for contents {} and {}", what, a != b, show(am), show(bm));
    Ok(())
}

pub const PROFILE_STATS: &[&str] = &[
    "keys.ab", "keys.edge-bytes", "keys.fanout", "keys.long-segments", "keys.words", "keys.counter", "keys.random",
    "keys.deep", "keys.huge", "keys.mixed", "keys.mutate",
];

//! C01, C08, C13: few but large: trees with tens of thousands of entries, keys and values of megabytes, nodes with
//! records as large as they get, stores with tens of thousands of blobs.
use crate::ctx::{es, hex, Ctx, R};
use crate::gen::*;
use crate::run::guarded;
use crate::stores::{open, Any};
use crate::suites::tmpfile;
use crate::vstore::VStore;
use crate::world::*;
use crate::{ensure, fail};
use radixdb::store::{Detached, DynBlobStore, MemStore, NoError, PagedFileStore};
use radixdb::RadixTree;
use std::sync::Arc;

const LENS: &[usize] = &[65535, 65536, 65537, 32767, 32768, 99_999, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3_000_000];

fn tagged(ctx: &mut Ctx, len: usize) -> Vec<u8> {
    let n = ctx.fresh().to_be_bytes();
    let x = ctx.rng.byte();
    let mut v: Vec<u8> = (0..len).map(|i| (i as u8).wrapping_mul(3) ^ (i >> 8) as u8 ^ (i >> 16) as u8 ^ x).collect();
    let k = len.min(3);
    let at = if ctx.rng.chance(1, 2) { 0 } else { len - k };
    v[at..at + k].copy_from_slice(&n[8 - k..]);
    v
}

fn many_entries(ctx: &mut Ctx) -> Model {
    let n = if ctx.rng.chance(1, 20) { ctx.rng.range(66_000, 150_000) } else { ctx.rng.range(8_000, 40_000) };
    let fam = ctx.rng.below(5);
    let step = *ctx.rng.pick(&[1u32, 3, 256, 65537]);
    let mut m = Model::new();
    for i in 0..n {
        let x = (i as u32).wrapping_mul(step);
        let k = match fam {
            0 => x.to_be_bytes().to_vec(),
            1 => x.to_le_bytes().to_vec(),
            2 => format!("{}", x).into_bytes(),
            3 => ctx.rng.bytes(3),
            _ => {
                // three levels with shared fragments
                let mut k = b"segment".to_vec();
                k.push(ctx.rng.byte());
                k.extend_from_slice(b"/a shared fragment/");
                k.extend_from_slice(&ctx.rng.bytes(2));
                if ctx.rng.chance(1, 3) {
                    k.truncate(7 + 1);
                }
                k
            }
        };
        let len = *ctx.rng.pick(&[0usize, 3, 8, 9, 20]);
        let v = tagged(ctx, len);
        m.insert(k, v);
    }
    m
}

fn huge_fields(ctx: &mut Ctx) -> Model {
    let n = *ctx.rng.pick(LENS);
    let stem = tagged(ctx, n);
    let mut m = Model::new();
    for _ in 0..ctx.rng.range(2, 7) {
        let mut k = stem.clone();
        match ctx.rng.below(5) {
            0 => k.truncate(*ctx.rng.pick(&[0usize, 1, 100, 32768, 65535, 65536])),
            1 => {
                let n = k.len();
                let i = *ctx.rng.pick(&[0usize, 1, 255, 256, 32766, n - 1, n - 2, n / 2]);
                k[i] ^= 1;
            }
            2 => k.push(ctx.rng.byte()),
            3 => {
                let n = *ctx.rng.pick(&[65535usize, 65536, 300]);
                let more = tagged(ctx, n);
                k.extend_from_slice(&more);
            }
            _ => {
                let n = ctx.rng.below(k.len());
                k.truncate(n);
                let n = ctx.rng.below(300);
                let more = tagged(ctx, n);
                k.extend_from_slice(&more);
            }
        }
        let len = if ctx.rng.chance(1, 2) { *ctx.rng.pick(LENS) } else { ctx.rng.below(200) };
        let v = tagged(ctx, len);
        m.insert(k, v);
    }
    if ctx.rng.chance(1, 12) {
        let n = (1 << 24) + ctx.rng.below(3) - 1;
        let v = tagged(ctx, n);
        m.insert(b"x".to_vec(), v);
    }
    m
}

/// nodes whose stored form is as large as possible
fn fat_nodes(ctx: &mut Ctx) -> Model {
    let lab = ctx.rng.range(110, 129);
    let val = ctx.rng.range(110, 129);
    let two = ctx.rng.chance(1, 2);
    let gap = ctx.rng.chance(1, 3);
    let mut m = Model::new();
    for b in 0..=255u8 {
        if gap && ctx.rng.chance(1, 9) {
            continue;
        }
        let mut k = vec![b];
        let mut l = vec![b ^ 0x55; lab];
        l[lab - 1] = b;
        k.extend_from_slice(&l[..lab - 1]);
        let v = tagged(ctx, val);
        m.insert(k.clone(), v);
        if two && b % 16 == 3 {
            for c in 0..=255u8 {
                let mut k = k.clone();
                k.push(c);
                k.extend_from_slice(&l);
                let v = tagged(ctx, val);
                m.insert(k, v);
            }
        }
    }
    m
}

fn some_key(ctx: &mut Ctx, m: &Model) -> Vec<u8> {
    if m.is_empty() {
        return vec![];
    }
    let i = ctx.rng.below(m.len());
    let mut k = m.keys().nth(i).unwrap().clone();
    match ctx.rng.below(5) {
        0 => k.push(ctx.rng.byte()),
        1 => {
            let n = ctx.rng.below(k.len() + 1);
            k.truncate(n)
        }
        2 => {
            k.pop();
        }
        _ => {}
    }
    k
}

fn changes<S: Backend>(ctx: &mut Ctx, t: &mut RadixTree<S>, m: &mut Model, n: usize) -> R {
    for _ in 0..n {
        let k = some_key(ctx, m);
        match ctx.rng.below(5) {
            0 | 1 => {
                let len = *ctx.rng.pick(&[0usize, 4, 8, 9, 127, 128]);
                let v = tagged(ctx, len);
                t.try_insert(&k, &v).map_err(es("insert"))?;
                m.insert(k, v);
            }
            2 | 3 => {
                t.try_remove(&k).map_err(es("remove"))?;
                m.remove(&k);
            }
            _ => {
                if m.range(k.clone()..).take_while(|x| x.0.starts_with(&k)).nth(m.len() / 8).is_none() {
                    t.try_remove_prefix(&k).map_err(es("remove_prefix"))?;
                    m.retain(|x, _| !x.starts_with(&k));
                }
            }
        }
        ctx.stat("ev.big_changes", 1);
    }
    Ok(())
}

fn queries<S: Backend>(ctx: &mut Ctx, t: &RadixTree<S>, m: &Model) -> R {
    for _ in 0..20 {
        let k = some_key(ctx, m);
        verify_get(ctx, t, m, &k)?;
        verify_prefix(ctx, t, m, &k)?;
    }
    verify_extremes(ctx, t, m)
}

pub fn big(ctx: &mut Ctx) -> R {
    let kind = ctx.index % 3;
    let m = match kind {
        0 => many_entries(ctx),
        1 => huge_fields(ctx),
        _ => fat_nodes(ctx),
    };
    ctx.op(["op.many_entries", "op.huge_fields", "op.fat_nodes"][kind as usize], &(m.len() as u64).to_be_bytes(), || format!("{} entries", m.len()));
    ctx.stat(["ev.many_entries", "ev.huge_fields", "ev.fat_nodes"][kind as usize], 1);
    ctx.max("max.entries", m.len() as u64);
    ctx.max("max.key", m.keys().map(|k| k.len()).max().unwrap_or(0) as u64);
    ctx.max("max.value", m.values().map(|k| k.len()).max().unwrap_or(0) as u64);
    ctx.nontrivial = m.len() >= 2;
    for (k, v) in m.iter().take(3) {
        ctx.sig.add(&k[..k.len().min(100)]);
        ctx.sig.add(&v[..v.len().min(100)]);
    }
    let n = if kind == 0 { 300 } else { 12 };
    // insert in a random order
    let mut keys: Vec<&Vec<u8>> = m.keys().collect();
    for i in (1..keys.len()).rev() {
        let j = ctx.rng.below(i + 1);
        keys.swap(i, j);
    }
    let mut t = RadixTree::default();
    for k in keys {
        t.insert(k, &m[k]);
    }
    verify(ctx, "big tree", &t, &m)?;
    let snap = Inst { t: t.clone(), m: m.clone() };
    let mut a = Inst { t, m: m.clone() };
    changes(ctx, &mut a.t, &mut a.m, n)?;
    verify(ctx, "big tree after changes", &a.t, &a.m)?;
    verify(ctx, "the snapshot before", &snap.t, &snap.m)?;
    queries(ctx, &a.t, &a.m)?;
    for _ in 0..2 {
        let mode = ctx.rng.below(8);
        let j = *ctx.rng.pick(&JOINS);
        match ctx.rng.below(4) {
            0 => {
                let x = join::<_, _, NoError>(ctx, j, &a.t, &a.m, &snap.t, &snap.m, mode)?;
                verify(ctx, "big combine", &x.t, &x.m)?;
                join_pred::<_, _, NoError>(ctx, j, &a.t, &a.m, &snap.t, &snap.m, 0)?;
            }
            1 => {
                let mut b = Inst { t: a.t.clone(), m: a.m.clone() };
                join_with(ctx, j, &mut b, &snap.t, &snap.m, mode, radixdb::node::IdentityConverter, take_same())?;
                verify(ctx, "big combine in place", &b.t, &b.m)?;
            }
            2 => {
                let mut b = Inst { t: snap.t.clone(), m: snap.m.clone() };
                let r = ctx.rng.chance(1, 2);
                let mut p = Inst { t: RadixTree::default(), m: Model::new() };
                for _ in 0..30 {
                    let k = some_key(ctx, &a.m);
                    p.t.insert(&k, b"");
                    p.m.insert(k, vec![]);
                }
                prefix_set(ctx, r, &mut b, &p.t, &p.m, 3)?;
                verify(ctx, "big prefix set operation", &b.t, &b.m)?;
            }
            _ => {
                let k = some_key(ctx, &a.m);
                let f = a.t.filter_prefix(&k, b"sub");
                let fm = filter_model(&a.m, &k, b"sub");
                verify(ctx, "big filter_prefix", &f, &fm)?;
            }
        }
    }
    // through a store
    let file;
    let vs;
    let store: DynBlobStore = match ctx.rng.below(3) {
        0 => Arc::new(MemStore::default()),
        1 => {
            file = tmpfile();
            Arc::new(PagedFileStore::new(file, 1 << 25).map_err(es("open"))?)
        }
        _ => {
            vs = VStore::random(&mut ctx.rng);
            if vs.lock().id_len < 4 {
                vs.lock().id_len = 4;
            }
            vs.dynamic()
        }
    };
    let mut x = a.t.try_attached(store.clone()).map_err(es("attached"))?;
    let id = x.try_reattach().map_err(es("reattach"))?;
    verify(ctx, "big tree in a store", &x, &a.m)?;
    queries(ctx, &x, &a.m)?;
    let l = || RadixTree::<DynBlobStore>::try_load(store.clone(), Some(&id)).map_err(es("load"));
    let mut b = Inst { t: l()?, m: a.m.clone() };
    queries(ctx, &b.t, &b.m)?;
    changes(ctx, &mut b.t, &mut b.m, n)?;
    verify(ctx, "big loaded tree after changes", &b.t, &b.m)?;
    let mode = ctx.rng.below(8);
    let j = *ctx.rng.pick(&JOINS);
    foreign_with(ctx, j, &mut b, &x, &a.m, mode)?;
    verify(ctx, "big combine in a store", &b.t, &b.m)?;
    let id2 = b.t.try_reattach().map_err(es("reattach"))?;
    verify(ctx, "big tree after storing", &b.t, &b.m)?;
    let old = l()?;
    verify(ctx, "the version before", &old, &a.m)?;
    let d = RadixTree::<DynBlobStore>::try_load(store.clone(), Some(&id2)).map_err(es("load"))?.try_detached().map_err(es("detached"))?;
    verify(ctx, "big tree detached", &d, &b.m)?;
    let e: RadixTree<Detached> = b.m.iter().collect();
    ensure!(d == e, "a big tree differs from one built anew of the same content");
    verify(ctx, "the snapshot at the end", &snap.t, &snap.m)
}

/// tens of thousands of blobs in one store
pub fn c13_many(ctx: &mut Ctx) -> R {
    let n = 70_000 + ctx.rng.below(3000);
    let file = tmpfile();
    let paged = ctx.index % 2 == 1;
    let ps: u64 = *ctx.rng.pick(&[512u64, 1024, 1000, 4096, 1 << 20]);
    let s = if paged { open(ctx, &file, ps, 0)? } else { Any::Mem(MemStore::default()) };
    ctx.op("op.open", &ps.to_be_bytes(), || format!("page size {}, {} blobs", ps, n));
    let data = |i: usize| -> Vec<u8> {
        let mut d = (i as u32).to_be_bytes().to_vec();
        d.resize(4 + i % 17, i as u8);
        d
    };
    let mut ids = Vec::with_capacity(n);
    let mut seen = std::collections::HashSet::new();
    let mut held = Vec::new();
    for i in 0..n {
        let id = guarded(|| s.write(&data(i))).map_err(|p| format!("write {}: {}", i, p))?.map_err(es("write"))?;
        ensure!(seen.insert(id.clone()), "write {} returned id {} a second time", i, hex(&id));
        ids.push(id);
        // old and new ones in between
        for k in [i, ctx.rng.below(i + 1)] {
            let b = guarded(|| s.read(&ids[k])).map_err(|p| format!("reading {}: {}", hex(&ids[k]), p))?.map_err(es("read"))?;
            ensure!(b[..] == data(k)[..], "blob {} of {} reads {} instead of {}", k, i, hex(&b), hex(&data(k)));
            ctx.stat("ev.read_checked", 1);
            if held.len() < 3000 && ctx.rng.chance(1, 20) {
                held.push((b, k));
            }
        }
    }
    for (b, k) in &held {
        ensure!(b[..] == data(*k)[..], "held blob {} reads {}", k, hex(b));
    }
    for (k, id) in ids.iter().enumerate() {
        let b = s.read(id).map_err(es("read"))?;
        ensure!(b[..] == data(k)[..], "blob {} reads {} instead of {}", k, hex(&b), hex(&data(k)));
    }
    if paged {
        drop(s);
        let s = open(ctx, &file, ps, 0)?;
        match s.last() {
            Some(Some(l)) if l[..] == ids[n - 1][..] => {}
            l => fail!("last_id after reopening is {:?}", l),
        }
        for (k, id) in ids.iter().enumerate().rev() {
            let b = s.read(id).map_err(es("read"))?;
            ensure!(b[..] == data(k)[..], "blob {} reads {} instead of {} after reopening", k, hex(&b), hex(&data(k)));
        }
        for (b, k) in &held {
            ensure!(b[..] == data(*k)[..], "held blob {} reads {} after reopening", k, hex(b));
        }
    }
    ctx.stat("ev.many_blobs", n as u64);
    ctx.nontrivial = true;
    Ok(())
}

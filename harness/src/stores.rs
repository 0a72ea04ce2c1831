//! C13, C14: the blob store contract of MemStore, PagedFileStore and the dynamic wrapper.
use crate::ctx::{es, hex, Ctx, R};
use crate::rng::fnv;
use crate::run::guarded;
use crate::{ensure, fail};
use radixdb::store::{Blob, BlobStore, DynBlobStore, MemStore, PagedFileStore};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone)]
pub enum Any {
    Mem(MemStore),
    MemDyn(DynBlobStore),
    Paged(PagedFileStore),
    PagedDyn(DynBlobStore, PagedFileStore),
    PagedDyn2(DynBlobStore),
}
use Any::*;
impl Any {
    pub fn write(&self, d: &[u8]) -> anyhow::Result<Vec<u8>> {
        match self {
            Mem(s) => s.write(d),
            Paged(s) => s.write(d),
            MemDyn(s) | PagedDyn(s, _) | PagedDyn2(s) => s.write(d),
        }
    }
    pub fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        match self {
            Mem(s) => s.read(id),
            Paged(s) => s.read(id),
            MemDyn(s) | PagedDyn(s, _) | PagedDyn2(s) => s.read(id),
        }
    }
    pub fn sync(&self) -> anyhow::Result<()> {
        match self {
            Mem(s) => s.sync(),
            Paged(s) => s.sync(),
            MemDyn(s) | PagedDyn(s, _) | PagedDyn2(s) => s.sync(),
        }
    }
    pub fn last(&self) -> Option<Option<[u8; 8]>> {
        match self {
            Paged(s) | PagedDyn(_, s) => Some(s.last_id()),
            _ => None,
        }
    }
    fn debug(&self) -> String {
        match self {
            Mem(s) => format!("{:?}", s),
            Paged(s) => format!("{:?}", s),
            MemDyn(s) | PagedDyn(s, _) | PagedDyn2(s) => format!("{:?}", s),
        }
    }
}

pub const SIZES: &[u64] = &[16, 24, 32, 64, 72, 128, 512, 1000, 1024, 4096, 4104, 8192, 16384, 65536, 1 << 20];

pub fn page_size(ctx: &mut Ctx) -> u64 {
    match ctx.rng.below(8) {
        0 => 8 * ctx.rng.range(1, 40) as u64,
        1 => *ctx.rng.pick(&[8u64, 16, 24, 32]),
        2..=4 => *ctx.rng.pick(&[64u64, 128, 512, 1000, 1024]),
        _ => *ctx.rng.pick(SIZES),
    }
}

/// data for a write: unique within the case if at least 4 bytes long
pub fn data(ctx: &mut Ctx, ps: Option<u64>) -> Vec<u8> {
    let max = ps.map(|p| p as usize - 8).unwrap_or(70000);
    let len = match ctx.rng.below(12) {
        0 => 0,
        1 => ctx.rng.below(9),
        2 => max,
        3 => max.saturating_sub(ctx.rng.below(13)),
        4 => max / 2,
        5 => max / 2 + ctx.rng.below(10),
        6 => ctx.rng.below(max + 1),
        7 => *ctx.rng.pick(&[127usize, 128, 255, 256, 1016, 1017, 1020, 1024, 4088, 4092, 4096]),
        8..=9 => ctx.rng.below(40),
        _ => ctx.rng.below(max / 4 + 1),
    }
    .min(max);
    let len = if ctx.small { len.min(200) } else if len > 5000 && ctx.rng.chance(3, 4) { len % 5000 } else { len };
    fill(ctx, len)
}

pub fn fill(ctx: &mut Ctx, len: usize) -> Vec<u8> {
    let n = ctx.fresh();
    let x = ctx.rng.byte();
    let mut d: Vec<u8> = match ctx.rng.below(4) {
        0 => vec![x; len],
        1 => vec![0; len],
        2 => (0..len).map(|i| (i as u8).wrapping_mul(7) ^ x).collect(),
        // looks like length fields
        _ => (0..len).map(|i| if i % 4 == 3 { x & 0x3f } else { 0 }).collect(),
    };
    let k = len.min(4);
    d[..k].copy_from_slice(&n.to_be_bytes()[8 - k..]);
    d
}

pub struct Hist {
    pub blobs: Vec<(Vec<u8>, Vec<u8>)>,
    pub ids: HashMap<Vec<u8>, usize>,
    pub held: Vec<(Blob<'static>, Vec<u8>)>,
    pub ps: Option<u64>,
}

impl Hist {
    pub fn new(ps: Option<u64>) -> Self {
        Hist { blobs: vec![], ids: HashMap::new(), held: vec![], ps }
    }
    pub fn write(&mut self, ctx: &mut Ctx, s: &Any, d: Vec<u8>) -> R {
        ctx.op("op.write", &(d.len() as u32).to_be_bytes(), || hex(&d));
        let id = s.write(&d).map_err(es("write"))?;
        ctx.note(|| format!("   -> id {}", hex(&id)));
        ensure!(!self.ids.contains_key(&id), "write returned id {} a second time", hex(&id));
        let b = s.read(&id).map_err(es("read after write"))?;
        ensure!(b[..] == d[..], "blob {} reads {} right after writing {}", hex(&id), hex(&b), hex(&d));
        if ctx.rng.chance(1, 5) {
            self.hold(ctx, b, d.clone());
        }
        if let Some(l) = s.last() {
            ensure!(l.map(|x| x.to_vec()).as_ref() == Some(&id), "last_id is {:?} after writing {}", l.map(|x| hex(&x)), hex(&id));
        }
        if let (Some(ps), true) = (self.ps, id.len() == 8) {
            let p = u64::from_be_bytes(id[..].try_into().unwrap()) / ps;
            if let Some((prev, _)) = self.blobs.last() {
                let q = u64::from_be_bytes(prev[..].try_into().unwrap()) / ps;
                if p != q {
                    ctx.stat("ev.page_turnover", 1);
                }
            }
        }
        self.ids.insert(id.clone(), self.blobs.len());
        self.blobs.push((id, d));
        Ok(())
    }
    pub fn hold(&mut self, ctx: &mut Ctx, b: Blob<'static>, d: Vec<u8>) {
        if self.held.len() >= 24 {
            let k = ctx.rng.below(24);
            self.held.swap_remove(k);
        }
        if ctx.rng.chance(1, 3) && !d.is_empty() {
            let from = ctx.rng.below(d.len());
            let to = ctx.rng.range(from, d.len());
            self.held.push((b.slice(from..to), d[from..to].to_vec()));
        } else {
            self.held.push((b, d));
        }
    }
    pub fn check_held(&self, ctx: &mut Ctx) -> R {
        for (b, d) in &self.held {
            ensure!(b[..] == d[..], "held blob changed to {} from {}", hex(b), hex(d));
        }
        ctx.stat("ev.held_checked", self.held.len() as u64);
        Ok(())
    }
    pub fn read(&mut self, ctx: &mut Ctx, s: &Any, k: usize) -> R {
        let (id, d) = self.blobs[k].clone();
        let b = s.read(&id).map_err(es("read"))?;
        ensure!(b[..] == d[..], "blob {} reads {} instead of {}", hex(&id), hex(&b), hex(&d));
        ctx.stat("ev.read_checked", 1);
        if ctx.rng.chance(1, 5) {
            self.hold(ctx, b, d);
        }
        Ok(())
    }
    pub fn read_all(&mut self, ctx: &mut Ctx, s: &Any) -> R {
        for k in 0..self.blobs.len() {
            self.read(ctx, s, k)?;
        }
        Ok(())
    }
    /// ids that no write returned
    pub fn bad_id(&mut self, ctx: &mut Ctx, s: &Any) -> R {
        let mut id = if !self.blobs.is_empty() && ctx.rng.chance(1, 2) {
            self.blobs[ctx.rng.below(self.blobs.len())].0.clone()
        } else {
            ctx.rng.bytes(8)
        };
        let max = self.blobs.iter().map(|x| u64::from_be_bytes(x.0[..].try_into().unwrap())).max().unwrap_or(0);
        // must: certainly refused
        let must = match ctx.rng.below(10) {
            // a valid one when it is cut off
            7 if !self.blobs.is_empty() && max < 1 << 31 => {
                let i = ctx.rng.below(self.blobs.len());
                let base = *ctx.rng.pick(&[1u64 << 31, 1 << 32, 1 << 32, 5 << 32, 1 << 40, 1 << 62, 1 << 63]);
                id = (u64::from_be_bytes(self.blobs[i].0[..].try_into().unwrap()) + base).to_be_bytes().to_vec();
                ctx.stat("ev.far_ids", 1);
                true
            }
            0 => {
                id.pop();
                true
            }
            1 => {
                id.push(0);
                true
            }
            2 => {
                id.clear();
                true
            }
            3 => {
                let n = ctx.rng.range(9, 40);
                id = ctx.rng.bytes(n);
                true
            }
            4 => {
                id = (ctx.rng.below(4) as u64).to_be_bytes().to_vec();
                true
            }
            5 => {
                let over = *ctx.rng.pick(&[1u64, 2, 3, 4, 5, 8, 100, 4096, 1 << 20, 1 << 40]);
                id = max.saturating_add(over).to_be_bytes().to_vec();
                true
            }
            6 => {
                id = (u64::MAX - ctx.rng.below(5000) as u64).to_be_bytes().to_vec();
                true
            }
            _ => {
                // in range, but (most likely) not the id of a blob: must not panic or disturb anything
                id = (if max == 0 { 1 } else { 1 + ctx.rng.next() % max }).to_be_bytes().to_vec();
                false
            }
        };
        if self.ids.contains_key(&id) {
            return Ok(());
        }
        // small ids are valid for the memory store
        ctx.op(if must { "op.read_invalid_id" } else { "op.read_unissued_id" }, &id, || String::new());
        match guarded(|| s.read(&id).map(|b| b.to_vec())) {
            Err(p) => fail!("reading the invalid id {}: {}", hex(&id), p),
            Ok(Ok(b)) => {
                let mem = matches!(s, Mem(_) | MemDyn(_));
                ensure!(!must && !mem, "reading the invalid id {} succeeds with {}", hex(&id), hex(&b));
                ctx.stat("ev.unissued_id_ok", 1);
            }
            Ok(Err(_)) => ctx.stat("ev.invalid_id_refused", 1),
        }
        Ok(())
    }
    pub fn too_large(&mut self, ctx: &mut Ctx, s: &Any) -> R {
        let Some(ps) = self.ps else { return Ok(()) };
        let over = *ctx.rng.pick(&[4usize, 5, 8, 9, 100, 5000]);
        // ps - 8 is the largest block; whether ps-7..ps-4 would fit is not specified
        let d = fill(ctx, ps as usize - 8 + over);
        ctx.op("op.write_too_large", &(d.len() as u32).to_be_bytes(), || String::new());
        let before = s.last();
        match guarded(|| s.write(&d)) {
            Err(p) => fail!("writing {} bytes with page size {}: {}", d.len(), ps, p),
            Ok(Err(_)) => ctx.stat("ev.too_large_refused", 1),
            Ok(Ok(id)) => {
                let ok = guarded(|| s.read(&id)).ok().and_then(|x| x.ok()).map(|b| b[..] == d[..]);
                ensure!(ok == Some(true), "a block of {} bytes was accepted with page size {} but does not read back", d.len(), ps);
                self.ids.insert(id.clone(), self.blobs.len());
                self.blobs.push((id, d));
                return Ok(());
            }
        }
        ensure!(s.last() == before, "last_id changed by a refused write");
        Ok(())
    }
    pub fn step(&mut self, ctx: &mut Ctx, s: &Any) -> R {
        match ctx.rng.below(20) {
            0..=8 => {
                let d = data(ctx, self.ps);
                self.write(ctx, s, d)
            }
            9..=13 => {
                if self.blobs.is_empty() {
                    return Ok(());
                }
                let k = ctx.rng.below(self.blobs.len());
                ctx.op("op.read", &(k as u32).to_be_bytes(), || String::new());
                self.read(ctx, s, k)
            }
            14 => self.check_held(ctx),
            15..=16 => self.bad_id(ctx, s),
            17 => self.too_large(ctx, s),
            18 => {
                ctx.op("op.sync", &[], || String::new());
                s.sync().map_err(es("sync"))
            }
            _ => {
                ctx.op("op.debug", &[], || String::new());
                let t = s.debug();
                ensure!(!t.is_empty(), "empty debug output");
                Ok(())
            }
        }
    }
}

pub fn open(ctx: &mut Ctx, f: &std::fs::File, ps: u64, how: usize) -> R<Any> {
    let file = if ctx.rng.chance(1, 2) {
        f.try_clone().unwrap()
    } else {
        use std::os::fd::AsRawFd;
        // a new open file description
        std::fs::OpenOptions::new().read(true).write(true).open(format!("/proc/self/fd/{}", f.as_raw_fd())).unwrap()
    };
    let s = PagedFileStore::new(file, ps).map_err(es("open"))?;
    Ok(match how {
        0 => Paged(s),
        1 => PagedDyn(Arc::new(s.clone()), s),
        _ => PagedDyn2(Arc::new(s)),
    })
}

pub fn c13(ctx: &mut Ctx) -> R {
    let kind = ctx.rng.below(if cfg!(miri) { 2 } else { 8 });
    let ps = page_size(ctx);
    let file;
    let (s, ps) = match kind {
        0 => (Mem(MemStore::default()), None),
        1 => (MemDyn(Arc::new(MemStore::default())), None),
        k => {
            file = crate::suites::tmpfile();
            (open(ctx, &file, ps, k % 3)?, Some(ps))
        }
    };
    ctx.stat(if ps.is_none() { "store.mem" } else { "store.paged" }, 1);
    ctx.note(|| format!("page size {:?}", ps));
    ctx.op("op.open", &ps.unwrap_or(0).to_be_bytes(), || String::new());
    let mut h = Hist::new(ps);
    if let Some(l) = s.last() {
        ensure!(l.is_none(), "last_id of a fresh store is {:?}", l);
    }
    let handles = [s.clone(), s.clone(), s];
    let n = if ctx.small { 12 } else { ctx.rng.range(5, 90) };
    for _ in 0..n {
        let k = ctx.rng.below(3);
        h.step(ctx, &handles[k])?;
    }
    h.check_held(ctx)?;
    h.read_all(ctx, &handles[0])?;
    ctx.nontrivial = h.blobs.len() >= 2;
    drop(handles);
    if !h.held.is_empty() {
        ctx.stat("ev.held_after_store_dropped", h.held.len() as u64);
    }
    h.check_held(ctx)
}

pub fn c14(ctx: &mut Ctx) -> R {
    let file = crate::suites::tmpfile();
    let ps = page_size(ctx);
    ctx.op("op.page_size", &ps.to_be_bytes(), || format!("{}", ps));
    let mut h = Hist::new(Some(ps));
    // the smallest file must be refused or opened, not crash
    if ctx.rng.chance(1, 20) {
        let f = crate::suites::tmpfile();
        f.set_len(ctx.rng.range(1, 4095) as u64).unwrap();
        match guarded(|| PagedFileStore::new(f, ps).map(|_| ())) {
            Err(p) => fail!("opening a file with an incomplete header: {}", p),
            Ok(_) => ctx.stat("ev.incomplete_header", 1),
        }
        let bad = *ctx.rng.pick(&[0u64, 1, 7, 9, 1001, 4095]);
        match guarded(|| PagedFileStore::new(crate::suites::tmpfile(), bad).map(|_| ())) {
            Err(p) => fail!("opening with page size {}: {}", bad, p),
            Ok(Ok(())) => fail!("page size {} was accepted", bad),
            Ok(Err(_)) => ctx.stat("ev.bad_page_size_refused", 1),
        }
    }
    let sessions = ctx.rng.range(2, 7);
    for s in 0..sessions {
        ctx.op("op.open", &[], || format!("session {}", s));
        let how = if ctx.rng.chance(1, 4) { 2 } else { s % 2 };
        let st = open(ctx, &file, ps, how)?;
        ctx.stat("ev.reopened", (s > 0) as u64);
        if let Some(l) = st.last() {
            let want = h.blobs.last().map(|x| x.0.clone());
            ensure!(
                l.map(|x| x.to_vec()) == want,
                "last_id after reopening is {:?}, the last successful write was {:?}",
                l.map(|x| hex(&x)),
                want.map(|x| hex(&x))
            );
            ctx.stat("ev.last_id_checked", 1);
        }
        match ctx.rng.below(3) {
            0 => h.read_all(ctx, &st)?,
            1 => {
                // a write before any read
                let d = data(ctx, h.ps);
                h.write(ctx, &st, d)?;
                h.read_all(ctx, &st)?;
            }
            _ => {}
        }
        let n = match ctx.rng.below(6) {
            0 => 0,
            1 => 1,
            _ => ctx.rng.range(2, 25),
        };
        for _ in 0..n {
            h.step(ctx, &st)?;
        }
        // stop right after a page was filled (as far as it gets)
        if ctx.rng.chance(1, 3) {
            let last = h.blobs.last().map(|x| u64::from_be_bytes(x.0[..].try_into().unwrap())).unwrap_or(0);
            let left = ps - last % ps;
            let len = match ctx.rng.below(4) {
                0 => left.saturating_sub(4),
                1 => left.saturating_sub(5),
                2 => left.saturating_sub(3),
                _ => left.saturating_sub(8),
            };
            if len <= ps - 8 {
                let d = fill(ctx, len as usize);
                h.write(ctx, &st, d)?;
                ctx.stat("ev.filled_page", 1);
            }
        }
        h.check_held(ctx)?;
        if ctx.rng.chance(1, 2) {
            drop(st);
            h.check_held(ctx)?;
        }
    }
    let st = open(ctx, &file, ps, 0)?;
    h.read_all(ctx, &st)?;
    if let (Some(Some(l)), Some((id, d))) = (st.last(), h.blobs.last()) {
        ensure!(l[..] == id[..], "last_id is {} instead of {}", hex(&l), hex(id));
        let b = st.read(&l).map_err(es("read"))?;
        ensure!(b[..] == d[..], "blob of last_id is {}", hex(&b));
    }
    ctx.nontrivial = h.blobs.len() >= 2;
    let _ = fnv(b"");
    h.check_held(ctx)
}

/// a file that grows beyond 2 and 4 GiB (one case per run: it takes a few seconds)
fn large(ctx: &mut Ctx, reopen: bool) -> R {
    let file = crate::suites::tmpfile();
    let ps: u64 = *ctx.rng.pick(&[1u64 << 24, 1 << 25, 3 << 23, (1 << 24) + 8 * 111]);
    ctx.op("op.open", &ps.to_be_bytes(), || format!("page size {}", ps));
    let mut s = open(ctx, &file, ps, 0)?;
    // (id, length, fill)
    let mut blobs: Vec<(Vec<u8>, usize, u8)> = vec![];
    let mut buf = vec![0u8; ps as usize];
    let check = |s: &Any, b: &(Vec<u8>, usize, u8), full: bool| -> R {
        let r = guarded(|| s.read(&b.0)).map_err(|p| format!("reading {}: {}", hex(&b.0), p))?.map_err(es("read"))?;
        let ok = r.len() == b.1
            && if full || b.1 < 100 { r.iter().all(|x| *x == b.2) } else { r[..40].iter().chain(&r[b.1 - 40..]).chain(&r[b.1 / 2..b.1 / 2 + 8]).all(|x| *x == b.2) };
        ensure!(ok, "blob {} ({} bytes of {:02x}) reads {} bytes {}", hex(&b.0), b.1, b.2, r.len(), hex(&r[..r.len().min(40)]));
        Ok(())
    };
    let mut next = vec![1u64 << 31, 1 << 32, (1 << 32) + ps];
    let mut n = 0u64;
    while !next.is_empty() {
        n += 1;
        let last = blobs.last().map(|x| u64::from_be_bytes(x.0[..].try_into().unwrap())).unwrap_or(0);
        let near = next.iter().any(|x| last + 2 * ps > *x && last < *x + 2 * ps);
        let len = if near && n % 3 != 0 {
            match ctx.rng.below(4) {
                0 => ctx.rng.below(100),
                1 => (ps / 4) as usize,
                2 => ctx.rng.below(ps as usize - 8),
                _ => ((ps - last % ps).saturating_sub(ctx.rng.below(7) as u64)).min(ps - 8) as usize,
            }
        } else {
            ps as usize - 8 - ctx.rng.below(3)
        };
        let x = (n * 7 + 1) as u8;
        buf[..len].fill(x);
        ctx.note(|| format!("write {} bytes of {:02x} after id {}", len, x, last));
        let id = guarded(|| s.write(&buf[..len])).map_err(|p| format!("writing {} bytes at {}: {}", len, last, p))?;
        if cfg!(target_pointer_width = "32") && id.is_err() && last + 2 * ps >= 1 << 31 {
            // the end of what can be mapped; all that was accepted must be readable
            ctx.stat("ev.full_store_refused", 1);
            break;
        }
        let id = id.map_err(es("write"))?;
        ensure!(!blobs.iter().any(|b| b.0 == id), "write returned id {} a second time", hex(&id));
        let end = u64::from_be_bytes(id[..].try_into().unwrap_or([0; 8]));
        blobs.push((id, len, x));
        ctx.stat("ev.bytes_written", len as u64);
        let b = blobs.last().unwrap();
        check(&s, b, false)?;
        if near {
            ctx.stat("ev.near_boundary", 1);
            for b in blobs.iter().rev().take(6) {
                check(&s, b, false)?;
            }
        }
        if end > next[0] {
            ctx.stat("ev.boundary_crossed", 1);
            next.remove(0);
            if reopen {
                drop(s);
                s = open(ctx, &file, ps, 0)?;
                let l = s.last().flatten().map(|x| x.to_vec());
                ensure!(l.as_ref() == blobs.last().map(|b| &b.0), "last_id after reopening is {:?}", l.map(|x| hex(&x)));
                for b in blobs.iter().rev().take(20) {
                    check(&s, b, false)?;
                }
                ctx.stat("ev.reopened", 1);
            }
        }
    }
    if reopen {
        drop(s);
        s = open(ctx, &file, ps, 0)?;
        let l = s.last().flatten().map(|x| x.to_vec());
        ensure!(l.as_ref() == blobs.last().map(|b| &b.0), "last_id after reopening is {:?}", l.map(|x| hex(&x)));
    }
    for (k, b) in blobs.iter().enumerate() {
        check(&s, b, k % 40 == 0)?;
        ctx.stat("ev.read_checked", 1);
    }
    let end = u64::from_be_bytes(blobs.last().unwrap().0[..].try_into().unwrap());
    for bad in [end + 1, end + ps, end + (1 << 32), u64::MAX, u64::MAX - 4096, 1 << 63] {
        match guarded(|| s.read(&bad.to_be_bytes()).map(|_| ())) {
            Err(p) => fail!("reading the id {}: {}", bad, p),
            Ok(Ok(())) => fail!("the id {} is accepted", bad),
            Ok(Err(_)) => ctx.stat("ev.invalid_id_refused", 1),
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
/// blobs whose length does not fit the length field, in a store with pages that large
fn huge_blob(ctx: &mut Ctx) -> R {
    let file = crate::suites::tmpfile();
    let ps = 1u64 << 33;
    ctx.op("op.open", &ps.to_be_bytes(), || format!("page size {}", ps));
    if cfg!(target_pointer_width = "32") {
        // such a page does not fit into memory
        for x in [ps, ps + 4096, (1 << 32) + 8, u64::MAX - 7] {
            match guarded(|| PagedFileStore::new(file.try_clone().unwrap(), x)) {
                Ok(Err(_)) => ctx.stat("ev.bad_page_size_refused", 1),
                Ok(Ok(_)) => fail!("the page size {} is accepted", x),
                Err(p) => fail!("opening with page size {}: {}", x, p),
            }
        }
        return Ok(());
    }
    let s = open(ctx, &file, ps, 0)?;
    let a = s.write(b"before").map_err(es("write"))?;
    let mut accepted = vec![];
    for len in [(1u64 << 32) + 5, 1 << 32].iter().filter_map(|x| usize::try_from(*x).ok()) {
        let d = vec![0u8; len];
        ctx.note(|| format!("write {} zeros", len));
        let r = guarded(|| s.write(&d)).map_err(|p| format!("writing {} bytes: {}", len, p))?;
        drop(d);
        match r {
            Err(_) => ctx.stat("ev.too_large_refused", 1),
            Ok(id) => {
                let b = guarded(|| s.read(&id)).map_err(|p| format!("reading: {}", p))?.map_err(es("read"))?;
                ensure!(b.len() == len, "a blob of {} bytes reads {} bytes", len, b.len());
                accepted.push((id, len));
            }
        }
        let b = s.read(&a).map_err(es("read"))?;
        ensure!(b[..] == *b"before", "an earlier blob reads {}", hex(&b));
    }
    let b = s.write(b"after").map_err(es("write"))?;
    let s = {
        drop(s);
        open(ctx, &file, ps, 0)?
    };
    for (id, len) in accepted {
        let b = guarded(|| s.read(&id)).map_err(|p| format!("reading: {}", p))?.map_err(es("read"))?;
        ensure!(b.len() == len, "a blob of {} bytes reads {} bytes after reopening", len, b.len());
    }
    for (id, d) in [(a, &b"before"[..]), (b, b"after")] {
        let b = s.read(&id).map_err(es("read"))?;
        ensure!(b[..] == *d, "blob reads {} after reopening", hex(&b));
    }
    ctx.nontrivial = true;
    Ok(())
}
pub fn c13_large(ctx: &mut Ctx) -> R {
    if ctx.index % 2 == 1 {
        return huge_blob(ctx);
    }
    large(ctx, false)
}
pub fn c14_large(ctx: &mut Ctx) -> R {
    large(ctx, true)
}

//! C28: what is stored does not depend on the machine. The same cases run in builds for different machines; each case
//! leaves a digest of every stored byte, and check.py compares the digests of the builds.
use crate::ctx::{es, hex, Ctx, R};
use crate::rng::Fnv;
use crate::suites::tmpfile;
use crate::vstore::VStore;
use crate::world::*;
use radixdb::store::{BlobStore, DynBlobStore, MemStore, PagedFileStore};
use std::io::{Read, Seek};
use std::sync::Arc;

const OPS: &[(Op, u32)] = &[
    (Op::Insert, 20),
    (Op::InsertMany, 8),
    (Op::Fan, 3),
    (Op::RemoveSame, 10),
    (Op::RemovePrefix, 3),
    (Op::JoinWithDet, 6),
    (Op::JoinWithInst, 4),
    (Op::JoinNew, 4),
    (Op::Retain, 3),
    (Op::RemoveSet, 3),
    (Op::Filter, 2),
    (Op::GroupBy, 2),
    (Op::Extremes, 2),
    (Op::Reattach, 8),
    (Op::Reload, 8),
    (Op::Detach, 2),
    (Op::Attach, 4),
    (Op::CloneInst, 2),
    (Op::DropInst, 2),
];

fn history(ctx: &mut Ctx, store: DynBlobStore, d: &mut Fnv) -> Result<Vec<Vec<u8>>, String> {
    let mut w = World::<DynBlobStore>::new(ctx, store);
    w.max_entries = if ctx.small { 12 } else { 200 };
    let n = if ctx.small { 8 } else { ctx.rng.range(5, 40) };
    for _ in 0..n {
        w.step(ctx, OPS)?;
    }
    w.apply(ctx, Op::Reattach)?;
    for (id, m) in &w.roots {
        d.add(id);
        for (k, v) in m {
            d.add(k);
            d.add(v);
        }
    }
    ctx.nontrivial = w.roots.iter().any(|r| r.1.len() >= 2);
    ctx.stat("ev.versions", w.roots.len() as u64);
    let roots = w.roots.iter().map(|r| r.0.to_vec()).collect();
    w.finish(ctx)?;
    Ok(roots)
}

pub fn c28(ctx: &mut Ctx) -> R {
    let mut d = Fnv::new();
    // the small cases also run below the interpreter, which can not map files:
    // all builds have to draw the same numbers
    let paged = ctx.rng.chance(1, 4);
    if paged && !ctx.small {
        let file = tmpfile();
        let mut f = file.try_clone().map_err(es("clone"))?;
        let ps = *ctx.rng.pick(&[1u64 << 23, 1 << 24]);
        ctx.stat("store.paged", 1);
        history(ctx, Arc::new(PagedFileStore::new(file, ps).map_err(es("open"))?), &mut d)?;
        let mut b = vec![];
        f.rewind().map_err(es("seek"))?;
        f.read_to_end(&mut b).map_err(es("read"))?;
        ctx.stat("ev.bytes_compared", b.len() as u64);
        d.add(&b);
        ctx.note(|| format!("file of {} bytes: {}", b.len(), hex(&b)));
    } else if ctx.rng.chance(1, 4) {
        let store = Arc::new(MemStore::default());
        ctx.stat("store.mem", 1);
        let roots = history(ctx, store.clone(), &mut d)?;
        for id in roots {
            let b = store.read(&id).map_err(es("read of a root"))?;
            d.add(&b);
            ctx.note(|| format!("root {} is {}", hex(&id), hex(&b)));
            ctx.stat("ev.bytes_compared", b.len() as u64);
        }
    } else {
        let vs = VStore::random(&mut ctx.rng);
        vs.lock().cas = ctx.rng.chance(1, 3);
        ctx.stat("store.custom", 1);
        history(ctx, vs.dynamic(), &mut d)?;
        let i = vs.lock();
        for id in &i.order {
            d.add(id);
            d.add(&i.blobs[id]);
            ctx.note(|| format!("stored {} as {}", hex(&i.blobs[id]), hex(id)));
            ctx.stat("ev.bytes_compared", i.blobs[id].len() as u64);
        }
        ctx.stat("ev.blobs_compared", i.order.len() as u64);
    }
    ctx.digest = Some(d.0);
    Ok(())
}

/// a paged file that was written on a machine with large files: read correctly or refused, never damaged
pub fn c28_foreign(ctx: &mut Ctx) -> R {
    use crate::run::guarded;
    use std::os::unix::fs::FileExt;
    const HEADER: u64 = 4096;
    let file = tmpfile();
    let ps: u64 = *ctx.rng.pick(&[1u64 << 16, 1 << 20, 1 << 24]);
    ctx.op("op.foreign_file", &ps.to_be_bytes(), || format!("pages of {}", ps));
    // blobs at the same places of pages that are told apart by their high bits only
    let mut at: Vec<u64> = vec![0, 1, 1 << 31, (1 << 31) + ps, 1 << 32, (1 << 32) + ps, 3 << 31, 1 << 33].into_iter().map(|x| x / ps * ps).collect();
    at.truncate(ctx.rng.range(1, at.len()));
    at[0] = 0;
    let mut blobs: Vec<(u64, Vec<u8>)> = vec![];
    let lens: Vec<usize> = (0..ctx.rng.range(1, 6)).map(|_| ctx.rng.below(200)).collect();
    let mut size = 0;
    at.sort();
    at.dedup();
    for (i, start) in at.iter().enumerate() {
        let mut pos = *start;
        for (j, n) in lens.iter().enumerate() {
            let d = vec![(i * 16 + j + 1) as u8; *n];
            file.write_all_at(&d, HEADER + pos).map_err(es("prepare"))?;
            file.write_all_at(&(d.len() as u32).to_be_bytes(), HEADER + pos + d.len() as u64).map_err(es("prepare"))?;
            pos += d.len() as u64 + 4;
            blobs.push((pos, d));
            size = pos;
        }
    }
    file.write_all_at(&size.to_be_bytes(), 16).map_err(es("prepare"))?;
    let big = size > i32::MAX as u64;
    ctx.stat("ev.foreign_files", 1);
    ctx.stat("ev.foreign_large_files", big as u64);
    let narrow = cfg!(target_pointer_width = "32");
    for round in 0..2 {
        let s = match guarded(|| PagedFileStore::new(file.try_clone().unwrap(), ps)) {
            Err(p) => crate::fail!("opening a file of {} bytes: {}", size, p),
            Ok(Err(e)) => {
                crate::ensure!(narrow && big, "a file of {} bytes is refused: {:?}", size, e);
                ctx.stat("ev.foreign_refused", 1);
                break;
            }
            Ok(Ok(s)) => s,
        };
        for (id, d) in &blobs {
            let mappable = id / ps * ps + HEADER + ps <= i32::MAX as u64;
            match guarded(|| s.read(&id.to_be_bytes())) {
                Err(p) => crate::fail!("reading {} of a file of {} bytes: {}", id, size, p),
                Ok(Ok(b)) => crate::ensure!(&b[..] == &d[..], "blob {} of a file of {} bytes reads {} instead of {}", id, size, hex(&b), hex(d)),
                Ok(Err(e)) => {
                    crate::ensure!(narrow && !mappable, "blob {} of a file of {} bytes is refused: {:?}", id, size, e);
                    ctx.stat("ev.foreign_blob_refused", 1);
                }
            }
            ctx.stat("ev.foreign_read", 1);
        }
        let l = s.last_id();
        crate::ensure!(round > 0 || l.as_ref().map(|x| x.to_vec()) == Some(size.to_be_bytes().to_vec()), "last_id of a file with {} bytes of blobs is {:?}", size, l);
        let d = ctx.rng.bytes(20);
        match guarded(|| s.write(&d)) {
            Err(p) => crate::fail!("writing to a file of {} bytes: {}", size, p),
            Ok(Err(e)) => crate::ensure!(narrow && big, "writing to a file of {} bytes is refused: {:?}", size, e),
            Ok(Ok(id)) => {
                let id = u64::from_be_bytes(id[..].try_into().map_err(es("id"))?);
                crate::ensure!(id > size, "a write to a file of {} bytes has the id {}", size, id);
                size = id;
                blobs.push((id, d));
                ctx.stat("ev.foreign_written", 1);
            }
        }
    }
    // nothing may have happened to what was there
    let len = file.metadata().map_err(es("metadata"))?.len();
    crate::ensure!(len >= size + HEADER, "a file with {} bytes of blobs has a length of {} afterwards", size, len);
    for (id, d) in &blobs {
        let mut b = vec![0u8; d.len() + 4];
        let at = HEADER + id - b.len() as u64;
        file.read_exact_at(&mut b, at).map_err(es("read of the file"))?;
        crate::ensure!(b[..d.len()] == d[..] && b[d.len()..] == (d.len() as u32).to_be_bytes(), "blob {} of a file of {} bytes was damaged: {}", id, size, hex(&b));
        ctx.stat("ev.foreign_blob_kept", 1);
    }
    ctx.nontrivial = big;
    Ok(())
}

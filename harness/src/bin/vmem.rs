//! C20: every byte, mapping and file handle is released exactly once.
//!
//! The allocator of this program counts live blocks and bytes and marks every block, so that a second release or
//! a release with another size is noticed at once. The suites of the other properties are the workload: a case of
//! one of them is run between two readings of the counters. Only one case runs at a time in a process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use vharness::ctx::{Ctx, R};
use vharness::run::{self, guarded, CaseFn};
use vharness::{blobs::*, callbacks::*, corrupt::*, ensure, fail, faults::*, stored::*, stores::*, suites::*, threads::*};

struct Counting;

static BLOCKS: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);
static FREES: AtomicU64 = AtomicU64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);

const LIVE: u64 = 0x5afe_b10c_a11c_a7ed;
const DEAD: u64 = 0xdead_b10c_f4ee_d000;

/// the block is preceded by its size and a mark
fn pad(l: &Layout) -> usize {
    l.align().max(16)
}

#[cold]
fn die(text: &str, p: *mut u8, l: Layout) -> ! {
    // no allocation here
    use std::io::Write;
    let mut b = [0u8; 256];
    let n = {
        let mut c = std::io::Cursor::new(&mut b[..]);
        let _ = writeln!(c, "error: {} (block {:?}, size {}, align {})", text, p, l.size(), l.align());
        c.position() as usize
    };
    unsafe {
        libc::write(1, b.as_ptr() as *const libc::c_void, n);
        libc::abort()
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let k = pad(&l);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + k, k));
        if p.is_null() {
            return p;
        }
        BLOCKS.fetch_add(1, SeqCst);
        BYTES.fetch_add(l.size() as i64, SeqCst);
        TOTAL.fetch_add(l.size() as u64, SeqCst);
        let q = p.add(k);
        *(q as *mut u64).sub(1) = LIVE;
        *(q as *mut u64).sub(2) = l.size() as u64 ^ (l.align() as u64) << 48;
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let k = pad(&l);
        let mark = (q as *mut u64).sub(1);
        if *mark != LIVE {
            die(if *mark == DEAD { "a block was released twice" } else { "something that is no block was released" }, q, l);
        }
        if *(q as *mut u64).sub(2) != l.size() as u64 ^ (l.align() as u64) << 48 {
            die("a block was released with another size or alignment than it was allocated with", q, l);
        }
        *mark = DEAD;
        BLOCKS.fetch_sub(1, SeqCst);
        BYTES.fetch_sub(l.size() as i64, SeqCst);
        FREES.fetch_add(1, SeqCst);
        System.dealloc(q.sub(k), Layout::from_size_align_unchecked(l.size() + k, k));
    }
}

#[global_allocator]
static A: Counting = Counting;

/// (weight, suite)
const INNER: &[(u32, &str, CaseFn)] = &[
    (4, "inner.c01", c01),
    (3, "inner.c02", c02),
    (4, "inner.c03", c03),
    (4, "inner.c04", c04),
    (6, "inner.c05", c05),
    (2, "inner.c06", c06),
    (4, "inner.c07", c07),
    (6, "inner.c08", c08),
    (2, "inner.c09", c09),
    (4, "inner.c10", c10),
    (2, "inner.c12", c12),
    (4, "inner.c13", c13),
    (4, "inner.c14", c14),
    (3, "inner.c17", c17),
    (4, "inner.c18", c18),
    (5, "inner.c21", c21),
    (5, "inner.c22", c22),
    (6, "inner.c25", c25),
];

/// copied out of the inner context without allocating
struct Copy {
    stats: [(&'static str, u64); 160],
    n: usize,
    ops: u64,
    sig: u64,
    nontrivial: bool,
    failed: bool,
}

fn inner(ctx: &Ctx, f: CaseFn, seed: u64, out: &mut Copy) {
    let mut c = Ctx::new(seed, ctx.index);
    c.small = ctx.small;
    c.thorough = ctx.thorough;
    let r = guarded(|| f(&mut c));
    out.failed = !matches!(r, Ok(Ok(())));
    out.ops = c.ops;
    out.sig = c.sig.0;
    out.nontrivial = c.nontrivial;
    out.n = 0;
    for (k, v) in &c.stats {
        if out.n < out.stats.len() {
            out.stats[out.n] = (k, *v);
            out.n += 1;
        }
    }
    drop(r);
    drop(c);
    // forget the text of a caught panic
    let _ = guarded(|| ());
}

/// (mappings, handles) of files made by the suites
fn files() -> (usize, usize) {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default().lines().filter(|l| l.contains("memfd:verif")).count();
    let mut fds = 0;
    if let Ok(d) = std::fs::read_dir("/proc/self/fd") {
        for e in d.flatten() {
            if let Ok(p) = std::fs::read_link(e.path()) {
                fds += p.to_string_lossy().contains("memfd:verif") as usize;
            }
        }
    }
    (maps, fds)
}

fn c20(ctx: &mut Ctx) -> R {
    let total: u32 = INNER.iter().map(|x| x.0).sum();
    let mut x = ctx.rng.below(total as usize) as u32;
    let mut k = 0;
    while x >= INNER[k].0 {
        x -= INNER[k].0;
        k += 1;
    }
    balance(ctx, INNER[k].1, INNER[k].2)
}

/// only cases of C25
fn c25_leak(ctx: &mut Ctx) -> R {
    balance(ctx, "inner.c25", c25)
}

fn balance(ctx: &mut Ctx, name: &'static str, f: CaseFn) -> R {
    let seed = ctx.rng.next();
    if ctx.verbose {
        let mut c = Ctx::new(seed, ctx.index);
        c.verbose = true;
        c.small = ctx.small;
        c.thorough = ctx.thorough;
        let r = guarded(|| f(&mut c));
        ctx.trace.push(format!("a case of suite {}: {:?}", name, r));
        ctx.trace.extend(c.trace);
    }
    let threads = name == "inner.c17" || name == "inner.c18";
    let mut copy = Copy { stats: [("", 0); 160], n: 0, ops: 0, sig: 0, nontrivial: false, failed: false };
    let frees = FREES.load(SeqCst);
    let mut bad = Vec::new();
    let mut map_bad = Vec::new();
    // a difference counts when it comes back: some things are allocated once by the runtime
    for attempt in 0..if threads { 40 } else { 4 } {
        let m0 = files();
        let b0 = BLOCKS.load(SeqCst);
        let y0 = BYTES.load(SeqCst);
        inner(ctx, f, seed, &mut copy);
        let b1 = BLOCKS.load(SeqCst);
        let y1 = BYTES.load(SeqCst);
        let m1 = files();
        if attempt == 0 {
            for (k, v) in &copy.stats[..copy.n] {
                if k.starts_with("max.") {
                    ctx.max(k, *v);
                } else {
                    ctx.stat(k, *v);
                }
            }
            ctx.ops += copy.ops;
            ctx.sig.num(copy.sig);
            ctx.nontrivial = copy.nontrivial;
            ctx.stat(name, 1);
        }
        if copy.failed {
            // not this property
            ctx.stat("ev.inner_failed", 1);
            return Ok(());
        }
        if copy.stats[..copy.n].iter().any(|x| x.0 == "ev.panics" && x.1 > 0) {
            // unwinding through code that was handed damaged data: nothing is promised then
            ctx.stat("ev.with_panics", 1);
            return Ok(());
        }
        if m0 != m1 {
            map_bad.push(format!("{} mappings and {} handles of files before, {} and {} after", m0.0, m0.1, m1.0, m1.1));
        }
        if b0 != b1 || y0 != y1 {
            bad.push(format!("{} blocks ({} bytes) more after the case than before", b1 - b0, y1 - y0));
        }
        if bad.is_empty() && map_bad.is_empty() {
            break;
        }
        if bad.len() >= 3 || map_bad.len() >= 3 {
            break;
        }
    }
    ensure!(map_bad.len() < 3, "{} (after all handles were dropped; a case of suite {})", map_bad[0], &name[6..]);
    ensure!(bad.len() < 3, "{} (after all handles were dropped; a case of suite {})", bad[0], &name[6..]);
    ctx.stat("ev.balanced", 1);
    ctx.stat("ev.blocks_released", FREES.load(SeqCst) - frees);
    Ok(())
}

/// the monitor notices what it should notice
fn selftest(ctx: &mut Ctx) -> R {
    let b0 = BLOCKS.load(SeqCst);
    let y0 = BYTES.load(SeqCst);
    let v: Vec<u8> = Vec::with_capacity(77);
    ensure!(BLOCKS.load(SeqCst) == b0 + 1 && BYTES.load(SeqCst) == y0 + 77, "an allocation is not counted");
    drop(v);
    ensure!(BLOCKS.load(SeqCst) == b0 && BYTES.load(SeqCst) == y0, "a release is not counted");
    let f = tmpfile();
    let m = files();
    if m.1 != 1 {
        fail!("an open file is not seen: {:?}", m);
    }
    let s = radixdb::store::PagedFileStore::new(f, 4096).map_err(|e| e.to_string())?;
    use radixdb::store::BlobStore;
    let id = s.write(&[1; 4000]).map_err(|e| e.to_string())?;
    s.write(&[2; 4000]).map_err(|e| e.to_string())?;
    let b = s.read(&id).map_err(|e| e.to_string())?;
    let m = files();
    ensure!(m.0 >= 1, "a mapping is not seen: {:?}", m);
    drop((s, b));
    ensure!(files() == (0, 0), "files after drop: {:?}", files());
    ctx.stat("ev.selftest", 1);
    ctx.nontrivial = true;
    Ok(())
}

fn main() {
    let _ = vharness::cost::METER.set(|| (TOTAL.load(SeqCst), BYTES.load(SeqCst)));
    std::process::exit(run::main(&[("c20", c20), ("c25_leak", c25_leak), ("c27", vharness::cost::c27), ("c27_store", vharness::cost::c27_store), ("selftest", selftest)]));
}

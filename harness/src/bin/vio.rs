//! C15 and C16: file operations of the paged file store recorded, cut off, and made to fail.
//!
//! The libc functions that touch files are replaced by versions that do the raw system call, and that record
//! or fail it when it concerns the file under observation (by inode) of the current thread.
use libc::{c_char, c_int, c_void, iovec, mode_t, off64_t, off_t, size_t, ssize_t};
use radixdb::store::{BlobStore, PagedFileStore};
use std::cell::RefCell;
use std::fs::File;
use std::os::fd::AsRawFd;
use std::os::unix::fs::FileExt;
use vharness::ctx::{es, hex, Ctx, R};
use vharness::run::{self, guarded};
use vharness::stores::{data, fill, page_size};
use vharness::suites::tmpfile;
use vharness::{ensure, fail};

#[derive(Clone, Debug, PartialEq)]
enum Eff {
    Write(u64, Vec<u8>),
    Len(u64),
    Sync,
    /// marks of the harness: start and end of a call
    Mark(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Read,
    Write,
    Seek,
    Len,
    Sync,
    Map,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Errno(c_int),
    /// do only half of it
    Short,
    /// do nothing and return 0
    Zero,
}

#[derive(Clone, Copy, Debug)]
struct Plan {
    /// which call (counted from 0)
    at: usize,
    fault: Fault,
    /// fail later calls of the same kind as well (with this error)
    later: Option<c_int>,
}

#[derive(Default)]
struct State {
    ino: (u64, u64),
    recording: bool,
    effects: Vec<Eff>,
    calls: Vec<(Kind, usize, bool)>,
    plan: Option<Plan>,
    hits: usize,
    kind: Option<Kind>,
    /// something the harness cannot model
    strange: Option<String>,
}

thread_local! {
    static ST: RefCell<State> = RefCell::new(State::default());
}

unsafe fn errno(e: c_int) {
    *libc::__errno_location() = e;
}

fn tracked(fd: c_int) -> bool {
    ST.try_with(|s| {
        let Ok(s) = s.try_borrow() else { return false };
        if s.ino == (0, 0) {
            return false;
        }
        ino(fd) == Some(s.ino)
    })
    .unwrap_or(false)
}

fn ino(fd: c_int) -> Option<(u64, u64)> {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    let r = unsafe { libc::syscall(libc::SYS_fstat, fd, &mut st as *mut libc::stat) };
    if r == 0 {
        Some((st.st_dev as u64, st.st_ino as u64))
    } else {
        None
    }
}

fn size_of(fd: c_int) -> u64 {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    unsafe { libc::syscall(libc::SYS_fstat, fd, &mut st as *mut libc::stat) };
    st.st_size as u64
}

/// count a call and decide about a fault
fn decide(kind: Kind, len: usize, header: bool) -> Option<Fault> {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let n = s.calls.len();
        s.calls.push((kind, len, header));
        let p = s.plan?;
        if n == p.at {
            s.hits += 1;
            s.kind = Some(kind);
            return Some(p.fault);
        }
        if n > p.at && p.later.is_some() && s.kind == Some(kind) {
            s.hits += 1;
            return Some(Fault::Errno(p.later.unwrap()));
        }
        None
    })
}

fn effect(e: Eff) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        if s.recording {
            s.effects.push(e);
        }
    })
}

fn strange(t: &str) {
    ST.with(|s| s.borrow_mut().strange = Some(t.to_string()))
}

unsafe fn sys_ret(r: libc::c_long) -> ssize_t {
    // libc::syscall sets errno itself
    r as ssize_t
}

unsafe fn position(fd: c_int) -> u64 {
    libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR) as u64
}

unsafe fn append_pos(fd: c_int, off: u64) -> u64 {
    let fl = libc::syscall(libc::SYS_fcntl, fd, libc::F_GETFL);
    if fl & libc::O_APPEND as libc::c_long != 0 {
        size_of(fd)
    } else {
        off
    }
}

unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t, off: Option<u64>) -> ssize_t {
    if !tracked(fd) {
        return match off {
            None => sys_ret(libc::syscall(libc::SYS_write, fd, buf, n)),
            Some(o) => sys_ret(libc::syscall(libc::SYS_pwrite64, fd, buf, n, o)),
        };
    }
    let at = append_pos(fd, off.unwrap_or_else(|| position(fd)));
    // the size field in the header is overwritten in place: 8 bytes of one sector, all or nothing
    let header = at < 4096 && n <= 8;
    let mut m = n;
    match decide(Kind::Write, n, header) {
        Some(Fault::Errno(e)) => {
            errno(e);
            return -1;
        }
        Some(Fault::Zero) => return 0,
        Some(Fault::Short) if n > 1 => m = n / 2,
        _ => {}
    }
    let r = match off {
        None => libc::syscall(libc::SYS_write, fd, buf, m),
        Some(o) => libc::syscall(libc::SYS_pwrite64, fd, buf, m, o),
    };
    if r > 0 {
        effect(Eff::Write(at, std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec()));
    }
    r as ssize_t
}

unsafe fn do_read(fd: c_int, buf: *mut c_void, n: size_t, off: Option<u64>) -> ssize_t {
    let mut m = n;
    if tracked(fd) {
        match decide(Kind::Read, n, false) {
            Some(Fault::Errno(e)) => {
                errno(e);
                return -1;
            }
            Some(Fault::Zero) => return 0,
            Some(Fault::Short) if n > 1 => m = n / 2,
            _ => {}
        }
    }
    match off {
        None => sys_ret(libc::syscall(libc::SYS_read, fd, buf, m)),
        Some(o) => sys_ret(libc::syscall(libc::SYS_pread64, fd, buf, m, o)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    do_write(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, o: off_t) -> ssize_t {
    do_write(fd, buf, n, Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    do_write(fd, buf, n, Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if !tracked(fd) {
        return sys_ret(libc::syscall(libc::SYS_writev, fd, v, n));
    }
    // as one write (the parts of a writev are not separable by a crash any more than those of a write)
    let mut all = Vec::new();
    for i in 0..n as usize {
        let v = &*v.add(i);
        if v.iov_len > 0 {
            all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
    }
    do_write(fd, all.as_ptr() as *const c_void, all.len(), None)
}
unsafe fn gather(v: *const iovec, n: c_int) -> Vec<u8> {
    let mut all = Vec::new();
    for i in 0..n as usize {
        let v = &*v.add(i);
        if v.iov_len > 0 {
            all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
        }
    }
    all
}
#[no_mangle]
pub unsafe extern "C" fn pwritev(fd: c_int, v: *const iovec, n: c_int, o: off_t) -> ssize_t {
    let all = gather(v, n);
    do_write(fd, all.as_ptr() as *const c_void, all.len(), Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn pwritev64(fd: c_int, v: *const iovec, n: c_int, o: off64_t) -> ssize_t {
    let all = gather(v, n);
    do_write(fd, all.as_ptr() as *const c_void, all.len(), Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    do_read(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, o: off_t) -> ssize_t {
    do_read(fd, buf, n, Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    do_read(fd, buf, n, Some(o as u64))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if n == 0 {
        return 0;
    }
    if !tracked(fd) {
        return sys_ret(libc::syscall(libc::SYS_readv, fd, v, n));
    }
    // the first non-empty part; a short read is allowed
    for i in 0..n as usize {
        let v = &*v.add(i);
        if v.iov_len > 0 {
            return do_read(fd, v.iov_base, v.iov_len, None);
        }
    }
    0
}
unsafe fn do_seek(fd: c_int, o: off64_t, w: c_int) -> off64_t {
    if tracked(fd) {
        if let Some(Fault::Errno(e)) = decide(Kind::Seek, 0, false) {
            errno(e);
            return -1;
        }
    }
    libc::syscall(libc::SYS_lseek, fd, o, w) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, o: off_t, w: c_int) -> off_t {
    do_seek(fd, o, w)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: off64_t, w: c_int) -> off64_t {
    do_seek(fd, o, w)
}
unsafe fn do_trunc(fd: c_int, len: off64_t) -> c_int {
    if tracked(fd) {
        if let Some(Fault::Errno(e)) = decide(Kind::Len, 0, false) {
            errno(e);
            return -1;
        }
        let r = libc::syscall(libc::SYS_ftruncate, fd, len);
        if r == 0 {
            effect(Eff::Len(len as u64));
        }
        return r as c_int;
    }
    libc::syscall(libc::SYS_ftruncate, fd, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    do_trunc(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    do_trunc(fd, len)
}
unsafe fn do_alloc(fd: c_int, mode: c_int, o: off64_t, len: off64_t) -> c_int {
    if tracked(fd) {
        if let Some(Fault::Errno(e)) = decide(Kind::Len, 0, false) {
            errno(e);
            return -1;
        }
        let r = libc::syscall(libc::SYS_fallocate, fd, mode, o, len);
        if r == 0 {
            if mode == 0 {
                let end = (o + len) as u64;
                effect(Eff::Len(size_of(fd).max(end)));
            } else if mode & !libc::FALLOC_FL_KEEP_SIZE != 0 {
                strange("fallocate with a mode");
            }
        }
        return r as c_int;
    }
    libc::syscall(libc::SYS_fallocate, fd, mode, o, len) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, o: off_t, len: off_t) -> c_int {
    do_alloc(fd, mode, o, len)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, o: off64_t, len: off64_t) -> c_int {
    do_alloc(fd, mode, o, len)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate(fd: c_int, o: off_t, len: off_t) -> c_int {
    if do_alloc(fd, 0, o, len) == 0 {
        0
    } else {
        *libc::__errno_location()
    }
}
unsafe fn do_sync(fd: c_int, nr: libc::c_long) -> c_int {
    if tracked(fd) {
        if let Some(Fault::Errno(e)) = decide(Kind::Sync, 0, false) {
            errno(e);
            return -1;
        }
        effect(Eff::Sync);
        return 0;
    }
    libc::syscall(nr, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_syncfs)
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    if ST.try_with(|s| s.try_borrow().map(|s| s.ino != (0, 0)).unwrap_or(false)).unwrap_or(false) {
        effect(Eff::Sync);
    }
}
unsafe fn do_map(a: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    if fd >= 0 && tracked(fd) {
        if let Some(Fault::Errno(e)) = decide(Kind::Map, n, false) {
            errno(e);
            return libc::MAP_FAILED;
        }
        if prot & libc::PROT_WRITE != 0 && flags & libc::MAP_SHARED != 0 {
            strange("writable shared mapping");
        }
    }
    libc::syscall(libc::SYS_mmap, a, n, prot, flags, fd, o) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, o: off_t) -> *mut c_void {
    do_map(a, n, prot, flags, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    do_map(a, n, prot, flags, fd, o)
}
// keep the types used above referenced
#[allow(dead_code)]
type Unused = (*const c_char, mode_t);

// ------------------------------------------------------------------ driving

fn track(f: &File, recording: bool) {
    let i = ino(f.as_raw_fd()).unwrap();
    ST.with(|s| {
        *s.borrow_mut() = State {
            ino: i,
            recording,
            ..Default::default()
        }
    })
}
fn untrack() -> State {
    ST.with(|s| std::mem::take(&mut *s.borrow_mut()))
}

fn contents(f: &File) -> Vec<u8> {
    let len = f.metadata().unwrap().len();
    let mut v = vec![0u8; len as usize];
    f.read_exact_at(&mut v, 0).unwrap();
    v
}

fn apply(img: &mut Vec<u8>, e: &Eff) {
    match e {
        Eff::Write(o, d) => {
            let end = *o as usize + d.len();
            if img.len() < end {
                img.resize(end, 0);
            }
            img[*o as usize..end].copy_from_slice(d);
        }
        Eff::Len(n) => img.resize(*n as usize, 0),
        Eff::Sync | Eff::Mark(_) => {}
    }
}

fn file_of(img: &[u8]) -> File {
    let f = tmpfile();
    f.write_all_at(img, 0).unwrap();
    f
}

#[derive(Clone, Debug)]
enum Act {
    Open,
    Write(Vec<u8>),
    Sync,
    Read(usize),
}

/// a completed blob and the index of the effect after which its write had returned
type Blobs = Vec<(Vec<u8>, Vec<u8>)>;

fn acts(ctx: &mut Ctx, ps: u64, n: usize) -> Vec<Act> {
    let mut v = vec![Act::Open];
    let mut writes = 0usize;
    let mut at = 0u64;
    for _ in 0..n {
        match ctx.rng.below(12) {
            0 => v.push(Act::Open),
            1 => v.push(Act::Sync),
            2 if writes > 0 => v.push(Act::Read(ctx.rng.below(writes))),
            3 => {
                // fill the page as far as it goes
                let left = (ps - at % ps).saturating_sub(4 + ctx.rng.below(3) as u64);
                let len = left.min(ps - 8) as usize;
                v.push(Act::Write(fill(ctx, len)));
                writes += 1;
                at += len as u64 + 4;
            }
            _ => {
                let d = data(ctx, Some(ps));
                let len = d.len() as u64 + 4;
                if at / ps != (at + len) / ps {
                    at = (at / ps + 1) * ps;
                }
                at += len;
                v.push(Act::Write(d));
                writes += 1;
            }
        }
    }
    v
}

fn describe(ctx: &mut Ctx, ps: u64, v: &[Act]) {
    ctx.op("op.page_size", &ps.to_be_bytes(), || format!("{}", ps));
    for a in v {
        match a {
            Act::Open => ctx.op("op.open", &[], || String::new()),
            Act::Write(d) => ctx.op("op.write", &(d.len() as u32).to_be_bytes(), || hex(d)),
            Act::Sync => ctx.op("op.sync", &[], || String::new()),
            Act::Read(k) => ctx.op("op.read", &(*k as u32).to_be_bytes(), || String::new()),
        }
    }
}

/// reopening a crashed file; `done`: blobs that must be there, `maybe`: the write in progress
fn check_image(ctx: &mut Ctx, img: &[u8], ps: u64, done: &Blobs, maybe: Option<&(Vec<u8>, Vec<u8>)>, strict_last: bool) -> R<File> {
    let f = file_of(img);
    let s = match guarded(|| PagedFileStore::new(f.try_clone().unwrap(), ps)) {
        Err(p) => fail!("reopening: {}", p),
        Ok(r) => r.map_err(es("reopening"))?,
    };
    check_open(ctx, &s, done, maybe, strict_last)?;
    // writing continues normally
    let mut all = done.clone();
    if let (Some(m), Some(l)) = (maybe, s.last_id()) {
        if m.0[..] == l[..] {
            all.push(m.clone());
        }
    }
    for _ in 0..2 {
        let d = fill(ctx, (ps as usize - 8).min(3 + all.len() % 7));
        let id = guarded(|| s.write(&d)).map_err(|p| format!("writing after reopening: {}", p))?.map_err(es("writing after reopening"))?;
        ensure!(!all.iter().any(|x| x.0 == id), "a write after reopening returned the id {} of an older blob", hex(&id));
        all.push((id, d));
    }
    let l = s.last_id().map(|x| x.to_vec());
    ensure!(l.as_ref() == all.last().map(|x| &x.0), "last_id is {:?} after a write", l.map(|x| hex(&x)));
    check_reads(&s, &all)?;
    drop(s);
    if ctx.rng.chance(1, 4) {
        let s = PagedFileStore::new(f.try_clone().unwrap(), ps).map_err(es("reopening again"))?;
        let l = s.last_id().map(|x| x.to_vec());
        ensure!(l.as_ref() == all.last().map(|x| &x.0), "last_id is {:?} after reopening again", l.map(|x| hex(&x)));
        check_reads(&s, &all)?;
    }
    Ok(f)
}

fn check_reads(s: &PagedFileStore, all: &Blobs) -> R {
    for (id, d) in all {
        let b = guarded(|| s.read(id)).map_err(|p| format!("reading {}: {}", hex(id), p))?.map_err(|e| format!("reading {}: {}", hex(id), e))?;
        ensure!(b[..] == d[..], "blob {} reads {} instead of {}", hex(id), hex(&b), hex(d));
    }
    Ok(())
}

fn check_open(ctx: &mut Ctx, s: &PagedFileStore, done: &Blobs, maybe: Option<&(Vec<u8>, Vec<u8>)>, strict_last: bool) -> R {
    let l = s.last_id().map(|x| x.to_vec());
    if strict_last {
        let a = done.last().map(|x| &x.0);
        if l.as_ref() == a {
            ctx.stat("ev.last_is_completed", 1);
        } else {
            match (maybe, &l) {
                (Some((id, d)), Some(l)) if l == id => {
                    let b = guarded(|| s.read(l)).map_err(|p| format!("reading last_id: {}", p))?.map_err(es("reading last_id"))?;
                    ensure!(b[..] == d[..], "the blob of last_id is {} instead of {}", hex(&b), hex(d));
                    ctx.stat("ev.last_is_in_progress", 1);
                }
                _ => fail!(
                    "last_id is {:?}, neither the last completed write {:?} nor the one in progress {:?}",
                    l.map(|x| hex(&x)),
                    a.map(|x| hex(x)),
                    maybe.map(|x| hex(&x.0))
                ),
            }
        }
    } else if let Some(l) = l {
        // after a power failure: whatever it is, using it must not panic
        guarded(|| s.read(&l).map(|_| ())).map_err(|p| format!("reading last_id: {}", p))?.ok();
    }
    check_reads(s, done)
}

pub fn c15(ctx: &mut Ctx) -> R {
    let ps = loop {
        let p = page_size(ctx);
        if p <= 65536 {
            break p;
        }
    };
    let n = ctx.rng.range(2, 14);
    let v = acts(ctx, ps, n);
    describe(ctx, ps, &v);
    let how = ctx.rng.below(7) as u64;
    ctx.op("op.handles", &[how as u8], || format!("{}", how));
    let file = tmpfile();
    track(&file, true);
    let r = record(&file, ps, &v, how);
    let st = untrack();
    let (marks, blobs) = r?;
    if let Some(x) = st.strange {
        fail!("harness: cannot model: {}", x);
    }
    // the effects explain the file
    let mut img = Vec::new();
    for e in &st.effects {
        apply(&mut img, e);
    }
    ensure!(img == contents(&file), "harness: the recorded effects do not explain the file");
    ctx.stat("ev.effects", st.effects.iter().filter(|e| !matches!(e, Eff::Mark(_))).count() as u64);
    ctx.nontrivial = blobs.len() >= 2;
    // process death between any two effects
    let mut img = Vec::new();
    let mut done = 0; // blobs completed
    let mut cur: Option<usize> = None; // write in progress
    let mut synced: Option<(usize, Vec<u8>, usize)> = None; // effect index, image, blobs
    let mut syncing = 0;
    for (k, e) in st.effects.iter().enumerate() {
        let what = |x: String| format!("{} (process died after effect {} of {})", x, k, st.effects.len());
        match e {
            Eff::Mark(m) => {
                let (what, is_start) = marks[*m];
                match (what, is_start) {
                    (Some(b), true) => cur = Some(b),
                    (Some(b), false) => {
                        cur = None;
                        done = b + 1;
                    }
                    (None, true) => syncing = done,
                    (None, false) => {
                        // sync returned: everything before must have been forced out
                        let j = (0..k).rev().find(|j| st.effects[*j] == Eff::Sync);
                        let mut base = Vec::new();
                        if let Some(j) = j {
                            for e in &st.effects[..j] {
                                apply(&mut base, e);
                            }
                        }
                        synced = Some((j.map(|x| x + 1).unwrap_or(0), base, syncing));
                        ctx.stat("ev.syncs", 1);
                    }
                }
                // the state right after a write returned is examined before the next effect
                continue;
            }
            Eff::Write(o, d) if d.len() > 8 && ctx.rng.chance(1, 2) => {
                // torn write
                let cut = ctx.rng.range(1, d.len() - 1);
                let mut i2 = img.clone();
                apply(&mut i2, &Eff::Write(*o, d[..cut].to_vec()));
                check_image(ctx, &i2, ps, &blobs[..done].to_vec(), cur.map(|c| &blobs[c]), true).map_err(|x| format!("{}, in the middle of the next write", what(x)))?;
                ctx.stat("ev.torn_writes", 1);
            }
            _ => {}
        }
        check_image(ctx, &img, ps, &blobs[..done].to_vec(), cur.map(|c| &blobs[c]), true).map_err(what)?;
        ctx.stat("ev.crash_points", 1);
        if cur.is_some() {
            ctx.stat("ev.crash_points_inside_write", 1);
        }
        if ctx.rng.chance(1, 8) {
            recovery_crash(ctx, &img, ps, &blobs[..done].to_vec(), cur.map(|c| &blobs[c])).map_err(what)?;
        }
        apply(&mut img, e);
        // power failure: the unforced effects are lost in any combination
        if let Some((from, base, nb)) = &synced {
            let rest: Vec<&Eff> = st.effects[*from..=k].iter().filter(|e| !matches!(e, Eff::Mark(_))).collect();
            let tries = if rest.len() <= 2 { 1 << rest.len() } else { 3 };
            for t in 0..tries {
                let mut i2 = base.clone();
                let style = ctx.rng.below(3);
                for (j, e) in rest.iter().enumerate() {
                    let keep = if rest.len() <= 2 {
                        t >> j & 1 == 1
                    } else {
                        match style {
                            // the header alone, everything but the header, any
                            0 => matches!(e, Eff::Write(o, _) if *o < 4096),
                            1 => !matches!(e, Eff::Write(o, _) if *o < 4096) && ctx.rng.chance(3, 4),
                            _ => ctx.rng.chance(1, 2),
                        }
                    };
                    if !keep {
                        continue;
                    }
                    match e {
                        Eff::Write(o, d) if d.len() > 8 && ctx.rng.chance(1, 3) => {
                            // some of its sectors
                            let mut p = 0;
                            while p < d.len() {
                                let end = ((*o as usize + p) / 512 * 512 + 512 - *o as usize).min(d.len());
                                if ctx.rng.chance(1, 2) {
                                    apply(&mut i2, &Eff::Write(*o + p as u64, d[p..end].to_vec()));
                                }
                                p = end;
                            }
                        }
                        _ => apply(&mut i2, e),
                    }
                }
                let f = file_of(&i2);
                let w = |x: String| format!("{} (power failed {} effects after sync)", x, rest.len());
                let s = guarded(|| PagedFileStore::new(f.try_clone().unwrap(), ps)).map_err(|p| w(format!("reopening: {}", p)))?.map_err(es("reopening")).map_err(w)?;
                check_open(ctx, &s, &blobs[..*nb].to_vec(), None, false).map_err(w)?;
                ctx.stat("ev.power_failures", 1);
                ctx.stat("ev.blobs_survived_power_failure", *nb as u64);
            }
        }
    }
    check_image(ctx, &img, ps, &blobs, None, true).map_err(|x| format!("{} (at the end)", x))?;
    Ok(())
}

/// dying again while the crashed file is being opened or continued
fn recovery_crash(ctx: &mut Ctx, img: &[u8], ps: u64, done: &Blobs, maybe: Option<&(Vec<u8>, Vec<u8>)>) -> R {
    let f = file_of(img);
    track(&f, true);
    let r = guarded(|| -> anyhow::Result<_> {
        let s = PagedFileStore::new(f.try_clone().unwrap(), ps)?;
        let l = s.last_id();
        Ok(l)
    });
    let st = untrack();
    let l = r?.map_err(es("reopening"))?;
    let mut done = done.clone();
    let mut maybe = maybe;
    if let (Some(m), Some(l)) = (maybe, l) {
        if m.0[..] == l[..] {
            done.push(m.clone());
            maybe = None;
        }
    }
    let mut i2 = img.to_vec();
    for e in &st.effects {
        check_image(ctx, &i2, ps, &done, maybe, true).map_err(|x| format!("{} (died again while reopening)", x))?;
        ctx.stat("ev.crash_in_recovery", 1);
        apply(&mut i2, e);
    }
    check_image(ctx, &i2, ps, &done, maybe, true).map_err(|x| format!("{} (died again after reopening)", x))?;
    ctx.stat("ev.crash_in_recovery", 1);
    Ok(())
}

/// several handles of one store, used in turn
struct Handles {
    h: Vec<vharness::stores::Any>,
    _tree: Option<radixdb::RadixTree<radixdb::store::DynBlobStore>>,
    n: usize,
}
impl Handles {
    fn new(s: PagedFileStore, how: u64) -> Self {
        use vharness::stores::Any;
        let d: radixdb::store::DynBlobStore = std::sync::Arc::new(s.clone());
        let mut tree = None;
        let h = match how {
            0 => vec![Any::Paged(s)],
            1 => vec![Any::Paged(s.clone()), Any::Paged(s)],
            2 => {
                drop(s);
                vec![Any::MemDyn(d)]
            }
            3 => vec![Any::MemDyn(d.clone()), Any::MemDyn(d)],
            4 => vec![Any::MemDyn(d), Any::Paged(s)],
            5 => {
                // a tree over the store
                tree = Some(radixdb::RadixTree::empty(d.clone()));
                vec![Any::MemDyn(d)]
            }
            _ => {
                let t = radixdb::RadixTree::empty(d.clone());
                tree = Some(t.clone());
                vec![Any::MemDyn(d), Any::Paged(s.clone()), Any::MemDyn(std::sync::Arc::new(s))]
            }
        };
        Handles { h, _tree: tree, n: 0 }
    }
    fn next(&mut self) -> &vharness::stores::Any {
        self.n += 1;
        &self.h[self.n % self.h.len()]
    }
}

/// run the acts; the marks say what starts or ends (Some(blob) or None for sync)
/// (`how`: through which handles)
fn record(file: &File, ps: u64, v: &[Act], how: u64) -> R<(Vec<(Option<usize>, bool)>, Blobs)> {
    let mut marks = Vec::new();
    let mut blobs: Blobs = Vec::new();
    let mut s: Option<Handles> = None;
    let mut mark = |m: (Option<usize>, bool)| {
        effect(Eff::Mark(marks.len()));
        marks.push(m);
    };
    for a in v {
        match a {
            Act::Open => {
                drop(s.take());
                s = Some(Handles::new(PagedFileStore::new(file.try_clone().unwrap(), ps).map_err(es("open"))?, how));
            }
            Act::Write(d) => {
                mark((Some(blobs.len()), true));
                let id = s.as_mut().unwrap().next().write(d).map_err(es("write"))?;
                blobs.push((id, d.clone()));
                mark((Some(blobs.len() - 1), false));
            }
            Act::Sync => {
                mark((None, true));
                s.as_mut().unwrap().next().sync().map_err(es("sync"))?;
                mark((None, false));
            }
            Act::Read(k) => {
                let (id, d) = &blobs[*k];
                let b = s.as_mut().unwrap().next().read(id).map_err(es("read"))?;
                ensure!(b[..] == d[..], "blob {} reads {}", hex(id), hex(&b));
            }
        }
    }
    Ok((marks, blobs))
}

// ------------------------------------------------------------------ C16

const ERRS: &[(Kind, &[Fault])] = &[
    (Kind::Write, &[Fault::Errno(libc::ENOSPC), Fault::Errno(libc::EIO), Fault::Short, Fault::Zero, Fault::Errno(libc::EINTR)]),
    (Kind::Read, &[Fault::Errno(libc::EIO), Fault::Short, Fault::Zero, Fault::Errno(libc::EINTR)]),
    (Kind::Seek, &[Fault::Errno(libc::EIO)]),
    (Kind::Len, &[Fault::Errno(libc::ENOSPC), Fault::Errno(libc::EIO)]),
    (Kind::Sync, &[Fault::Errno(libc::EIO), Fault::Errno(libc::ENOSPC)]),
    (Kind::Map, &[Fault::Errno(libc::ENOMEM), Fault::Errno(libc::EAGAIN)]),
];

struct Live {
    s: Option<PagedFileStore>,
    blobs: Blobs,
    /// writes that failed: their bytes (they may have taken effect)
    lost: Vec<Vec<u8>>,
    held: Vec<(radixdb::store::Blob<'static>, Vec<u8>)>,
}

/// one act; Ok(Err) is an error reported by the store
fn act(l: &mut Live, file: &File, ps: u64, a: &Act) -> R<Result<(), String>> {
    let short = |e: anyhow::Error| format!("{}", e);
    match a {
        Act::Open => {
            drop(l.s.take());
            match PagedFileStore::new(file.try_clone().unwrap(), ps) {
                Ok(s) => {
                    l.s = Some(s);
                    Ok(Ok(()))
                }
                Err(e) => Ok(Err(short(e))),
            }
        }
        Act::Write(d) => match l.s.as_ref().unwrap().write(d) {
            Ok(id) => {
                ensure!(!l.blobs.iter().any(|x| x.0 == id), "write returned id {} a second time", hex(&id));
                l.blobs.push((id, d.clone()));
                Ok(Ok(()))
            }
            Err(e) => {
                l.lost.push(d.clone());
                Ok(Err(short(e)))
            }
        },
        Act::Sync => Ok(l.s.as_ref().unwrap().sync().map_err(short)),
        Act::Read(k) => {
            let Some((id, d)) = l.blobs.get(*k % l.blobs.len().max(1)) else { return Ok(Ok(())) };
            match l.s.as_ref().unwrap().read(id) {
                Ok(b) => {
                    ensure!(b[..] == d[..], "blob {} reads {} instead of {}", hex(id), hex(&b), hex(d));
                    l.held.push((b, d.clone()));
                    Ok(Ok(()))
                }
                Err(e) => Ok(Err(short(e))),
            }
        }
    }
}

pub fn c16(ctx: &mut Ctx) -> R {
    let ps = loop {
        let p = page_size(ctx);
        if p <= 16384 {
            break p;
        }
    };
    let n = ctx.rng.range(3, 12);
    let mut v = acts(ctx, ps, n);
    // reads matter here
    for _ in 0..ctx.rng.range(1, 4) {
        let at = ctx.rng.range(1, v.len());
        let k = ctx.rng.below(8);
        v.insert(at, Act::Read(k));
    }
    describe(ctx, ps, &v);
    // the calls of each act, without faults
    let file = tmpfile();
    let mut bounds = Vec::new();
    track(&file, false);
    let mut l = Live { s: None, blobs: vec![], lost: vec![], held: vec![] };
    for a in &v {
        let from = ST.with(|s| s.borrow().calls.len());
        let r = act(&mut l, &file, ps, a)?;
        if let Err(e) = r {
            untrack();
            fail!("without faults: {:?} fails: {}", a, e);
        }
        let to = ST.with(|s| s.borrow().calls.len());
        bounds.push((from, to));
    }
    let st = untrack();
    if let Some(x) = st.strange {
        fail!("harness: cannot model: {}", x);
    }
    ctx.nontrivial = l.blobs.len() >= 2;
    ctx.stat("ev.file_calls", st.calls.len() as u64);
    drop(l);
    for (j, (from, to)) in bounds.iter().enumerate() {
        for at in *from..*to {
            let (kind, len, header) = st.calls[at];
            let faults = ERRS.iter().find(|x| x.0 == kind).unwrap().1;
            for f in faults {
                if *f == Fault::Short && (len < 2 || header) {
                    continue;
                }
                if *f == Fault::Zero && len == 0 {
                    continue;
                }
                // long histories: sample
                if st.calls.len() > 150 && !ctx.rng.chance(150, st.calls.len()) {
                    continue;
                }
                let later = match f {
                    Fault::Errno(libc::EINTR) => None,
                    _ => *ctx.rng.pick(&[None, Some(libc::ENOSPC), Some(libc::EIO)]),
                };
                let plan = Plan { at, fault: *f, later };
                one_fault(ctx, &v, ps, j, plan, kind).map_err(|x| format!("{} ({:?} of act {} ({:?} call {}), later calls {:?})", x, f, j, kind, at - from, later))?;
            }
        }
    }
    Ok(())
}

fn one_fault(ctx: &mut Ctx, v: &[Act], ps: u64, j: usize, plan: Plan, kind: Kind) -> R {
    let file = tmpfile();
    track(&file, false);
    let r = fault_run(ctx, v, ps, j, plan, kind, &file);
    untrack();
    r
}

fn fault_run(ctx: &mut Ctx, v: &[Act], ps: u64, j: usize, plan: Plan, kind: Kind, file: &File) -> R {
    let mut l = Live { s: None, blobs: vec![], lost: vec![], held: vec![] };
    for a in &v[..j] {
        if let Err(e) = act(&mut l, file, ps, a)? {
            fail!("{:?} fails without a fault: {}", a, e);
        }
    }
    let before = l.blobs.len();
    let last = l.s.as_ref().map(|s| s.last_id());
    ST.with(|s| s.borrow_mut().plan = Some(plan));
    let r = guarded(|| act(&mut l, file, ps, &v[j]));
    let mut failed = matches!(&r, Ok(Ok(Err(_))));
    // maybe more calls while the fault lasts
    if plan.later.is_some() && l.s.is_some() && !matches!(&r, Err(_)) {
        for _ in 0..ctx.rng.below(3) {
            let d = fill(ctx, (ps as usize - 8).min(20));
            let a = if ctx.rng.chance(1, 2) { Act::Write(d) } else { Act::Read(ctx.rng.below(8)) };
            let r = guarded(|| act(&mut l, file, ps, &a)).map_err(|p| format!("{:?} while the fault lasts: {}", a, p))??;
            failed |= r.is_err();
            ctx.stat("ev.calls_during_fault", 1);
        }
    }
    let hits = ST.with(|s| {
        let mut s = s.borrow_mut();
        s.plan = None;
        s.hits
    });
    ctx.stat("ev.faults_injected", (hits > 0) as u64);
    ctx.stat(
        match kind {
            Kind::Read => "fault.read",
            Kind::Write => "fault.write",
            Kind::Seek => "fault.seek",
            Kind::Len => "fault.len",
            Kind::Sync => "fault.sync",
            Kind::Map => "fault.map",
        },
        1,
    );
    let r = r.map_err(|p| format!("under the fault: {}", p))?;
    let r = r.map_err(|p| format!("under the fault: {}", p))?;
    if failed {
        ctx.stat("ev.errors_reported", 1);
    } else {
        ctx.stat("ev.fault_absorbed", 1);
        // a failed sync must not be reported as success
        ensure!(!(hits > 0 && kind == Kind::Sync && matches!(v[j], Act::Sync)), "sync succeeds although the operating system reported an error");
    }
    for (b, d) in &l.held {
        ensure!(b[..] == d[..], "a held blob changed to {} from {}", hex(b), hex(d));
    }
    if l.s.is_none() {
        // opening failed: the file opens once the fault is gone
        if let Err(e) = act(&mut l, file, ps, &Act::Open)? {
            fail!("reopening after the fault: {}", e);
        }
    } else if r.is_err() && l.blobs.len() == before {
        // a failed call leaves last_id alone (a failed write may have become the last one)
        let now = l.s.as_ref().unwrap().last_id();
        if l.lost.is_empty() {
            ensure!(last.is_none() || Some(now) == last, "last_id changed by a failed call");
        }
    }
    // older blobs are still readable
    check_reads(l.s.as_ref().unwrap(), &l.blobs).map_err(|x| format!("after the fault: {}", x))?;
    ctx.stat("ev.reads_after_fault", l.blobs.len() as u64);
    // the rest of the history
    for a in &v[j + 1..] {
        let r = guarded(|| act(&mut l, file, ps, a)).map_err(|p| format!("{:?} after the fault: {}", a, p))??;
        if let Err(e) = r {
            fail!("{:?} after the fault: {}", a, e);
        }
    }
    for _ in 0..2 {
        let d = data(ctx, Some(ps));
        if let Err(e) = act(&mut l, file, ps, &Act::Write(d))? {
            fail!("a write after the fault fails: {}", e);
        }
    }
    let s = l.s.as_ref().unwrap();
    check_reads(s, &l.blobs).map_err(|x| format!("at the end: {}", x))?;
    let want = l.blobs.last().map(|x| x.0.clone());
    ensure!(s.last_id().map(|x| x.to_vec()) == want, "last_id is not the id of the last write");
    // and reopened
    if let Err(e) = act(&mut l, file, ps, &Act::Open)? {
        fail!("reopening: {}", e);
    }
    let s = l.s.as_ref().unwrap();
    ensure!(s.last_id().map(|x| x.to_vec()) == want, "last_id after reopening is not the id of the last write");
    check_reads(s, &l.blobs).map_err(|x| format!("after reopening: {}", x))?;
    for (b, d) in &l.held {
        ensure!(b[..] == d[..], "a held blob changed to {} from {}", hex(b), hex(d));
    }
    Ok(())
}

fn main() {
    let suites: &[(&'static str, run::CaseFn)] = &[("c15", c15), ("c16", c16)];
    std::process::exit(run::main(suites));
}

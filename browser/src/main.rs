//! C23, C24: the browser crate (paged file, file system over the browser cache), compiled for this machine with
//! stand-ins for the browser. The oracle: byte vectors and a record of all blobs.
use radixdb::store::{Blob, BlobStore, DynBlobStore};
use radixdb::RadixTree;
use sample::{PagingFile, SimpleWebCacheFs, SyncDir, SyncFile, SyncFs};
use sqlite_vfs::Vfs;
use std::collections::{BTreeMap, HashMap};
use std::ffi::CString;
use std::sync::Arc;
use vharness::ctx::{es, hex, Ctx, R};
use vharness::run;
use vharness::stores::fill;
use vharness::{ensure, fail};
use wasm_futures_executor::ThreadPool;
use web_sys::{Image, Origin};

fn mount(o: &Origin) -> SyncFs {
    SimpleWebCacheFs::new(ThreadPool::at(o))
}

/// fail `count` requests, the first of them `after` requests from now
fn arm(o: &Origin, after: u64, count: u64) {
    let mut s = o.0.lock().unwrap();
    s.fail_at = Some((s.requests + after, count));
}

fn disarm(o: &Origin) {
    o.0.lock().unwrap().fail_at = None;
}

fn failed(o: &Origin) -> u64 {
    o.0.lock().unwrap().failed
}

fn record(o: &Origin) {
    let mut s = o.0.lock().unwrap();
    let i = s.image();
    s.record = Some(vec![i]);
}

fn recorded(o: &Origin) -> Vec<Image> {
    o.0.lock().unwrap().record.take().unwrap()
}

// ------------------------------------------------------------------ C23

fn c23_page_size(ctx: &mut Ctx) -> u64 {
    match ctx.rng.below(8) {
        0 => 8 * ctx.rng.range(2, 40) as u64,
        1 => *ctx.rng.pick(&[16u64, 24, 32]),
        2..=4 => *ctx.rng.pick(&[64u64, 128, 512, 1000, 1024]),
        _ => *ctx.rng.pick(&[16u64, 24, 32, 64, 72, 128, 512, 1000, 1024, 4096, 4104, 8192, 16384, 65536]),
    }
}

fn c23_data(ctx: &mut Ctx, max: usize) -> Vec<u8> {
    let len = match ctx.rng.below(12) {
        0 => 0,
        1 => ctx.rng.below(9),
        2 => max,
        3..=4 => max.saturating_sub(ctx.rng.below(14)),
        5 => max / 2 + ctx.rng.below(10),
        6 => ctx.rng.below(max + 1),
        7 => *ctx.rng.pick(&[127usize, 128, 255, 256, 1016, 1017, 1020, 1024]),
        8..=9 => ctx.rng.below(40),
        _ => ctx.rng.below(max / 4 + 1),
    }
    .min(max);
    let len = if len > 5000 && ctx.rng.chance(3, 4) { len % 5000 } else { len };
    fill(ctx, len)
}

/// what is known about the blobs of a file
#[derive(Default)]
struct Rec {
    blobs: Vec<(Vec<u8>, Vec<u8>)>,
    ids: HashMap<Vec<u8>, usize>,
    held: Vec<(Blob<'static>, Vec<u8>)>,
    /// blobs before this one are durable
    synced: usize,
}

impl Rec {
    fn check(&self, ctx: &mut Ctx, s: &dyn BlobStore<Error = anyhow::Error>, i: usize) -> R {
        let (id, d) = &self.blobs[i];
        let b = s.read(id).map_err(es("read"))?;
        ctx.stat("ev.read_checked", 1);
        ensure!(b[..] == d[..], "blob {} reads {}, but {} was written", hex(id), hex(&b), hex(d));
        Ok(())
    }
    fn check_held(&self, ctx: &mut Ctx) -> R {
        for (b, d) in &self.held {
            ctx.stat("ev.held_checked", 1);
            ensure!(b[..] == d[..], "a blob read earlier changed from {} to {}", hex(d), hex(b));
        }
        Ok(())
    }
    fn add(&mut self, ctx: &mut Ctx, s: &dyn BlobStore<Error = anyhow::Error>, id: Vec<u8>, d: Vec<u8>) -> R {
        ctx.note(|| format!("   -> id {}", hex(&id)));
        ensure!(!self.ids.contains_key(&id), "write returned id {} a second time", hex(&id));
        let b = s.read(&id).map_err(es("read after write"))?;
        ensure!(b[..] == d[..], "blob {} reads {} right after writing {}", hex(&id), hex(&b), hex(&d));
        if self.held.len() < 12 && ctx.rng.chance(1, 4) {
            self.held.push((b, d.clone()));
        }
        self.ids.insert(id.clone(), self.blobs.len());
        self.blobs.push((id, d));
        Ok(())
    }
    /// forget what a close without sync lost
    fn reopened(&mut self, ctx: &mut Ctx, s: &dyn BlobStore<Error = anyhow::Error>, durable: usize) -> R {
        for i in 0..durable {
            self.check(ctx, s, i)?;
        }
        let mut gone = durable;
        for i in durable..self.blobs.len() {
            // a page is written as a whole: what is not lost comes first
            match s.read(&self.blobs[i].0) {
                Ok(b) if b[..] == self.blobs[i].1[..] && gone == i => gone = i + 1,
                _ => {}
            }
        }
        ctx.stat("ev.lost_unsynced", (self.blobs.len() - gone) as u64);
        self.blobs.truncate(gone);
        self.ids = self.blobs.iter().enumerate().map(|(i, b)| (b.0.clone(), i)).collect();
        self.synced = durable.min(gone);
        Ok(())
    }
}

fn invalid_ids(ctx: &mut Ctx, s: &dyn BlobStore<Error = anyhow::Error>, rec: &Rec, ps: u64, numeric: bool) -> R {
    let last = rec.blobs.last().map(|x| u64::from_be_bytes(x.0[..].try_into().unwrap())).unwrap_or(0);
    let id: Vec<u8> = match ctx.rng.below(7) {
        // a valid one when it is cut off
        6 if !rec.blobs.is_empty() && last < 1 << 30 => {
            let i = ctx.rng.below(rec.blobs.len());
            let at = u64::from_be_bytes(rec.blobs[i].0[..].try_into().unwrap());
            far(ctx, at as usize).max(at + (1 << 31)).to_be_bytes().to_vec()
        }
        0 => vec![],
        1 => ctx.rng.bytes(7),
        2 => ctx.rng.bytes(9),
        3 => u64::MAX.to_be_bytes().to_vec(),
        4 => (u64::MAX - ctx.rng.below(20) as u64).to_be_bytes().to_vec(),
        // not before the end of the file, which is not far behind the last blob
        _ => (last + rec.blobs.last().map(|x| x.1.len() as u64).unwrap_or(0) + 2 * ps + 16 + ctx.rng.below(1 << 20) as u64).to_be_bytes().to_vec(),
    };
    if !numeric && id.len() == 8 {
        return Ok(());
    }
    ctx.op("op.invalid_read", &id, || String::new());
    if let Ok(b) = s.read(&id) {
        fail!("read of the invalid id {} returned {}", hex(&id), hex(&b));
    }
    ctx.stat("ev.invalid_id_refused", 1);
    Ok(())
}

fn c23(ctx: &mut Ctx) -> R {
    let o = Origin::default();
    let ps = c23_page_size(ctx);
    // up to here a blob must be accepted, from here on refused; in between it depends on the alignment
    let (max, refuse) = ((ps as usize).saturating_sub(12), ps as usize - 7);
    // the length prefixed file itself is a blob store, too
    let plain = ctx.rng.chance(1, 5);
    ctx.op(if plain { "store.file" } else { "store.paging" }, &ps.to_be_bytes(), || String::new());
    let mut rec = Rec::default();
    let sessions = ctx.rng.range(1, 5);
    for session in 0..sessions {
        let fs = mount(&o);
        let dir = fs.open_dir("d").map_err(es("open_dir"))?;
        let file = dir.open_file("f").map_err(es("open_file"))?;
        let s: Box<dyn BlobStore<Error = anyhow::Error>> = if plain {
            Box::new(file)
        } else {
            Box::new(PagingFile::new(file, ps).map_err(es("PagingFile::new"))?)
        };
        let s = &*s;
        if session > 0 {
            ctx.stat("ev.reopened", 1);
            let durable = if plain { rec.blobs.len() } else { rec.synced };
            rec.reopened(ctx, s, durable)?;
        }
        // what a crash would leave at every moment of this session
        let crash = ctx.rng.chance(1, 3);
        let mut marks = vec![(0, if plain { rec.blobs.len() } else { rec.synced })];
        if crash {
            record(&o);
        }
        for _ in 0..ctx.rng.range(1, 30) {
            if crash {
                let n = o.0.lock().unwrap().record.as_ref().unwrap().len();
                marks.push((n - 1, if plain { rec.blobs.len() } else { rec.synced }));
            }
            match ctx.rng.below(20) {
                0..=8 => {
                    let d = c23_data(ctx, if plain { 3000 } else { max });
                    ctx.op("op.write", &(d.len() as u32).to_be_bytes(), || hex(&d));
                    let id = s.write(&d).map_err(es("write"))?;
                    if let Some(p) = rec.blobs.last() {
                        let p = u64::from_be_bytes(p.0[..].try_into().unwrap()) / ps;
                        let q = u64::from_be_bytes(id[..].try_into().map_err(es("id"))?) / ps;
                        if !plain && p != q {
                            ctx.stat("ev.page_turnover", 1);
                            // a full page is written when it is closed
                        }
                    }
                    if d.len() + 14 > max {
                        ctx.stat("ev.near_limit", 1);
                    }
                    rec.add(ctx, s, id, d)?;
                }
                9..=12 if !rec.blobs.is_empty() => {
                    let i = ctx.rng.below(rec.blobs.len());
                    ctx.op("op.read", &rec.blobs[i].0, || String::new());
                    rec.check(ctx, s, i)?;
                }
                13 if !plain => {
                    let far = if ctx.rng.chance(1, 2) { 12 } else { 5000 };
                    let n = refuse + ctx.rng.below(far);
                    ctx.op("op.write_too_large", &n.to_be_bytes(), || String::new());
                    let d = fill(ctx, n);
                    if let Ok(id) = s.write(&d) {
                        fail!("a blob of {} bytes was accepted as {}, pages have {}", n, hex(&id), ps);
                    }
                    ctx.stat("ev.too_large_refused", 1);
                    rec.check_held(ctx)?;
                }
                14 if !plain && ctx.rng.chance(1, 2) => {
                    let n = ctx.rng.range(max + 1, refuse - 1);
                    let d = fill(ctx, n);
                    ctx.op("op.write_at_limit", &n.to_be_bytes(), || hex(&d));
                    if let Ok(id) = s.write(&d) {
                        rec.add(ctx, s, id, d)?;
                        ctx.stat("ev.at_limit_accepted", 1);
                    }
                }
                14 if ctx.rng.chance(1, 2) => {
                    // ids inside of blobs, which look like very large lengths
                    let n = ctx.rng.range(1, 40).min(max);
                    let mut d = vec![0xff; n];
                    if n > 0 && ctx.rng.chance(1, 2) {
                        let at = ctx.rng.below(n);
                        d[at] = 0xff - ctx.rng.below(20) as u8;
                    }
                    ctx.op("op.read_inside", &d, || String::new());
                    let id = s.write(&d).map_err(es("write"))?;
                    let at = u64::from_be_bytes(id[..].try_into().map_err(es("id"))?);
                    rec.add(ctx, s, id, d)?;
                    for k in 1..=n as u64 {
                        let id = (at + k).to_be_bytes();
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.read(&id).is_ok())) {
                            Ok(_) => ctx.stat("ev.read_inside", 1),
                            Err(_) => fail!("reading {} panics, inside of the blob at {}", hex(&id), at),
                        }
                    }
                    // and where no blob starts, in particular at the ends of pages
                    let end = at + n as u64 + 8;
                    let mut ids: Vec<u64> = (0..20).map(|_| ctx.rng.next() % end).collect();
                    for _ in 0..4 {
                        let page = ctx.rng.next() % (end / ps + 1);
                        ids.extend((page * ps).saturating_sub(5)..page * ps + 5);
                    }
                    for id in ids {
                        let id = id.to_be_bytes();
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.read(&id).is_ok())) {
                            Ok(_) => ctx.stat("ev.read_anywhere", 1),
                            Err(_) => fail!("reading {} panics, in a file that ends near {}", hex(&id), end),
                        }
                    }
                    rec.check(ctx, s, rec.blobs.len() - 1)?;
                }
                14 => invalid_ids(ctx, s, &rec, ps, true)?,
                15..=16 => {
                    ctx.op("op.sync", &[], || String::new());
                    s.sync().map_err(es("sync"))?;
                    rec.synced = rec.blobs.len();
                }
                17..=18 => {
                    // a request to the browser is rejected
                    let after = ctx.rng.below(5) as u64;
                    let count = *ctx.rng.pick(&[1u64, 1, 2, 1000]);
                    arm(&o, after, count);
                    let f0 = failed(&o);
                    let write = ctx.rng.chance(2, 3);
                    if write {
                        let d = c23_data(ctx, if plain { 3000 } else { max });
                        ctx.op("op.write_faulty", &(d.len() as u32).to_be_bytes(), || format!("{} after {} x {}", hex(&d), after, count));
                        let r = s.write(&d);
                        disarm(&o);
                        if failed(&o) > f0 {
                            ctx.stat("ev.requests_rejected", failed(&o) - f0);
                        }
                        match r {
                            Ok(id) => rec.add(ctx, s, id, d)?,
                            Err(e) => {
                                ctx.note(|| format!("   -> {:?}", e));
                                ensure!(failed(&o) > f0, "write failed although no request was rejected: {:?}", e);
                                ctx.stat("ev.errors_reported", 1);
                            }
                        }
                    } else {
                        ctx.op("op.sync_faulty", &[], || format!("after {} x {}", after, count));
                        let r = s.sync();
                        disarm(&o);
                        if failed(&o) > f0 {
                            ctx.stat("ev.requests_rejected", failed(&o) - f0);
                        }
                        match r {
                            Ok(()) => rec.synced = rec.blobs.len(),
                            Err(e) => {
                                ensure!(failed(&o) > f0, "sync failed although no request was rejected: {:?}", e);
                                ctx.stat("ev.errors_reported", 1);
                            }
                        }
                    }
                    for i in 0..rec.blobs.len() {
                        rec.check(ctx, s, i)?;
                    }
                }
                _ => rec.check_held(ctx)?,
            }
        }
        for i in 0..rec.blobs.len() {
            rec.check(ctx, s, i)?;
        }
        rec.check_held(ctx)?;
        if crash {
            let images = recorded(&o);
            let step = 1 + images.len() / 12;
            let first = ctx.rng.below(step);
            for (i, image) in images.into_iter().enumerate().skip(first).step_by(step) {
                let durable = marks.iter().filter(|m| m.0 <= i).map(|m| m.1).max().unwrap();
                let fs = mount(&Origin::of_image(image));
                let file = fs.open_dir("d").and_then(|d| d.open_file("f")).map_err(es("open after a crash"))?;
                let s: Box<dyn BlobStore<Error = anyhow::Error>> = if plain {
                    Box::new(file)
                } else {
                    Box::new(PagingFile::new(file, ps).map_err(es("PagingFile::new after a crash"))?)
                };
                for i in 0..durable {
                    rec.check(ctx, &*s, i).map_err(|e| format!("after a crash: {}", e))?;
                }
                // and it can be used
                let d = fill(ctx, max.min(10));
                let id = s.write(&d).map_err(es("write after a crash"))?;
                let b = s.read(&id).map_err(es("read after write after a crash"))?;
                ensure!(b[..] == d[..], "after a crash: blob {} reads {} right after writing {}", hex(&id), hex(&b), hex(&d));
                for i in 0..durable {
                    rec.check(ctx, &*s, i).map_err(|e| format!("after a crash and a write: {}", e))?;
                }
                fs.unmount();
                ctx.stat("ev.crash_points", 1);
                ctx.stat("ev.crash_durable_blobs", durable as u64);
            }
        }
        if ctx.rng.chance(2, 3) {
            ctx.op("op.sync", &[], || String::new());
            s.sync().map_err(es("sync"))?;
            rec.synced = rec.blobs.len();
        }
        if ctx.rng.chance(1, 2) {
            fs.unmount();
        }
        ctx.op("op.close", &[], || String::new());
    }
    rec.check_held(ctx)?;
    ctx.nontrivial = rec.blobs.len() >= 2;
    Ok(())
}

/// trees kept in the paged file
fn c23_tree(ctx: &mut Ctx) -> R {
    let o = Origin::default();
    let ps = 8 * ctx.rng.range(256, 3000) as u64;
    let mut m: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let mut root: Option<Vec<u8>> = None;
    for _ in 0..ctx.rng.range(1, 4) {
        let fs = mount(&o);
        let file = fs.open_dir("d").and_then(|d| d.open_file("f")).map_err(es("open"))?;
        let store: DynBlobStore = Arc::new(PagingFile::new(file, ps).map_err(es("PagingFile::new"))?);
        let mut t = match &root {
            Some(id) => RadixTree::<DynBlobStore>::try_load(store.clone(), Some(id.clone())).map_err(es("try_load"))?,
            None => RadixTree::empty(store.clone()),
        };
        for _ in 0..ctx.rng.range(1, 4) {
            for _ in 0..ctx.rng.range(1, 40) {
                let n = ctx.rng.below(5);
                let k: Vec<u8> = (0..n).map(|_| b'a' + ctx.rng.below(3) as u8).collect();
                if ctx.rng.chance(3, 4) {
                    let n = ctx.rng.below(200);
                    let v = fill(ctx, n);
                    ctx.op("op.insert", &k, || hex(&v));
                    t.try_insert(&k, &v).map_err(es("insert"))?;
                    m.insert(k, v);
                } else {
                    ctx.op("op.remove", &k, || String::new());
                    t.try_remove(&k).map_err(es("remove"))?;
                    m.remove(&k);
                }
            }
            root = Some(t.try_reattach().map_err(es("reattach"))?);
            store.sync().map_err(es("sync"))?;
            ctx.stat("ev.tree_stored", 1);
            let got: Vec<(Vec<u8>, Vec<u8>)> = t
                .try_iter()
                .map(|x| x.map(|(k, v)| (k.to_vec(), v.load(&store).map(|v| v.to_vec()))))
                .map(|x| x.and_then(|(k, v)| v.map(|v| (k, v))))
                .collect::<Result<_, _>>()
                .map_err(es("iter"))?;
            let want: Vec<(Vec<u8>, Vec<u8>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            ensure!(got == want, "the tree holds {} entries that differ from the {} expected", got.len(), want.len());
        }
        fs.unmount();
    }
    ctx.nontrivial = m.len() >= 2;
    Ok(())
}

// ------------------------------------------------------------------ C24

/// a file as the model sees it
type Files = BTreeMap<String, Vec<u8>>;

struct World {
    o: Origin,
    fs: SyncFs,
    dirs: BTreeMap<String, (SyncDir, HashMap<String, SyncFile>)>,
    /// by directory; a directory that was opened is listed
    m: BTreeMap<String, Files>,
    /// a crash may have left pieces that are not used any more
    crashed: bool,
}

const DIRS: &[&str] = &["a", "b"];
const FILES: &[&str] = &["f", "ff", "f2", "g.db", "x/y"];

/// names with characters that have a meaning in an URL, and names that look like them when they are not told apart
const NAMES: &[&str] = &[
    "my file.db", "my%20file.db", "my+file.db", "myfile.db", "my file.db ", "a#b", "a#c", "a", "q?x=1", "q?x=2", "q", "q%3Fx=1", "?", "#", "%", "%25",
    "/lead", "lead", "//lead", "/", "a\\b", "a/b", "a//b", "a/b/", "tab\tx", "tabx", "new\nx", "\u{fc}ber", "u\u{308}ber", "\u{65e5}\u{672c}", "\u{1f600}", "{z}", "<z>",
    "\"z\"", "`z`", "^z", "|z|", "[z]", ".hidden", "..hidden", "a..b", "f.", "F", "f", "f-0000-00000000-0010", "0000-00000000-0010", "f?0000-00000000-0010",
    "https://example.org/f", "a:b", "~", "'z'", "a&b=c", " ", "%2F", "%2Flead", "%2e%2E", "a/%2e%2e/b", "%2e", "\u{7f}",
];
const ODD_DIRS: &[&str] = &["a b", "\u{e4}/?#%"];

fn read_all(f: &SyncFile) -> R<Vec<u8>> {
    let n = f.length().map_err(es("length"))?;
    f.read(0..n).map_err(es("read of the whole file"))
}

fn contents(o: &Origin, dir: &str, file: &str) -> R<Vec<u8>> {
    let fs = mount(o);
    let f = fs.open_dir(dir).and_then(|d| d.open_file(file)).map_err(es("open after the crash"))?;
    let r = read_all(&f);
    fs.unmount();
    r
}

/// first difference, for reports
fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} and {} bytes, first difference at {}", a.len(), b.len(), i)
}

impl World {
    fn new(o: Origin) -> World {
        World { fs: mount(&o), o, dirs: BTreeMap::new(), m: BTreeMap::new(), crashed: false }
    }
    fn dir(&mut self, d: &str) -> R {
        if !self.dirs.contains_key(d) {
            let x = self.fs.open_dir(d).map_err(es("open_dir"))?;
            self.dirs.insert(d.into(), (x, HashMap::new()));
            self.m.entry(d.into()).or_default();
        }
        Ok(())
    }
    fn file(&mut self, d: &str, f: &str) -> R<&SyncFile> {
        self.dir(d)?;
        let (x, files) = self.dirs.get_mut(d).unwrap();
        if !files.contains_key(f) {
            let h = x.open_file(f).map_err(es("open_file"))?;
            files.insert(f.into(), h);
            self.m.get_mut(d).unwrap().entry(f.into()).or_default();
        }
        Ok(&self.dirs[d].1[f])
    }
    fn reopen(&mut self, ctx: &mut Ctx, o: Origin) {
        if ctx.rng.chance(1, 2) {
            self.fs.unmount();
        }
        self.o = o;
        self.fs = mount(&self.o);
        self.dirs.clear();
        ctx.stat("ev.reopened", 1);
    }
    fn verify(&mut self, ctx: &mut Ctx) -> R {
        let all: Vec<(String, String)> = self.m.iter().flat_map(|(d, fs)| fs.keys().map(move |f| (d.clone(), f.clone()))).collect();
        for (d, f) in all {
            let got = read_all(self.file(&d, &f)?)?;
            let want = &self.m[&d][&f];
            ctx.stat("ev.verify", 1);
            ensure!(&got == want, "file {}/{} has the wrong content: {}", d, f, diff(&got, want));
        }
        if !self.crashed && failed(&self.o) == 0 {
            // what was overwritten, cut off or deleted does not take space any more
            for (d, entries) in self.o.image() {
                let stored: usize = entries.iter().map(|x| x.1.len()).sum();
                let want: usize = self.m.get(&d).map(|x| x.values().map(|x| x.len()).sum()).unwrap_or(0);
                ensure!(stored <= want, "the files of {} take {} bytes, their content is {} bytes: {:?}", d, stored, want, entries.iter().map(|x| (&x.0, x.1.len())).take(20).collect::<Vec<_>>());
                ctx.stat("ev.space_checked", 1);
            }
        }
        Ok(())
    }
}

fn len24(ctx: &mut Ctx, huge: bool) -> usize {
    if huge && ctx.rng.chance(1, 3) {
        return *ctx.rng.pick(&[65535usize, 65536, 65537, 1 << 17, 300_000, 1 << 20]) + ctx.rng.below(3);
    }
    match ctx.rng.below(8) {
        0 => ctx.rng.below(3),
        1..=4 => ctx.rng.below(40),
        5..=6 => ctx.rng.below(300),
        _ => ctx.rng.below(5000),
    }
}

fn cut(ctx: &mut Ctx, n: usize) -> usize {
    match ctx.rng.below(6) {
        0 => 0,
        1 => n,
        2 => n.saturating_sub(ctx.rng.below(4)),
        _ => ctx.rng.below(n + 1),
    }
}

fn put(v: &mut Vec<u8>, at: usize, d: &[u8]) {
    if v.len() < at + d.len() {
        v.resize(at + d.len(), 0);
    }
    v[at..at + d.len()].copy_from_slice(d);
}

/// positions far beyond the end, which look like `at` when they are cut off
fn far(ctx: &mut Ctx, at: usize) -> u64 {
    let base = *ctx.rng.pick(&[1u64 << 16, 1 << 31, 1 << 32, 1 << 32, 3 << 32, 1 << 40, 1 << 53, 1 << 62]);
    base + at as u64
}

fn c24(ctx: &mut Ctx) -> R {
    let mut w = World::new(Origin::default());
    let huge = ctx.rng.chance(1, 100);
    let many = !huge && ctx.rng.chance(1, 100);
    let mut steps = ctx.rng.range(5, if ctx.thorough { 120 } else { 60 });
    if huge {
        ctx.stat("ev.huge_files", 1);
        steps /= 2;
    }
    let mut big = 0;
    let nd = ctx.rng.range(1, 2);
    let mut nf = ctx.rng.range(1, FILES.len());
    let odd = ctx.rng.chance(1, 4);
    let calm = ctx.rng.chance(1, 5);
    let files: Vec<&'static str> = if odd { (0..nf).map(|_| *ctx.rng.pick(NAMES)).collect() } else { FILES.to_vec() };
    let dirs = if odd && ctx.rng.chance(1, 3) { ODD_DIRS } else { DIRS };
    if odd {
        ctx.stat("ev.odd_names", nf as u64);
    }
    if many {
        // a file of many pieces
        nf = 1;
        ctx.stat("ev.many_pieces", 1);
        let (d, f) = (dirs[0], files[0]);
        w.file(d, f)?;
        let k = ctx.rng.range(300, 1500);
        ctx.op("op.many_pieces", f.as_bytes(), || format!("{}/{}: {}", d, f, k));
        for _ in 0..k {
            let n = w.m[d][f].len();
            let at = if ctx.rng.chance(3, 4) { n } else { cut(ctx, n) };
            let len = ctx.rng.range(1, 12);
            let data = fill(ctx, len);
            put(w.m.get_mut(d).unwrap().get_mut(f).unwrap(), at, &data);
            w.file(d, f)?.write(at as u64, data).map_err(es("write"))?;
        }
        w.verify(ctx)?;
    }
    for _ in 0..steps {
        let d = dirs[ctx.rng.below(nd)];
        let f = files[ctx.rng.below(nf)];
        let n = w.m.get(d).and_then(|x| x.get(f)).map(|x| x.len()).unwrap_or(0);
        big = big.max(n);
        let mut a = ctx.rng.below(40);
        if calm && (10..=17).contains(&a) {
            a -= 10;
        }
        match a {
            // write: plain, interrupted by a crash, with rejected requests
            0..=17 => {
                let at = if ctx.rng.chance(1, 4) { n } else { cut(ctx, n) };
                let len = if ctx.rng.chance(1, 4) { n - at } else { len24(ctx, huge) };
                let data = fill(ctx, len);
                let old = w.m.get(d).and_then(|x| x.get(f)).cloned().unwrap_or_default();
                let mut new = old.clone();
                put(&mut new, at, &data);
                w.file(d, f)?;
                if !data.is_empty() && at < n {
                    ctx.stat("ev.overwrites", 1);
                }
                match a {
                    0..=9 => {
                        ctx.op("op.write", f.as_bytes(), || format!("{}/{} at {} of {}: {}", d, f, at, n, hex(&data)));
                        w.file(d, f)?.write(at as u64, data).map_err(es("write"))?;
                        w.m.get_mut(d).unwrap().insert(f.into(), new);
                    }
                    10..=13 => {
                        ctx.op("op.write_crash", f.as_bytes(), || format!("{}/{} at {} of {}: {}", d, f, at, n, hex(&data)));
                        record(&w.o);
                        w.file(d, f)?.write(at as u64, data).map_err(es("write"))?;
                        let images = recorded(&w.o);
                        w.m.get_mut(d).unwrap().insert(f.into(), new.clone());
                        let mut seen = false;
                        for (i, image) in images.iter().enumerate() {
                            let got = contents(&Origin::of_image(image.clone()), d, f)?;
                            ctx.stat("ev.crash_points", 1);
                            if i > 0 && i + 1 < images.len() {
                                ctx.stat("ev.crash_points_inside_write", 1);
                            }
                            ensure!(got == old || got == new, "after a crash at request {} of {} of the write the file has neither the old nor the new content: {} to old, {} to new", i, images.len() - 1, diff(&got, &old), diff(&got, &new));
                            ensure!(!seen || got == new, "the new content vanishes again at request {} of {} of the write", i, images.len() - 1);
                            seen = got == new && new != old;
                        }
                        // go on from one of them
                        if ctx.rng.chance(1, 2) {
                            let i = ctx.rng.below(images.len());
                            ctx.note(|| format!("   crash at request {}", i));
                            w.reopen(ctx, Origin::of_image(images[i].clone()));
                            w.crashed = true;
                            let got = read_all(w.file(d, f)?)?;
                            ensure!(got == old || got == new, "the reopened file has neither the old nor the new content");
                            w.m.get_mut(d).unwrap().insert(f.into(), got);
                            ctx.stat("ev.continued_after_crash", 1);
                        }
                    }
                    _ => {
                        let after = ctx.rng.below(6) as u64;
                        let count = *ctx.rng.pick(&[1u64, 1, 2, 1000]);
                        ctx.op("op.write_faulty", f.as_bytes(), || format!("{}/{} at {} of {}: {}, after {} x {}", d, f, at, n, hex(&data), after, count));
                        let f0 = failed(&w.o);
                        arm(&w.o, after, count);
                        let r = w.file(d, f)?.write(at as u64, data);
                        disarm(&w.o);
                        let nf = failed(&w.o) - f0;
                        ctx.stat("ev.requests_rejected", nf);
                        let got = read_all(w.file(d, f)?)?;
                        match r {
                            Ok(()) => {
                                ensure!(nf == 0, "write reported success although a request was rejected");
                                ensure!(got == new, "wrong content after write: {}", diff(&got, &new));
                            }
                            Err(e) => {
                                ensure!(nf > 0, "write failed although no request was rejected: {:?}", e);
                                ctx.stat("ev.errors_reported", 1);
                                ensure!(got == old || got == new, "after a failed write the file has neither the old nor the new content: {} to old, {} to new", diff(&got, &old), diff(&got, &new));
                            }
                        }
                        w.m.get_mut(d).unwrap().insert(f.into(), got);
                    }
                }
            }
            18..=23 => {
                let (x, y) = (cut(ctx, n), cut(ctx, n));
                let (x, y) = (x.min(y), x.max(y));
                ctx.op("op.read", f.as_bytes(), || format!("{}/{} {}..{} of {}", d, f, x, y, n));
                w.file(d, f)?;
                let faulty = !calm && ctx.rng.chance(1, 6);
                let f0 = failed(&w.o);
                if faulty {
                    let k = ctx.rng.below(3) as u64;
                    arm(&w.o, k, 1);
                }
                let r = w.file(d, f)?.read(x as u64..y as u64);
                disarm(&w.o);
                if failed(&w.o) > f0 {
                    ctx.stat("ev.requests_rejected", 1);
                    ensure!(r.is_err(), "read succeeded although a request was rejected");
                    ctx.stat("ev.errors_reported", 1);
                } else {
                    let got = r.map_err(es("read"))?;
                    ctx.stat("ev.read_checked", 1);
                    ensure!(got[..] == w.m[d][f][x..y], "read {}..{} returned wrong bytes", x, y);
                }
            }
            24 => {
                let y = n + 1 + ctx.rng.below(100);
                let x = ctx.rng.below(y);
                let (mut x, mut y) = (x as u64, y as u64);
                if n < 1 << 16 && ctx.rng.chance(1, 2) {
                    let (a, b) = (cut(ctx, n), cut(ctx, n));
                    let base = far(ctx, 0);
                    y = base + a.max(b) as u64;
                    x = if ctx.rng.chance(1, 4) { a.min(b) as u64 } else { base + a.min(b) as u64 };
                    if y - x > 1 << 33 || y == x {
                        x = y - 1;
                    }
                    ctx.stat("ev.read_far_beyond", 1);
                }
                ctx.op("op.read_beyond", f.as_bytes(), || format!("{}/{} {}..{} of {}", d, f, x, y, n));
                if let Ok(b) = w.file(d, f)?.read(x..y) {
                    fail!("read {}..{} of a file of {} bytes returned {} bytes", x, y, n, b.len());
                }
                ctx.stat("ev.read_beyond_refused", 1);
            }
            25 if odd => {
                // names that are paths in an url: refused, or files like all others
                let name = *ctx.rng.pick(&["..", ".", "../a", "a/..", "a/../b", "a/./b", "./a", "x/../../a", "my file.db/..", "q/../lead"]);
                ctx.op("op.path_name", name.as_bytes(), || format!("{}/{}", d, name));
                w.dir(d)?;
                match w.dirs[d].0.open_file(name) {
                    Err(_) => ctx.stat("ev.path_name_refused", 1),
                    Ok(h) => {
                        let data = ctx.rng.bytes(40);
                        if h.write(0, data.clone()).is_ok() {
                            let got = contents(&w.o, d, name)?;
                            ensure!(got == data, "a file with the name {:?} was opened and written, but reads {} instead of {}", name, hex(&got), hex(&data));
                            w.verify(ctx)?;
                        }
                        w.dirs[d].0.delete_file(name).map_err(es("delete"))?;
                    }
                }
                w.verify(ctx)?;
            }
            25..=26 => {
                ctx.op("op.length", f.as_bytes(), || format!("{}/{} is {}", d, f, n));
                let l = w.file(d, f)?.length().map_err(es("length"))?;
                ensure!(l == n as u64, "length of {}/{} is {} instead of {}", d, f, l, n);
            }
            27..=29 => {
                let to = if ctx.rng.chance(1, 6) { n + ctx.rng.below(50) } else { cut(ctx, n) };
                w.file(d, f)?;
                let old = w.m[d][f].clone();
                if n < 1 << 16 && ctx.rng.chance(1, 12) {
                    let to = far(ctx, to.min(n));
                    ctx.op("op.truncate_far", f.as_bytes(), || format!("{}/{} {} to {}", d, f, n, to));
                    w.file(d, f)?.truncate(to).map_err(es("truncate beyond the end"))?;
                    let got = read_all(w.file(d, f)?)?;
                    ensure!(got == old, "truncating a file of {} bytes to {} changed it: {}", n, to, diff(&got, &old));
                    ctx.stat("ev.truncate_far", 1);
                }
                let mut new = old.clone();
                new.truncate(to);
                if ctx.rng.chance(2, 3) {
                    ctx.op("op.truncate", f.as_bytes(), || format!("{}/{} {} to {}", d, f, n, to));
                    w.file(d, f)?.truncate(to as u64).map_err(es("truncate"))?;
                    ctx.stat("ev.truncated", (to < n) as u64);
                    w.m.get_mut(d).unwrap().insert(f.into(), new);
                } else {
                    ctx.op("op.truncate_crash", f.as_bytes(), || format!("{}/{} {} to {}", d, f, n, to));
                    record(&w.o);
                    w.file(d, f)?.truncate(to as u64).map_err(es("truncate"))?;
                    let images = recorded(&w.o);
                    w.m.get_mut(d).unwrap().insert(f.into(), new.clone());
                    for (i, image) in images.iter().enumerate() {
                        // what is kept is there all the time
                        let got = contents(&Origin::of_image(image.clone()), d, f)?;
                        ctx.stat("ev.crash_points", 1);
                        ensure!(got.len() >= new.len() && got[..new.len()] == new[..], "a crash at request {} of {} of the truncation lost bytes that it keeps: {}", i, images.len() - 1, diff(&got, &new));
                        ensure!(got.len() <= old.len(), "a crash at request {} of the truncation made the file longer", i);
                    }
                }
            }
            30 => {
                // as a store of length prefixed blobs
                let len = len24(ctx, huge);
                let data = fill(ctx, len);
                ctx.op("op.append_blob", f.as_bytes(), || format!("{}/{} at {}: {}", d, f, n, hex(&data)));
                let h = w.file(d, f)?;
                let id = BlobStore::write(h, &data).map_err(es("append"))?;
                ensure!(id == (n as u64).to_be_bytes(), "append to a file of {} bytes returned {}", n, hex(&id));
                let b = BlobStore::read(h, &id).map_err(es("read of a blob"))?;
                ensure!(b[..] == data[..], "the blob at {} reads {} instead of {}", n, hex(&b), hex(&data));
                h.sync().map_err(es("sync"))?;
                let v = w.m.get_mut(d).unwrap().get_mut(f).unwrap();
                v.extend_from_slice(&(data.len() as u32).to_be_bytes());
                v.extend_from_slice(&data);
            }
            31 if n > 0 && ctx.rng.chance(2, 3) => {
                // wherever the content looks like a blob, it can be read as one
                let m = w.m[d][f].clone();
                let fits = |at: usize| at + 4 <= n && (u32::from_be_bytes(m[at..at + 4].try_into().unwrap()) as usize) <= n - at - 4;
                // or that announces more than there can be
                let odd = ctx.rng.chance(1, 6);
                let fits = |at: usize| if odd { at + 4 <= n && m[at..at + 3] == [0xff; 3] } else { fits(at) };
                let start = cut(ctx, n);
                let at = (0..n).map(|i| (start + i) % n).filter(|i| fits(*i)).next().unwrap_or(start);
                let mut at = at;
                if !fits(at) && n >= 8 {
                    // make it so
                    at = ctx.rng.below(n - 7);
                    let len = if odd { u32::MAX as usize - ctx.rng.below(9) } else { ctx.rng.below((n - at - 4).min(2000)) };
                    ctx.op("op.write", f.as_bytes(), || format!("{}/{} at {} of {}: length {}", d, f, at, n, len));
                    let p = (len as u32).to_be_bytes().to_vec();
                    put(w.m.get_mut(d).unwrap().get_mut(f).unwrap(), at, &p);
                    w.file(d, f)?.write(at as u64, p).map_err(es("write"))?;
                }
                let m = w.m[d][f].clone();
                ctx.op("op.read_blob", f.as_bytes(), || format!("{}/{} at {} of {}", d, f, at, n));
                let r = BlobStore::read(w.file(d, f)?, &(at as u64).to_be_bytes());
                let len = if at + 4 <= n { u32::from_be_bytes(m[at..at + 4].try_into().unwrap()) as usize } else { n };
                if at as u64 + 4 + len as u64 <= n as u64 {
                    let b = r.map_err(es("read of a blob"))?;
                    ensure!(b[..] == m[at + 4..at + 4 + len], "the blob of {} bytes at {} reads wrong bytes", len, at);
                    ctx.stat("ev.blob_read_checked", 1);
                } else if r.is_err() {
                    ctx.stat("ev.huge_blob_refused", odd as u64);
                } else if let Ok(b) = r {
                    fail!("a blob of {} bytes was read at {}, where {} bytes are announced in a file of {} bytes", b.len(), at, len, n);
                }
            }
            31 => {
                ctx.op("op.blob_beyond", f.as_bytes(), || format!("{}/{} of {}", d, f, n));
                let inside = cut(ctx, n);
                let at = match ctx.rng.below(4) {
                    3 if n < 1 << 16 => far(ctx, inside),
                    0 => n as u64,
                    1 => n as u64 + ctx.rng.below(100) as u64,
                    _ => u64::MAX - ctx.rng.below(6) as u64,
                };
                if let Ok(b) = BlobStore::read(w.file(d, f)?, &at.to_be_bytes()) {
                    fail!("a blob of {} bytes was read at {} in a file of {} bytes", b.len(), at, n);
                }
                ctx.stat("ev.read_beyond_refused", 1);
            }
            32 => {
                let had = w.m.get(d).map(|x| x.contains_key(f)).unwrap_or(false);
                w.dir(d)?;
                let open = w.dirs[d].1.contains_key(f);
                ctx.op("op.exists", f.as_bytes(), || format!("{}/{} of {}", d, f, n));
                let e = w.dirs[d].0.file_exists(f).map_err(es("file_exists"))?;
                // a file that is open exists; a file nothing was written to may or may not exist
                if n > 0 || open {
                    ensure!(e, "file {}/{} of {} bytes does not exist", d, f, n);
                    ctx.stat("ev.exists_true", 1);
                } else if !had {
                    ensure!(!e, "file {}/{} exists but was never made or was deleted", d, f);
                    ctx.stat("ev.exists_false", 1);
                }
            }
            33 => {
                ctx.op("op.delete_file", f.as_bytes(), || format!("{}/{} of {}", d, f, n));
                w.dir(d)?;
                let h = w.dirs.get_mut(d).unwrap().1.remove(f);
                let r = w.dirs[d].0.delete_file(f).map_err(es("delete_file"))?;
                if n > 0 {
                    ensure!(r, "delete_file of {}/{} found nothing", d, f);
                    ctx.stat("ev.deleted", 1);
                }
                let e = w.dirs[d].0.file_exists(f).map_err(es("file_exists"))?;
                ensure!(!e, "file {}/{} exists after it was deleted", d, f);
                if let Some(h) = h {
                    // the old handle must not bring the content back
                    if let Ok(l) = h.length() {
                        ensure!(l == 0, "the deleted file {}/{} has {} bytes", d, f, l);
                    }
                }
                w.m.get_mut(d).unwrap().remove(f);
            }
            34 => {
                ctx.op("op.delete_dir", d.as_bytes(), || d.to_string());
                let had = w.m.contains_key(d);
                let r = w.fs.delete_dir(d).map_err(es("delete_dir"))?;
                ensure!(r == had, "delete_dir of {} returned {} instead of {}", d, r, had);
                ctx.stat("ev.dir_deleted", had as u64);
                w.m.remove(d);
                w.dirs.remove(d);
            }
            35..=36 => {
                ctx.op("op.reopen", &[], || String::new());
                let o = w.o.clone();
                w.reopen(ctx, o);
                if ctx.rng.chance(1, 2) {
                    w.verify(ctx)?;
                }
            }
            37 => {
                // the same file, as a database engine uses it
                w.file(d, f)?;
                let c = CString::new(f).unwrap();
                let dir = &mut w.dirs.get_mut(d).unwrap().0;
                let mut h = dir.open(&c, Default::default()).map_err(es("vfs open"))?;
                let m = w.m.get_mut(d).unwrap().get_mut(f).unwrap();
                for _ in 0..ctx.rng.range(1, 4) {
                    let n = m.len();
                    match ctx.rng.below(5) {
                        0..=1 => {
                            let at = if ctx.rng.chance(1, 5) { n + ctx.rng.below(40) } else { cut(ctx, n) };
                            let mut buf = vec![0xa5u8; len24(ctx, huge).min(700)];
                            ctx.op("op.vfs_read", f.as_bytes(), || format!("{}/{} {} at {} of {}", d, f, buf.len(), at, n));
                            if n < 1 << 16 && ctx.rng.chance(1, 6) {
                                let at = far(ctx, at);
                                ctx.op("op.vfs_read_beyond", f.as_bytes(), || format!("at {}", at));
                                let k = h.read(at, &mut buf).map_err(es("vfs read beyond the end"))?;
                                ensure!(k == 0, "vfs read at {} of {} returned {} bytes", at, n, k);
                                ctx.stat("ev.read_far_beyond", 1);
                            }
                            let k = h.read(at as u64, &mut buf).map_err(es("vfs read"))?;
                            let want = if at > n { &[][..] } else { &m[at..n.min(at + buf.len())] };
                            ensure!(k == want.len(), "vfs read at {} of {} returned {} instead of {}", at, n, k, want.len());
                            ensure!(&buf[..k] == want, "vfs read at {} of {} returned wrong bytes", at, n);
                            ctx.stat("ev.vfs_read_checked", 1);
                        }
                        2 => {
                            let at = cut(ctx, n);
                            let len = len24(ctx, huge);
                            let data = fill(ctx, len);
                            ctx.op("op.vfs_write", f.as_bytes(), || format!("{}/{} at {} of {}: {}", d, f, at, n, hex(&data)));
                            let k = h.write(at as u64, &data).map_err(es("vfs write"))?;
                            ensure!(k == data.len(), "vfs write of {} bytes returned {}", data.len(), k);
                            put(m, at, &data);
                        }
                        3 => {
                            let to = cut(ctx, n);
                            ctx.op("op.vfs_truncate", f.as_bytes(), || format!("{}/{} {} to {}", d, f, n, to));
                            h.truncate(to as u64).map_err(es("vfs truncate"))?;
                            h.sync().map_err(es("vfs sync"))?;
                            m.truncate(to);
                        }
                        _ => {
                            let k = h.file_size().map_err(es("vfs file_size"))?;
                            ensure!(k == n as u64, "vfs file_size is {} instead of {}", k, n);
                        }
                    }
                }
                if !m.is_empty() {
                    let e = dir.exists(&c).map_err(es("vfs exists"))?;
                    ensure!(e, "vfs exists of {}/{} is false", d, f);
                }
                if ctx.rng.chance(1, 8) {
                    dir.delete(&c).map_err(es("vfs delete"))?;
                    let e = dir.exists(&c).map_err(es("vfs exists"))?;
                    ensure!(!e, "vfs exists of {}/{} is true after it was deleted", d, f);
                    w.m.get_mut(d).unwrap().remove(f);
                    w.dirs.get_mut(d).unwrap().1.remove(f);
                }
            }
            38 => {
                // several threads, a file each, and one they append to together
                ctx.op("op.threads", d.as_bytes(), || String::new());
                w.dir(d)?;
                let dir = &w.dirs[d].0;
                let seeds: Vec<u64> = (0..3).map(|_| ctx.rng.next()).collect();
                let r: Vec<R<(Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>)>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = seeds
                        .iter()
                        .enumerate()
                        .map(|(t, seed)| {
                            sc.spawn(move || {
                                let mut rng = vharness::rng::Rng::new(*seed);
                                let own = dir.open_file(format!("t{}", t)).map_err(es("open_file"))?;
                                own.truncate(0).map_err(es("truncate"))?;
                                let both = dir.open_file("shared").map_err(es("open_file"))?;
                                let mut m = vec![];
                                let mut l = vec![];
                                for _ in 0..6 {
                                    let n = rng.below(60);
                                    let data = rng.bytes(n);
                                    if rng.chance(1, 2) {
                                        let at = rng.below(m.len() + 1);
                                        own.write(at as u64, data.clone()).map_err(es("write"))?;
                                        put(&mut m, at, &data);
                                        let got = own.read(0..m.len() as u64).map_err(es("read"))?;
                                        ensure!(got == m, "the file of a thread has the wrong content");
                                    } else {
                                        let id = BlobStore::write(&both, &data).map_err(es("append"))?;
                                        let b = BlobStore::read(&both, &id).map_err(es("read of a blob"))?;
                                        ensure!(b[..] == data[..], "the blob appended by a thread reads differently");
                                        l.push((id, data));
                                    }
                                }
                                Ok((m, l))
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
                });
                let mut all = vec![];
                for (t, r) in r.into_iter().enumerate() {
                    let (m, l) = r?;
                    w.m.get_mut(d).unwrap().insert(format!("t{}", t), m);
                    all.extend(l);
                }
                let both = dir.open_file("shared").map_err(es("open_file"))?;
                for (id, data) in &all {
                    let b = BlobStore::read(&both, id).map_err(es("read of a blob"))?;
                    ensure!(b[..] == data[..], "a blob appended concurrently at {} reads {} instead of {}", hex(id), hex(&b), hex(data));
                    ctx.stat("ev.concurrent_appends", 1);
                }
                let got = read_all(&both)?;
                w.m.get_mut(d).unwrap().insert("shared".into(), got);
                let n: std::collections::HashSet<&Vec<u8>> = all.iter().map(|x| &x.0).collect();
                ensure!(n.len() == all.len(), "two concurrent appends returned the same position");
            }
            _ => w.verify(ctx)?,
        }
    }
    w.verify(ctx)?;
    let o = w.o.clone();
    w.reopen(ctx, o);
    w.verify(ctx)?;
    w.fs.unmount();
    ctx.nontrivial = big >= 2;
    Ok(())
}

fn main() {
    let suites: &[(&'static str, run::CaseFn)] = &[("c23", c23), ("c23_tree", c23_tree), ("c24", c24)];
    std::process::exit(run::main(suites));
}

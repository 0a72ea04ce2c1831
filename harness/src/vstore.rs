//! A custom blob store for the monitors: ids of any (also varying) length, an event log,
//! fault injection, and corruption of the returned bytes.
use crate::rng::{fnv, mix, Rng};
use radixdb::store::{Blob, BlobStore, DynBlobStore};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Read(Vec<u8>),
    Write(Vec<u8>),
}

#[derive(Default)]
pub struct Inner {
    pub id_len: usize,
    pub vary: bool,
    pub n: u64,
    pub blobs: HashMap<Vec<u8>, Arc<Vec<u8>>>,
    pub order: Vec<Vec<u8>>,
    pub log: Option<Vec<Ev>>,
    pub reads: u64,
    pub writes: u64,
    /// reads of ids that were never issued
    pub bad_reads: Vec<Vec<u8>>,
    /// accesses since the fault plan was set
    pub acc: u64,
    pub fail_from: Option<u64>,
    pub fail_until: u64,
    pub fail_reads: bool,
    pub fail_writes: bool,
    pub triggered: u64,
    /// a planned failure is a panic
    pub fail_panics: bool,
    pub corrupt: Option<Corrupt>,
    pub budget: Option<u64>,
    /// content addressed: the id is a hash of the blob
    pub cas: bool,
}

pub struct Corrupt {
    pub rng: Rng,
    /// out of 256, chance that a read is corrupted
    pub rate: usize,
    pub hits: u64,
    /// the same blob is always damaged in the same way
    pub persistent: bool,
    pub cache: HashMap<Vec<u8>, Arc<Vec<u8>>>,
}

thread_local! {
    static HOOK: std::cell::RefCell<Option<std::rc::Rc<dyn Fn()>>> = const { std::cell::RefCell::new(None) };
}
/// what a store does at every access of this thread besides its work (C25)
pub fn set_hook(f: Option<std::rc::Rc<dyn Fn()>>) {
    HOOK.with(|h| *h.borrow_mut() = f);
}
fn hook() {
    let h = HOOK.with(|h| h.borrow().clone());
    if let Some(h) = h {
        h();
    }
}

#[derive(Clone)]
pub struct VStore(pub Arc<Mutex<Inner>>);

impl std::fmt::Debug for VStore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "VStore")
    }
}

impl VStore {
    pub fn new(id_len: usize, vary: bool) -> Self {
        VStore(Arc::new(Mutex::new(Inner {
            id_len,
            vary,
            ..Default::default()
        })))
    }
    pub fn random(rng: &mut Rng) -> Self {
        let len = *rng.pick(&[1usize, 2, 4, 7, 8, 8, 9, 16, 32, 64, 119, 120, 126]);
        // 126 is the longest id the length headers can hold next to the record size byte
        let vary = len != 126 && rng.chance(1, 4);
        Self::new(len, vary)
    }
    pub fn dynamic(&self) -> DynBlobStore {
        Arc::new(self.clone())
    }
    pub fn lock(&self) -> std::sync::MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn reads_writes(&self) -> (u64, u64) {
        let i = self.lock();
        (i.reads, i.writes)
    }
    pub fn start_log(&self) {
        self.lock().log = Some(Vec::new());
    }
    pub fn take_log(&self) -> Vec<Ev> {
        self.lock().log.take().unwrap_or_default()
    }
    /// fail the accesses from..until (counted from now on)
    pub fn plan(&self, from: u64, until: u64, reads: bool, writes: bool) {
        let mut i = self.lock();
        i.acc = 0;
        i.fail_from = Some(from);
        i.fail_until = until;
        i.fail_reads = reads;
        i.fail_writes = writes;
        i.triggered = 0;
    }
    pub fn clear_plan(&self) -> u64 {
        let mut i = self.lock();
        i.fail_from = None;
        i.fail_panics = false;
        i.triggered
    }
    pub fn raw(&self, id: &[u8]) -> Option<Arc<Vec<u8>>> {
        self.lock().blobs.get(id).cloned()
    }
    /// make ids and blobs explicit (for the encoder)
    pub fn put(&self, data: &[u8]) -> Vec<u8> {
        let mut i = self.lock();
        i.put(data)
    }
}

impl Inner {
    fn put(&mut self, data: &[u8]) -> Vec<u8> {
        if self.cas {
            let len = self.id_len.max(12);
            let mut h = fnv(data) ^ mix(data.len() as u64);
            let mut id = Vec::with_capacity(len + 8);
            while id.len() < len {
                h = mix(h ^ fnv(&data[data.len() / 2..]));
                id.extend_from_slice(&h.to_be_bytes());
            }
            id.truncate(len);
            match self.blobs.get(&id) {
                Some(b) => assert!(**b == data, "harness: hash collision"),
                None => {
                    self.blobs.insert(id.clone(), Arc::new(data.to_vec()));
                    self.order.push(id.clone());
                }
            }
            return id;
        }
        let n = self.n;
        self.n += 1;
        let mut len = self.id_len;
        if self.vary {
            len += (mix(n) % 4) as usize;
        }
        // enough bytes to be unique
        let need = if n < 200 { 1 } else if n < 65000 { 2 } else { 4 };
        let len = len.max(need);
        let mut id = vec![0u8; len];
        for (i, b) in id.iter_mut().enumerate() {
            *b = (mix(n.wrapping_mul(31).wrapping_add(i as u64)) >> 7) as u8;
        }
        let be = n.to_be_bytes();
        id[len - need..].copy_from_slice(&be[8 - need..]);
        // ids of different need classes must not collide: disambiguate by probing
        while self.blobs.contains_key(&id) {
            id.push(0x5a);
        }
        self.blobs.insert(id.clone(), Arc::new(data.to_vec()));
        self.order.push(id.clone());
        id
    }
    fn access(&mut self, write: bool) -> anyhow::Result<()> {
        let k = self.acc;
        self.acc += 1;
        if let Some(from) = self.fail_from {
            let kind = if write { self.fail_writes } else { self.fail_reads };
            if kind && k >= from && k < self.fail_until {
                self.triggered += 1;
                if self.fail_panics {
                    panic!("injected panic");
                }
                anyhow::bail!("injected fault");
            }
        }
        if let Some(b) = &mut self.budget {
            if *b == 0 {
                anyhow::bail!("access budget exhausted");
            }
            *b -= 1;
        }
        Ok(())
    }
}

pub fn corrupt_bytes(rng: &mut Rng, data: &[u8], others: &[Arc<Vec<u8>>], ids: &[Vec<u8>]) -> Vec<u8> {
    let mut d = data.to_vec();
    match rng.below(16) {
        13..=15 => {
            // one field of one record of a node
            let mut at = Vec::new();
            let mut i = 0;
            'all: while i < d.len() {
                let mut r = [i; 4];
                for k in 0..3 {
                    if r[k] >= d.len() {
                        break 'all;
                    }
                    r[k + 1] = r[k] + 1 + (d[r[k]] & 0x7f) as usize;
                }
                if r[3] > d.len() {
                    break;
                }
                at.push(r);
                i = r[3];
            }
            if !at.is_empty() {
                let r = match rng.below(4) {
                    0 => at[0],
                    1 => at[at.len() - 1],
                    _ => *rng.pick(&at),
                };
                let h = r[rng.below(3)];
                match rng.below(6) {
                    0 => d[h] = rng.byte(),
                    1 => d[h] = *rng.pick(&[0u8, 0x7f, 0x80, 0x81, 0x88, 0xff]),
                    2 => d[h] = d[h].wrapping_add(1),
                    3 => d[h] = d[h].wrapping_sub(1),
                    // the record size byte or the label
                    4 => {
                        let h = if rng.chance(2, 3) { r[2] } else { r[0] };
                        if h + 1 < d.len() {
                            d[h + 1] = if rng.chance(1, 2) { rng.byte() } else { *rng.pick(&[0u8, 1, 2, 3, 4, 5, 7, 8, 16, 255]) };
                        }
                    }
                    _ => {
                        if rng.chance(1, 2) {
                            d.drain(r[0]..r[3]);
                        } else {
                            let x = d[r[0]..r[3]].to_vec();
                            d.splice(r[0]..r[0], x);
                        }
                    }
                }
            }
        }
        9 | 10 => {
            // plausible nodes with arbitrary headers
            d.clear();
            if rng.chance(1, 2) {
                d.push(*rng.pick(&[0u8, 3, 4, 11, 12, 20, 100, 255]));
            }
            for _ in 0..rng.range(1, 20) {
                let h = match rng.below(6) {
                    0 => 0x80,
                    1 => rng.byte(),
                    2 => 0x80 | rng.below(20) as u8,
                    _ => rng.below(12) as u8,
                };
                d.push(h);
                let n = if rng.chance(1, 12) { rng.below(130) } else { (h & 0x7f) as usize };
                if h >= 0x80 && rng.chance(2, 3) && !ids.is_empty() {
                    let id = rng.pick(ids);
                    let l = d.len();
                    d[l - 1] = 0x80 | (id.len().min(127) as u8);
                    d.extend_from_slice(id);
                } else {
                    let x = rng.bytes(n);
                    d.extend_from_slice(&x);
                }
            }
        }
        11 | 12 => {
            // another id of the same length: possibly a cycle
            let id = rng.pick(ids).clone();
            let k = id.len();
            if k > 0 && d.len() > k {
                // look for a header of that length
                let at: Vec<usize> = (0..d.len() - k).filter(|i| d[*i] == 0x80 | (k as u8 & 0x7f)).collect();
                if !at.is_empty() {
                    let i = *rng.pick(&at);
                    d[i + 1..i + 1 + k].copy_from_slice(&id);
                }
            }
        }
        0 => {
            let n = rng.range(0, d.len());
            d.truncate(n);
        }
        1 | 2 => {
            for _ in 0..rng.range(1, 3) {
                if !d.is_empty() {
                    let i = rng.below(d.len());
                    d[i] ^= 1 << rng.below(8);
                }
            }
        }
        3 => {
            if !d.is_empty() {
                let i = rng.below(d.len());
                d[i] = *rng.pick(&[0u8, 0x7f, 0x80, 0x81, 0x88, 0xff]);
            }
        }
        4 => {
            let n = rng.range(0, 40);
            d = rng.bytes(n);
        }
        5 => {
            if !others.is_empty() {
                d = rng.pick(others).to_vec();
            }
        }
        6 => {
            let n = rng.range(0, 9);
            let x = rng.bytes(n);
            d.extend_from_slice(&x);
        }
        7 => d.clear(),
        _ => {
            if d.len() > 2 {
                let i = rng.below(d.len() - 1);
                d.remove(i);
            }
        }
    }
    d
}

impl BlobStore for VStore {
    type Error = anyhow::Error;

    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> {
        hook();
        let mut i = self.lock();
        i.reads += 1;
        if let Some(l) = &mut i.log {
            l.push(Ev::Read(id.to_vec()));
        }
        i.access(false)?;
        match i.blobs.get(id).cloned() {
            Some(b) => {
                let mut out = b;
                let i = &mut *i;
                if let Some(c) = &mut i.corrupt {
                    if let Some(b) = c.cache.get(id) {
                        out = b.clone();
                    } else {
                        if c.rng.below(256) < c.rate {
                            let mut others = Vec::new();
                            let mut ids = Vec::new();
                            for _ in 0..2 {
                                let k = c.rng.below(i.order.len());
                                others.push(i.blobs[&i.order[k]].clone());
                                ids.push(i.order[k].clone());
                            }
                            ids.push(id.to_vec());
                            out = Arc::new(corrupt_bytes(&mut c.rng, &out, &others, &ids));
                        }
                        if c.persistent {
                            c.cache.insert(id.to_vec(), out.clone());
                        }
                    }
                    if !Arc::ptr_eq(&out, &i.blobs[id]) {
                        c.hits += 1;
                    }
                }
                // a fresh exact-size copy, so that any use beyond the blob's life or bounds is visible to ASan
                Ok(Blob::copy_from_slice(&out))
            }
            None => {
                i.bad_reads.push(id.to_vec());
                anyhow::bail!("unknown id")
            }
        }
    }

    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        hook();
        let mut i = self.lock();
        i.access(true)?;
        i.writes += 1;
        let id = i.put(data);
        if let Some(l) = &mut i.log {
            l.push(Ev::Write(id.clone()));
        }
        Ok(id)
    }

    fn sync(&self) -> anyhow::Result<()> {
        Ok(())
    }
}

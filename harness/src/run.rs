//! Case runner: deterministic cases on several threads, crash attribution, watchdog, JSON report.
use crate::ctx::{Ctx, R};
use crate::rng::{fnv, mix};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// of the threads that run cases
const STACK: usize = if cfg!(target_pointer_width = "32") { 64 << 20 } else { 512 << 20 };

pub type CaseFn = fn(&mut Ctx) -> R;

#[derive(Clone)]
pub struct Opts {
    pub suite: String,
    pub seed: u64,
    pub start: u64,
    pub cases: u64,
    pub secs: f64,
    pub threads: usize,
    pub out: Option<String>,
    pub progress: Option<String>,
    pub only: Option<u64>,
    pub thorough: bool,
    pub small: bool,
    pub hang_cpu: f64,
    pub samples: usize,
}

impl Opts {
    pub fn parse() -> Opts {
        let mut a = std::env::args().skip(1);
        let mut o = Opts {
            suite: a.next().unwrap_or_default(),
            seed: 1,
            start: 0,
            cases: 1000,
            secs: 1e9,
            threads: 8,
            out: None,
            progress: None,
            only: None,
            thorough: false,
            small: false,
            hang_cpu: 60.0,
            samples: 2,
        };
        while let Some(k) = a.next() {
            let mut v = || a.next().expect("missing argument");
            match k.as_str() {
                "--seed" => o.seed = v().parse().unwrap(),
                "--start" => o.start = v().parse().unwrap(),
                "--cases" => o.cases = v().parse().unwrap(),
                "--secs" => o.secs = v().parse().unwrap(),
                "--threads" => o.threads = v().parse().unwrap(),
                "--out" => o.out = Some(v()),
                "--progress" => o.progress = Some(v()),
                "--case" => o.only = Some(v().parse().unwrap()),
                "--hang-cpu" => o.hang_cpu = v().parse().unwrap(),
                "--samples" => o.samples = v().parse().unwrap(),
                "--thorough" => o.thorough = true,
                "--small" => o.small = true,
                x => panic!("unknown option {}", x),
            }
        }
        o
    }
    pub fn case_seed(&self, i: u64) -> u64 {
        mix(self.seed) ^ mix(fnv(self.suite.as_bytes())) ^ mix(i.wrapping_mul(0x9e37) ^ 0xabcdef)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

fn payload(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload(info.payload());
        let t = format!("panic at {}: {}", loc, msg);
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                if p.is_none() {
                    *p = Some(t);
                }
            }
        });
    }));
}

/// run something that may panic; the panic becomes an error text
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| p.borrow_mut().take());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(p) => Err(LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_else(|| payload(&*p))),
    }
}

pub fn one(f: CaseFn, o: &Opts, i: u64, verbose: bool) -> (Ctx, R) {
    let mut ctx = Ctx::new(o.case_seed(i), i);
    ctx.verbose = verbose;
    ctx.thorough = o.thorough;
    ctx.small = o.small;
    let r = match guarded(|| f(&mut ctx)) {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    (ctx, r)
}

struct Slot {
    case: AtomicU64,
    started: AtomicU64,
    cpu_clock: AtomicU64,
}

#[cfg(not(miri))]
fn thread_cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
#[cfg(miri)]
fn thread_cpu() -> f64 {
    0.0
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// a small file that survives a crash of this process and tells which case each thread was in
struct Progress(Option<std::fs::File>);
impl Progress {
    fn set(&self, slot: usize, case: u64) {
        #[cfg(not(miri))]
        if let Some(f) = &self.0 {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{:>15}\n", case as i64).as_bytes(), slot as u64 * 16);
        }
        #[cfg(miri)]
        let _ = (slot, case);
    }
}

pub fn main(suites: &[(&'static str, CaseFn)]) -> i32 {
    install_hook();
    let o = Opts::parse();
    let Some((_, f)) = suites.iter().find(|x| x.0 == o.suite) else {
        eprintln!("unknown suite {:?}", o.suite);
        return 2;
    };
    let f = *f;
    if let Some(i) = o.only {
        let f2 = f;
        let o2 = o.clone();
        // the same stack size as the workers
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let (ctx, r) = one(f2, &o2, i, true);
                println!("suite {} seed {} case {}", o2.suite, o2.seed, i);
                for t in &ctx.trace {
                    println!("  {}", t);
                }
                if let Some(d) = ctx.digest {
                    println!("case {}: digest {:016x}", i, d);
                }
                match r {
                    Ok(()) => {
                        println!("case {}: held", i);
                        0
                    }
                    Err(e) => {
                        println!("case {}: FAILED: {}", i, e);
                        1
                    }
                }
            })
            .unwrap();
        return h.join().unwrap();
    }
    let t0 = std::time::Instant::now();
    let next = Arc::new(AtomicU64::new(o.start));
    let end = o.start + o.cases;
    let done = Arc::new(AtomicU64::new(0));
    let stop_at = Arc::new(AtomicU64::new(u64::MAX));
    let finished = Arc::new(AtomicBool::new(false));
    let fails: Arc<Mutex<BTreeMap<u64, String>>> = Default::default();
    let digests: Arc<Mutex<BTreeMap<u64, u64>>> = Default::default();
    let agg: Arc<Mutex<(BTreeMap<&'static str, u64>, HashSet<u64>, u64, Vec<u64>)>> = Default::default();
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..o.threads)
            .map(|_| Slot {
                case: AtomicU64::new(u64::MAX),
                started: AtomicU64::new(0),
                cpu_clock: AtomicU64::new(0),
            })
            .collect(),
    );
    let progress = Arc::new(Progress(o.progress.as_ref().map(|p| {
        std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap()
    })));
    let worker = {
        let (o, digests, next, done, stop_at, fails, agg, slots, progress) = (
            o.clone(),
            digests.clone(),
            next.clone(),
            done.clone(),
            stop_at.clone(),
            fails.clone(),
            agg.clone(),
            slots.clone(),
            progress.clone(),
        );
        move |me: usize| {
            let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut sigs = Vec::new();
            let mut ops = 0;
            let mut samples = Vec::new();
            #[cfg(not(miri))]
            {
                let mut c: libc::clockid_t = 0;
                unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
                slots[me].cpu_clock.store(c as u32 as u64, SeqCst);
            }
            loop {
                if t0.elapsed().as_secs_f64() > o.secs {
                    break;
                }
                let i = next.fetch_add(1, SeqCst);
                if i >= end || i >= stop_at.load(SeqCst) {
                    break;
                }
                slots[me].started.store((thread_cpu() * 1e3) as u64, SeqCst);
                slots[me].case.store(i, SeqCst);
                progress.set(me, i);
                let (ctx, r) = one(f, &o, i, false);
                slots[me].case.store(u64::MAX, SeqCst);
                progress.set(me, u64::MAX);
                done.fetch_add(1, SeqCst);
                ops += ctx.ops;
                if let Some(d) = ctx.digest {
                    digests.lock().unwrap().insert(i, d);
                }
                if ctx.nontrivial {
                    sigs.push(ctx.sig.0);
                    if samples.len() < o.samples {
                        samples.push(i);
                    }
                }
                for (k, v) in &ctx.stats {
                    let e = stats.entry(k).or_insert(0);
                    if k.starts_with("max.") {
                        *e = (*e).max(*v);
                    } else {
                        *e += v;
                    }
                }
                if let Err(e) = r {
                    fails.lock().unwrap().insert(i, e);
                    let mut s = stop_at.load(SeqCst);
                    while i < s {
                        match stop_at.compare_exchange(s, i, SeqCst, SeqCst) {
                            Ok(_) => break,
                            Err(x) => s = x,
                        }
                    }
                }
            }
            let mut a = agg.lock().unwrap();
            for (k, v) in stats {
                let e = a.0.entry(k).or_insert(0);
                if k.starts_with("max.") {
                    *e = (*e).max(v);
                } else {
                    *e += v;
                }
            }
            a.1.extend(sigs);
            a.2 += ops;
            a.3.extend(samples);
        }
    };
    #[cfg(not(miri))]
    {
        // watchdog over the cpu time of each case
        let (slots, finished, o) = (slots.clone(), finished.clone(), o.clone());
        std::thread::spawn(move || {
            let mut idle: Vec<(u64, u64, u32)> = vec![(u64::MAX, 0, 0); slots.len()];
            while !finished.load(SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(500));
                for (k, s) in slots.iter().enumerate() {
                    let case = s.case.load(SeqCst);
                    if case == u64::MAX {
                        idle[k] = (case, 0, 0);
                        continue;
                    }
                    let start = s.started.load(SeqCst);
                    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
                    let clk = s.cpu_clock.load(SeqCst) as u32 as libc::clockid_t;
                    if unsafe { libc::clock_gettime(clk, &mut t) } != 0 {
                        continue;
                    }
                    let now = t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1000000;
                    if s.case.load(SeqCst) != case {
                        continue;
                    }
                    let mut kind = "";
                    if now.saturating_sub(start) > (o.hang_cpu * 1e3) as u64 {
                        kind = "cpu";
                    }
                    // no cpu use at all for a long time: blocked
                    if idle[k].0 == case && idle[k].1 == now {
                        idle[k].2 += 1;
                        if idle[k].2 > 240 {
                            kind = "blocked";
                        }
                    } else {
                        idle[k] = (case, now, 0);
                    }
                    if !kind.is_empty() {
                        println!("HANG suite={} case={} kind={}", o.suite, case, kind);
                        let _ = std::io::stdout().flush();
                        std::process::exit(97);
                    }
                }
            }
        });
    }
    let mut hs = Vec::new();
    for k in 0..o.threads {
        let w = worker.clone();
        hs.push(std::thread::Builder::new().stack_size(STACK).spawn(move || w(k)).unwrap());
    }
    for h in hs {
        h.join().unwrap();
    }
    finished.store(true, SeqCst);
    // report
    let a = agg.lock().unwrap();
    let fails = fails.lock().unwrap();
    let mut out = String::from("{\n");
    out.push_str(&format!(
        " \"suite\": {}, \"seed\": {}, \"cases\": {}, \"requested\": {}, \"ops\": {}, \"distinct_nontrivial\": {}, \"wall_s\": {:.2},\n",
        json_str(&o.suite),
        o.seed,
        done.load(SeqCst),
        o.cases,
        a.2,
        a.1.len(),
        t0.elapsed().as_secs_f64()
    ));
    out.push_str(" \"stats\": {");
    let mut sep = "";
    for (k, v) in &a.0 {
        out.push_str(&format!("{}{}: {}", sep, json_str(k), v));
        sep = ", ";
    }
    out.push_str("},\n \"samples\": [");
    let mut sep = "";
    let mut sm = a.3.clone();
    sm.sort();
    if fails.is_empty() {
        for i in sm.iter().take(o.samples) {
            let i = *i;
            let o2 = o.clone();
            let tr = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let (ctx, _) = one(f, &o2, i, true);
                    ctx.trace
                })
                .unwrap()
                .join()
                .unwrap();
            let mut t: Vec<String> = tr.iter().take(25).map(|x| x.chars().take(160).collect()).collect();
            if tr.len() > 25 {
                t.push(format!("... {} more steps", tr.len() - 25));
            }
            out.push_str(&format!("{}{{\"case\": {}, \"trace\": [{}]}}", sep, i, t.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", ")));
            sep = ", ";
        }
    }
    out.push_str("],\n \"failures\": [");
    let mut sep = "";
    for (i, e) in fails.iter().take(8) {
        out.push_str(&format!("{}{{\"case\": {}, \"what\": {}}}", sep, i, json_str(e)));
        sep = ", ";
    }
    out.push_str("],\n \"digests\": {");
    let mut sep = "";
    for (i, d) in digests.lock().unwrap().iter() {
        out.push_str(&format!("{}\"{}\": \"{:016x}\"", sep, i, d));
        sep = ", ";
    }
    out.push_str("}\n}\n");
    match &o.out {
        Some(p) => std::fs::write(p, &out).unwrap(),
        None => print!("{}", out),
    }
    for (i, e) in fails.iter().take(3) {
        println!("FAIL suite={} seed={} case={} {}", o.suite, o.seed, i, e.chars().take(600).collect::<String>());
    }
    if fails.is_empty() {
        0
    } else {
        1
    }
}

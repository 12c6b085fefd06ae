//! Monitoring framework: deterministic case generation, call instrumentation (panic and hang
//! detection), three-valued verdicts, evidence and replay.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------- rng
/// xoshiro256++, seeded by splitmix64. Our own, so that replay never depends on a crate.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn hash_f64s(v: &[f64]) -> u64 {
    let mut h = 0x1234567u64;
    for x in v {
        h ^= x.to_bits();
        h = splitmix(&mut h);
    }
    h
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)],
        }
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    /// log-uniform in [a, b], a > 0
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        (self.range(a.ln(), b.ln())).exp()
    }
    pub fn sign(&mut self) -> f64 {
        if self.u64() & (1 << 40) == 0 {
            1.0
        } else {
            -1.0
        }
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() >> 33) as usize) % n
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn normal(&mut self) -> f64 {
        let u = 1.0 - self.f();
        let v = self.f();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ------------------------------------------------------------------------------------- the case
#[derive(Clone)]
pub struct Failure {
    pub sig: String,
    pub detail: String,
    pub workload: &'static str,
    pub idx: u64,
}
#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub calls: u64,
    pub checks: u64,
    pub distinct: HashSet<u64>,
    pub bins: BTreeMap<&'static str, u64>,
    pub inconclusive: BTreeMap<&'static str, u64>,
    /// running maxima of (observed / allowed) per named check: how close to the tolerance we came
    pub worst: BTreeMap<&'static str, f64>,
    /// statistical bounds: how often observed, how often exceeded, the first exceedance
    pub soft: BTreeMap<&'static str, Soft>,
}
#[derive(Default, Clone)]
pub struct Soft {
    pub rate: f64,
    pub n: u64,
    pub over: u64,
    pub first: Option<(&'static str, u64, String)>,
}
/// A statistical bound may be exceeded by this share of the observations.
pub const SOFT_RATE: f64 = 2e-3;
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.calls += o.calls;
        self.checks += o.checks;
        self.distinct.extend(o.distinct);
        for (k, v) in o.bins {
            *self.bins.entry(k).or_default() += v;
        }
        for (k, v) in o.inconclusive {
            *self.inconclusive.entry(k).or_default() += v;
        }
        for (k, v) in o.soft {
            let e = self.soft.entry(k).or_default();
            e.n += v.n;
            e.over += v.over;
            e.rate = v.rate;
            let earlier = match (&e.first, &v.first) {
                (None, _) => true,
                (Some(a), Some(b)) => (b.0, b.1) < (a.0, a.1),
                _ => false,
            };
            if earlier {
                e.first = v.first;
            }
        }
        for (k, v) in o.worst {
            let e = self.worst.entry(k).or_insert(0.0);
            if v > *e {
                *e = v;
            }
        }
    }
}

struct Slot {
    /// odd while a call into the code under test is running
    seq: AtomicU64,
    idx: AtomicU64,
    wl: AtomicUsize,
    name: Mutex<&'static str>,
    tid: AtomicU64,
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub wl: &'static str,
    pub thorough: bool,
    pub verbose: bool,
    pub notes: Vec<(String, String)>,
    pub st: Stats,
    pub fails: Vec<Failure>,
    slot: Option<Arc<Slot>>,
}

thread_local! {
    static IN_CALL: RefCell<bool> = const { RefCell::new(false) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

impl Case {
    /// Run one operation of the code under test. A panic is a violation: it is recorded and `None` comes back.
    pub fn call<T>(&mut self, name: &'static str, f: impl FnOnce() -> T) -> Option<T> {
        self.st.calls += 1;
        if cfg!(miri) && self.verbose {
            println!("interpreting {name}");
        }
        if let Some(s) = &self.slot {
            if let Ok(mut n) = s.name.lock() {
                *n = name;
            }
            s.seq.fetch_add(1, SeqCst);
        }
        IN_CALL.with(|c| *c.borrow_mut() = true);
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_CALL.with(|c| *c.borrow_mut() = false);
        if let Some(s) = &self.slot {
            s.seq.fetch_add(1, SeqCst);
        }
        match r {
            Ok(v) => Some(v),
            Err(_) => {
                let m = PANIC_MSG.with(|p| p.borrow().clone());
                self.fail(&format!("panic:{name}"), format!("{name} panicked: {m}"));
                None
            }
        }
    }
    /// Runs `f` in a thread of its own, after `init` there: what a thread carries along (hash seeds) starts afresh.
    #[allow(dead_code)]
    pub fn isolated(&mut self, init: fn(), f: fn(&mut Case)) {
        let slot = self.slot.clone();
        let r = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    init();
                    if let Some(s) = &slot {
                        s.tid.store(tid(), SeqCst);
                    }
                    f(self)
                })
                .unwrap()
                .join()
        });
        if let Some(s) = &slot {
            s.tid.store(tid(), SeqCst);
        }
        if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
    }
    pub fn fail(&mut self, sig: &str, detail: String) {
        let f = Failure { sig: sig.to_string(), detail, workload: self.wl, idx: self.idx };
        self.fails.push(f);
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        self.st.checks += 1;
        if !ok {
            let d = detail();
            self.fail(sig, d);
        }
        ok
    }
    /// observed must be <= allowed (a NaN observed fails)
    pub fn within(&mut self, observed: f64, allowed: f64, sig: &'static str, detail: impl FnOnce() -> String) -> bool {
        self.st.checks += 1;
        let r = if allowed > 0.0 { observed / allowed } else { observed * 1e300 };
        let e = self.st.worst.entry(sig).or_insert(0.0);
        if r > *e {
            *e = r;
        }
        if !(observed <= allowed) {
            let d = detail();
            self.fail(sig, format!("observed {observed:e} > allowed {allowed:e}: {d}"));
            return false;
        }
        true
    }
    /// A bound which all but a small share of the observations must meet (see SOFT_RATE): the numerical
    /// decompositions the code calls have rare, benign tails of inaccuracy which no sharp bound can exclude.
    pub fn soft(&mut self, observed: f64, allowed: f64, sig: &'static str, detail: impl FnOnce() -> String) {
        self.soft_at(SOFT_RATE, observed, allowed, sig, detail)
    }
    /// As `soft`, with a share of its own.
    pub fn soft_at(&mut self, rate: f64, observed: f64, allowed: f64, sig: &'static str, detail: impl FnOnce() -> String) {
        self.st.checks += 1;
        let e = self.st.soft.entry(sig).or_default();
        e.rate = rate;
        e.n += 1;
        if !(observed <= allowed) {
            e.over += 1;
            if e.first.is_none() {
                e.first = Some((self.wl, self.idx, format!("observed {observed:e} > allowed {allowed:e}: {}", detail())));
            }
            if self.verbose {
                self.notes.push((format!("exceeds statistical bound {sig}"), format!("{observed:e} > {allowed:e}")));
            }
        }
    }
    pub fn bin(&mut self, b: &'static str) {
        *self.st.bins.entry(b).or_default() += 1;
    }
    pub fn inconclusive(&mut self, b: &'static str) {
        *self.st.inconclusive.entry(b).or_default() += 1;
    }
    pub fn nontrivial(&mut self, h: u64) {
        self.st.distinct.insert(h);
    }
    pub fn note(&mut self, k: &str, v: &dyn Debug) {
        if self.verbose {
            self.notes.push((k.to_string(), format!("{v:?}")));
        }
    }
}

// ----------------------------------------------------------------------------------- workloads
pub struct Workload {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// fraction of the cases which must have been non-trivial, or the run is not believed
    pub min_nontrivial: f64,
    pub f: fn(&mut Case),
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub workloads: Vec<Workload>,
}
pub fn wl(name: &'static str, quick: u64, thorough: u64, min_nontrivial: f64, f: fn(&mut Case)) -> Workload {
    Workload { name, quick, thorough, min_nontrivial, f }
}

fn case_seed(seed: u64, prop: &str, w: &str, idx: u64) -> u64 {
    let mut x = seed ^ hash_str(prop).rotate_left(17) ^ hash_str(w) ^ idx.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut x)
}
fn mk_case(seed: u64, thorough: bool, prop: &str, w: &Workload, idx: u64, verbose: bool, slot: Option<Arc<Slot>>) -> Case {
    Case {
        rng: Rng::new(case_seed(seed, prop, w.name, idx)),
        idx,
        wl: w.name,
        thorough,
        verbose,
        notes: vec![],
        st: Stats::default(),
        fails: vec![],
        slot,
    }
}

#[derive(Clone)]
pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub known: String,
    pub threads: usize,
    pub scale: f64,
    pub wall_cap: f64,
    pub only: Option<String>,
    pub max_fail: usize,
    pub hang_cpu_s: f64,
    pub tag: String,
}

fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let incall = IN_CALL.with(|c| *c.borrow());
        let m = format!("{info}").replace('\n', " ");
        if incall {
            PANIC_MSG.with(|p| *p.borrow_mut() = m);
        } else {
            eprintln!("HARNESS PANIC: {m}");
        }
    }));
}

/// This thread, as the watchdog looks it up (safe to ask about after the thread has ended).
fn tid() -> u64 {
    // SAFETY: no arguments
    unsafe { libc::syscall(libc::SYS_gettid) as u64 }
}
fn cpu_ns_of(tid: u64) -> Option<u64> {
    // the kernel's clock id of a thread's CPU time
    let id = (!(tid as libc::clockid_t) << 3) | 6;
    // SAFETY: plain data
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    // SAFETY: valid pointer; an unknown thread is an error, not undefined
    if unsafe { libc::clock_gettime(id, &mut ts) } != 0 {
        return None;
    }
    Some(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64)
}

/// Re-runs one case with notes on, and returns the notes and failures.
fn rerun(o: &Opts, p: &Prop, w: &Workload, idx: u64) -> Case {
    let mut c = mk_case(o.seed, o.thorough, p.id, w, idx, true, None);
    let r = catch_unwind(AssertUnwindSafe(|| (w.f)(&mut c)));
    if r.is_err() {
        c.notes.push(("harness".into(), "panicked".into()));
    }
    c
}

fn load_known(path: &str, prop: &str) -> Vec<(String, String)> {
    // finding: property=C17 sig=<sig> <text>
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            let l = l.trim();
            if let Some(r) = l.strip_prefix("finding:") {
                let mut it = r.trim().splitn(3, ' ');
                let (a, b, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if a == format!("property={prop}") {
                    if let Some(s) = b.strip_prefix("sig=") {
                        v.push((s.to_string(), c.to_string()));
                    }
                }
            }
        }
    }
    v
}

pub fn replay(o: &Opts, p: &Prop, wname: &str, idx: u64) -> i32 {
    let Some(w) = p.workloads.iter().find(|w| w.name == wname) else {
        eprintln!("no workload {wname}");
        return 2;
    };
    let c = rerun(o, p, w, idx);
    for (k, v) in &c.notes {
        println!("  {k} = {v}");
    }
    for f in &c.fails {
        println!("FAIL {}: {}", f.sig, f.detail);
    }
    if c.fails.is_empty() {
        println!("case holds");
        0
    } else {
        1
    }
}

pub fn run(o: &Opts, p: &Prop) -> i32 {
    let t0 = Instant::now();
    install_panic_hook();
    let mut total = Stats::default();
    let mut fails: Vec<Failure> = vec![];
    let mut harness_err: Option<String> = None;
    let mut per_wl: Vec<(String, u64, u64)> = vec![];
    let mut truncated = false;
    let slots: Vec<Arc<Slot>> = (0..o.threads)
        .map(|_| {
            Arc::new(Slot {
                seq: AtomicU64::new(0),
                idx: AtomicU64::new(0),
                wl: AtomicUsize::new(0),
                name: Mutex::new(""),
                tid: AtomicU64::new(0),
            })
        })
        .collect();
    'w: for (wi, w) in p.workloads.iter().enumerate() {
        if let Some(only) = &o.only {
            if only != w.name {
                continue;
            }
        }
        let n = (((if o.thorough { w.thorough } else { w.quick }) as f64) * o.scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicUsize::new(0);
        let acc: Mutex<(Stats, Vec<Failure>, Option<String>)> = Mutex::new((Stats::default(), vec![], None));
        let mut hang: Option<(String, u64)> = None;
        let chunk = (n / (o.threads as u64 * 16)).clamp(1, 1024);
        std::thread::scope(|sc| {
            for slot in slots.iter() {
                let slot = slot.clone();
                let (next, stop, done, acc) = (&next, &stop, &done, &acc);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        slot.tid.store(tid(), SeqCst);
                        slot.wl.store(wi, SeqCst);
                        let mut st = Stats::default();
                        let mut fl: Vec<Failure> = vec![];
                        let mut he = None;
                        'o: while !stop.load(Relaxed) {
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= n {
                                break;
                            }
                            for idx in a..(a + chunk).min(n) {
                                slot.idx.store(idx, SeqCst);
                                let mut c = mk_case(o.seed, o.thorough, p.id, w, idx, false, Some(slot.clone()));
                                std::mem::swap(&mut c.st, &mut st);
                                c.st.cases += 1;
                                let r = catch_unwind(AssertUnwindSafe(|| (w.f)(&mut c)));
                                std::mem::swap(&mut c.st, &mut st);
                                if r.is_err() {
                                    he = Some(format!("harness panic in {} case {}", w.name, idx));
                                    stop.store(true, SeqCst);
                                    break 'o;
                                }
                                fl.append(&mut c.fails);
                                if fl.len() >= o.max_fail {
                                    stop.store(true, SeqCst);
                                    break 'o;
                                }
                                if stop.load(Relaxed) {
                                    break 'o;
                                }
                            }
                        }
                        slot.tid.store(0, SeqCst);
                        let mut g = acc.lock().unwrap();
                        g.0.merge(st);
                        g.1.append(&mut fl);
                        if he.is_some() {
                            g.2 = he;
                        }
                        drop(g);
                        done.fetch_add(1, SeqCst);
                    })
                    .unwrap();
            }
            // watchdog: CPU time of one single call, not wall time
            let mut seen: Vec<(u64, u64)> = vec![(0, 0); slots.len()];
            let mut tick = 0u64;
            while done.load(SeqCst) < slots.len() {
                std::thread::sleep(Duration::from_millis(5));
                tick += 1;
                if t0.elapsed().as_secs_f64() > o.wall_cap {
                    stop.store(true, SeqCst);
                    truncated = true;
                }
                if tick % 100 != 0 {
                    continue;
                }
                for (k, slot) in slots.iter().enumerate() {
                    let s = slot.seq.load(SeqCst);
                    let pt = slot.tid.load(SeqCst);
                    if s % 2 == 0 || pt == 0 {
                        seen[k] = (0, 0);
                        continue;
                    }
                    let Some(c) = cpu_ns_of(pt) else { continue };
                    if seen[k].0 != s {
                        seen[k] = (s, c);
                    } else if c.saturating_sub(seen[k].1) as f64 > o.hang_cpu_s * 1e9 {
                        let nm = slot.name.lock().map(|n| *n).unwrap_or("?");
                        hang = Some((nm.to_string(), slot.idx.load(SeqCst)));
                        break;
                    }
                }
                if hang.is_some() {
                    break;
                }
            }
            if let Some((nm, idx)) = &hang {
                // The stuck thread cannot be joined: report from here and leave.
                let f = Failure {
                    sig: format!("hang:{nm}"),
                    detail: format!("{nm} did not return within {} s of its own CPU time", o.hang_cpu_s),
                    workload: w.name,
                    idx: *idx,
                };
                let known = load_known(&o.known, p.id);
                let st = std::mem::take(&mut acc.lock().unwrap().0);
                total.merge(st);
                write_evidence(o, p, &total, &per_wl, 1, t0, &[], true);
                let path = write_replay(o, p, &f, &[("note".into(), "re-running this case does not terminate".into())]);
                if known.iter().any(|k| k.0 == f.sig) {
                    println!("KNOWN-FINDING: property={} sig={} {}", p.id, f.sig, f.detail);
                }
                println!("detail: {} [{} #{}]: {}", f.sig, f.workload, f.idx, f.detail);
                println!("VIOLATION property={} replay={}", p.id, path);
                use std::io::Write;
                std::io::stdout().flush().ok();
                // SAFETY: immediate exit, nothing to run
                unsafe { libc::_exit(1) }
            }
        });
        let (st, fl, he) = acc.into_inner().unwrap();
        let cases = st.cases;
        let before = total.distinct.len() as u64;
        total.merge(st);
        per_wl.push((w.name.to_string(), cases, total.distinct.len() as u64 - before));
        fails.extend(fl);
        if let Some(h) = he {
            harness_err = Some(h);
            break 'w;
        }
        if truncated {
            break 'w;
        }
    }
    for (k, v) in &total.soft {
        if v.over >= 5 && v.over as f64 > v.rate * v.n as f64 {
            let (w, idx, d) = v.first.clone().unwrap();
            fails.push(Failure {
                sig: format!("rate:{k}"),
                detail: format!("{} of {} observations exceed the bound (allowed share {:e}); first: {d}", v.over, v.n, v.rate),
                workload: w,
                idx,
            });
        }
    }
    // deterministic order
    fails.sort_by(|a, b| (&a.sig, a.workload, a.idx).cmp(&(&b.sig, b.workload, b.idx)));
    let known = load_known(&o.known, p.id);
    let mut sigs: BTreeMap<String, (Failure, usize)> = BTreeMap::new();
    for f in &fails {
        sigs.entry(f.sig.clone()).or_insert_with(|| (f.clone(), 0)).1 += 1;
    }
    let mut viol = 0;
    let mut exit = 0;
    for (sig, (f, n)) in &sigs {
        if let Some(k) = known.iter().find(|k| &k.0 == sig) {
            println!("KNOWN-FINDING: property={} sig={} {}", p.id, sig, k.1);
            continue;
        }
        viol += n;
        let w = p.workloads.iter().find(|w| w.name == f.workload).unwrap();
        let c = rerun(o, p, w, f.idx);
        let path = write_replay(o, p, f, &c.notes);
        println!("detail: {} x{} [{} #{}]: {}", sig, n, f.workload, f.idx, f.detail);
        println!("VIOLATION property={} replay={}", p.id, path);
        exit = 1;
    }
    // samples: the first non-trivial looking cases, written out
    let mut samples = vec![];
    for w in p.workloads.iter() {
        if o.only.as_deref().is_some_and(|x| x != w.name) {
            continue;
        }
        let c = rerun(o, p, w, 0);
        let mut s = format!("{{\"workload\":{},\"case\":0", json_str(w.name));
        for (k, v) in c.notes.iter().take(12) {
            let v: String = v.chars().take(400).collect();
            s += &format!(",{}:{}", json_str(k), json_str(&v));
        }
        s += "}";
        samples.push(s);
    }
    write_evidence(o, p, &total, &per_wl, viol, t0, &samples, truncated);
    if exit == 0 {
        if let Some(h) = harness_err {
            eprintln!("ERROR: {h}");
            return 3;
        }
        for w in &p.workloads {
            if let Some((_, cases, nt)) = per_wl.iter().find(|x| x.0 == w.name) {
                if (*nt as f64) < w.min_nontrivial * *cases as f64 {
                    eprintln!(
                        "ERROR: inconclusive: workload {} observed only {} non-trivial cases of {}",
                        w.name, nt, cases
                    );
                    return 4;
                }
            } else if o.only.is_none() && !truncated {
                eprintln!("ERROR: workload {} did not run", w.name);
                return 4;
            }
        }
        println!(
            "OK property={} cases={} calls={} checks={} distinct_nontrivial={} wall={:.1}s{}",
            p.id,
            total.cases,
            total.calls,
            total.checks,
            total.distinct.len(),
            t0.elapsed().as_secs_f64(),
            if truncated { " (wall cap reached)" } else { "" }
        );
    }
    exit
}

/// A few cases of every workload in this thread, without watchdog, evidence or clock: for interpreters.
pub fn run_plain(o: &Opts, p: &Prop, from: u64, n: u64) -> i32 {
    install_panic_hook();
    let known = load_known(&o.known, p.id);
    let mut bad = 0;
    let mut calls = 0;
    let mut checks = 0;
    for w in &p.workloads {
        if o.only.as_deref().is_some_and(|x| x != w.name) {
            continue;
        }
        for idx in from..from + n {
            let mut c = mk_case(o.seed, o.thorough, p.id, w, idx, std::env::var("CVMON_VERBOSE").is_ok(), None);
            (w.f)(&mut c);
            calls += c.st.calls;
            checks += c.st.checks;
            for f in &c.fails {
                if known.iter().any(|k| k.0 == f.sig) {
                    continue;
                }
                println!("detail: {} [{} #{}]: {}", f.sig, f.workload, f.idx, f.detail);
                bad += 1;
            }
        }
        println!("plain workload={} cases={n} calls={calls} checks={checks}", w.name);
    }
    (bad > 0) as i32
}

fn write_replay(o: &Opts, p: &Prop, f: &Failure, notes: &[(String, String)]) -> String {
    let dir = format!("{}/replays", o.out);
    std::fs::create_dir_all(&dir).ok();
    let clean: String = f
        .sig
        .chars()
        .map(|c| if c.is_alphanumeric() || c == '-' || c == '_' { c } else { '_' })
        .collect();
    let path = format!("{}/{}_{}{}.txt", dir, p.id, clean, o.tag);
    let mut s = format!(
        "property={}\nworkload={}\ncase={}\nseed={}\nthorough={}\nsignature={}\nviolation: {}\nre-run: /verif/replay.sh {} {} {} {} {}\n",
        p.id, f.workload, f.idx, o.seed, o.thorough, f.sig, f.detail, p.id, f.workload, f.idx, o.seed,
        if o.thorough { "thorough" } else { "quick" }
    );
    for (k, v) in notes {
        s += &format!("{k} = {v}\n");
    }
    std::fs::write(&path, s).ok();
    path
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    o: &Opts,
    p: &Prop,
    st: &Stats,
    per_wl: &[(String, u64, u64)],
    viol: usize,
    t0: Instant,
    samples: &[String],
    truncated: bool,
) {
    std::fs::create_dir_all(&o.out).ok();
    let map = |m: &BTreeMap<&'static str, u64>| {
        let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
        format!("{{{}}}", v.join(","))
    };
    let worst: Vec<String> = st
        .worst
        .iter()
        .map(|(k, v)| format!("{}:{}", json_str(k), if v.is_finite() { format!("{v:.3e}") } else { "null".into() }))
        .collect();
    let wls: Vec<String> = per_wl
        .iter()
        .map(|(a, b, c)| format!("{}:{{\"cases\":{},\"distinct_nontrivial\":{}}}", json_str(a), b, c))
        .collect();
    let soft: Vec<String> = st
        .soft
        .iter()
        .map(|(k, v)| format!("{}:{{\"observations\":{},\"exceeded\":{}}}", json_str(k), v.n, v.over))
        .collect();
    let ass: Vec<String> = p.assumptions.iter().map(|a| json_str(a)).collect();
    let s = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"calls_into_code_under_test\":{},\"oracle_checks\":{},\"workloads\":{{{}}},\"classes_observed\":{},\"inconclusive\":{},\"worst_observed_over_allowed\":{{{}}},\"statistical_bounds\":{{{}}},\"wall_cap_reached\":{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        json_str(p.id),
        if o.thorough { "thorough" } else { "quick" },
        o.seed,
        st.cases,
        st.distinct.len(),
        json_str(p.rule),
        samples.join(","),
        st.calls,
        st.checks,
        wls.join(","),
        map(&st.bins),
        map(&st.inconclusive),
        worst.join(","),
        soft.join(","),
        truncated,
        ass.join(","),
        t0.elapsed().as_secs_f64(),
        viol
    );
    let path = format!("{}/{}{}.json", o.out, p.id, o.tag);
    std::fs::write(path, s).ok();
}

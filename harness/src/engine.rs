//! A choice-sequence engine (in the style of Hypothesis): all randomness of a case goes through
//! [`Src::draw`], so a case can be recorded, replayed and shrunk as a list of numbers.

use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// SplitMix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut r = Rng(seed ^ fnv(prop.as_bytes()));
    let a = r.next();
    let mut r = Rng(a ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next()
}

enum Mode {
    Random(Rng),
    Replay,
}

pub struct Src {
    mode: Mode,
    input: Vec<u64>,
    pub record: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { mode: Mode::Random(Rng(seed)), input: vec![], record: vec![] }
    }
    pub fn replay(input: Vec<u64>) -> Src {
        Src { mode: Mode::Replay, input, record: vec![] }
    }
    /// A value in 0..=max
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(r) => {
                let x = r.next();
                if max == u64::MAX { x } else { ((x as u128 * (max as u128 + 1)) >> 64) as u64 }
            }
            Mode::Replay => self.input.get(self.record.len()).copied().unwrap_or(0).min(max),
        };
        self.record.push(v);
        v
    }
    /// A value in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.draw(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.draw(hi.wrapping_sub(lo) as u64) as i64)
    }
    /// True with probability num/den; false is the simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.draw(1) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// A list with `avg` elements on average and at most `max`, which shrinks by deleting elements
    pub fn list<T>(&mut self, avg: u64, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut out = vec![];
        while out.len() < max && self.draw(avg) != 0 {
            out.push(f(self));
        }
        out
    }
    /// Now and then some of it again, next to it or elsewhere
    pub fn repeat<T: Clone>(&mut self, xs: &mut Vec<T>, mut change: impl FnMut(&mut Src, &mut T)) {
        if xs.is_empty() || !self.chance(1, 6) {
            return;
        }
        for _ in 0..1 + self.draw(2) {
            let i = self.below(xs.len());
            let mut x = xs[i].clone();
            if self.chance(1, 3) {
                change(self, &mut x);
            }
            let at = if self.chance(2, 3) { i + 1 } else { self.below(xs.len() + 1) };
            xs.insert(at, x);
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.draw(i as u64) as usize;
            xs.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.draw(255) as u8).collect()
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub digest: u64,
    pub want_sample: bool,
    pub sample: Option<String>,
    /// (signature, message)
    pub findings: Vec<(String, String)>,
    /// sub-cases evaluated inside this case (fault positions etc.); 0 = 1
    pub evals: u64,
    pub distinct_inside: u64,
    pub thorough: bool,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("…");
            }
            self.sample = Some(s);
        }
    }
    pub fn hash(&mut self, data: &[u8]) {
        self.digest = self.digest.rotate_left(7) ^ fnv(data);
    }
    pub fn finding(&mut self, sig: &str, msg: impl Into<String>) {
        self.findings.push((sig.to_string(), msg.into()));
    }
    /// One more sub-case
    pub fn eval(&mut self) {
        self.evals += 1;
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;

/// A check made of one numbered, exhaustively enumerated chunk
pub struct Exhaustive {
    pub name: &'static str,
    /// number of chunks for the tier
    pub chunks: fn(bool) -> u64,
    /// returns number of evaluations
    pub run: fn(u64, bool) -> Result<u64, String>,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub run: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub exhaustive: Option<Exhaustive>,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("PBT_PANICS").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Run something which may panic; Err(message) if it did.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())),
    }
}

pub struct Outcome {
    pub record: Vec<u64>,
    pub ctx: Ctx,
    pub res: Res,
}

pub fn run_case(f: CaseFn, mut src: Src, want_sample: bool, thorough: bool, known: &HashSet<String>) -> Outcome {
    let mut ctx = Ctx { want_sample, thorough, ..Ctx::default() };
    let res = match catch(|| f(&mut src, &mut ctx)) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected panic: {p}")),
    };
    let res = res.and_then(|_| {
        for (sig, msg) in &ctx.findings {
            if !known.contains(sig) {
                return Err(format!("[{sig}] {msg}"));
            }
        }
        Ok(())
    });
    Outcome { record: src.record, ctx, res }
}

/// Make a failing choice sequence smaller while it keeps failing.
pub fn shrink(f: CaseFn, start: Outcome, thorough: bool, known: &HashSet<String>, max_runs: usize) -> Outcome {
    let mut best = start;
    let mut runs = 0usize;
    let t0 = std::time::Instant::now();
    let mut attempt = |best: &mut Outcome, cand: Vec<u64>| -> bool {
        if runs >= max_runs || t0.elapsed().as_secs() > 60 {
            return false;
        }
        runs += 1;
        let o = run_case(f, Src::replay(cand), true, thorough, known);
        if o.res.is_err()
            && (o.record.len() < best.record.len()
                || (o.record.len() == best.record.len() && o.record < best.record))
        {
            *best = o;
            return true;
        }
        false
    };
    // a long record is mostly due to a few of the first choices (sizes, noise)
    if best.record.len() > 1000 {
        for i in 0..60 {
            let Some(&v) = best.record.get(i) else { break };
            if v == 0 {
                continue;
            }
            let mut c = best.record.clone();
            c[i] = 0;
            if attempt(&mut best, c) {
                continue;
            }
            // smaller in steps, for not all smaller values need to fail
            let mut v = v;
            for shift in [8u32, 4, 2, 1, 1] {
                let mut c = best.record.clone();
                c[i] = v >> shift;
                if c[i] > 0 && attempt(&mut best, c) {
                    v >>= shift;
                }
            }
            if v > 2 {
                let mut c = best.record.clone();
                c[i] = v - v / 4;
                attempt(&mut best, c);
            }
        }
    }
    loop {
        let before = best.record.clone();
        // delete chunks
        let mut size = (best.record.len() / 2).max(1);
        loop {
            let mut i = best.record.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                let mut c = best.record[..lo].to_vec();
                c.extend_from_slice(&best.record[i.min(best.record.len())..]);
                if attempt(&mut best, c) {
                    i = i.min(best.record.len());
                } else {
                    i = lo;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.record.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.record.len() {
                let hi = (i + size).min(best.record.len());
                if best.record[i..hi].iter().any(|x| *x != 0) {
                    let mut c = best.record.clone();
                    c[i..hi].iter_mut().for_each(|x| *x = 0);
                    attempt(&mut best, c);
                }
                i = hi;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // minimise single values
        let mut i = 0;
        while i < best.record.len() {
            let (mut lo, mut hi) = (0u64, best.record[i]);
            while lo < hi && i < best.record.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.record.clone();
                c[i] = mid;
                if attempt(&mut best, c) {
                    hi = mid.min(best.record.get(i).copied().unwrap_or(0));
                } else {
                    lo = mid + 1;
                }
            }
            // lower this one and delete the next ones (list lengths)
            if i < best.record.len() && best.record[i] > 0 {
                for del in [1usize, 2, 4, 8] {
                    if i + 1 + del <= best.record.len() {
                        let mut c = best.record.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + del);
                        if attempt(&mut best, c) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best.record == before {
            break;
        }
    }
    best
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub distinct_inside: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub findings: BTreeMap<String, (u64, String)>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        self.distinct_inside += o.distinct_inside;
        self.nontrivial += o.nontrivial;
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        for (k, v) in o.findings {
            let e = self.findings.entry(k).or_insert((0, v.1.clone()));
            e.0 += v.0;
        }
    }
}

/// What a worker is doing: shared with the watchdog
pub struct Slot {
    pub idx: AtomicU64,
    pub serial: AtomicU64,
    pub clock: Mutex<Option<libc::clockid_t>>,
}

pub enum Failure {
    Case { idx: u64, outcome: Box<Outcome> },
    Hang { idx: u64, secs: u64 },
    Exhaustive { chunk: u64, msg: String },
}

pub struct Job<'a> {
    pub prop: &'a Prop,
    pub seed: u64,
    pub thorough: bool,
    pub cases: u64,
    pub threads: usize,
    pub known: HashSet<String>,
    /// file where workers note the case they are on, for when the process dies
    pub slots_file: Option<std::fs::File>,
    pub only: Option<u64>,
}

const HANG_CPU_SECS: u64 = 60;

fn thread_cpu(clock: libc::clockid_t) -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clock, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

/// Called with the failure of a hanging case, from the watchdog thread, before the process exits.
pub type HangHandler = Arc<dyn Fn(u64, u64) + Send + Sync>;

pub fn run_job(job: &Job, on_hang: HangHandler) -> (Stats, Option<Failure>) {
    let next = Arc::new(AtomicU64::new(0));
    let bound = Arc::new(AtomicU64::new(u64::MAX));
    let done = Arc::new(AtomicBool::new(false));
    let slots: Vec<Arc<Slot>> = (0..job.threads)
        .map(|_| {
            Arc::new(Slot {
                idx: AtomicU64::new(u64::MAX),
                serial: AtomicU64::new(0),
                clock: Mutex::new(None),
            })
        })
        .collect();
    // watchdog
    let wd = {
        let slots = slots.clone();
        let done = done.clone();
        std::thread::spawn(move || {
            let mut seen: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); slots.len()];
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                for (i, s) in slots.iter().enumerate() {
                    let Some(c) = *s.clock.lock().unwrap() else { continue };
                    let serial = s.serial.load(Ordering::Relaxed);
                    let cpu = thread_cpu(c);
                    if seen[i].0 != serial {
                        seen[i] = (serial, cpu);
                    } else if cpu - seen[i].1 > HANG_CPU_SECS as f64
                        && s.idx.load(Ordering::Relaxed) != u64::MAX
                    {
                        on_hang(s.idx.load(Ordering::Relaxed), (cpu - seen[i].1) as u64);
                    }
                }
            }
        })
    };
    let chunks = match (&job.prop.exhaustive, job.only) {
        (Some(e), None) => (e.chunks)(job.thorough),
        _ => 0,
    };
    let failures: Mutex<Vec<Failure>> = Mutex::new(vec![]);
    let total = Mutex::new(Stats::default());
    std::thread::scope(|sc| {
        for t in 0..job.threads {
            let slot = slots[t].clone();
            let next = next.clone();
            let bound = bound.clone();
            let failures = &failures;
            let total = &total;
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut clock: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
                    *slot.clock.lock().unwrap() = Some(clock);
                    let mut st = Stats::default();
                    loop {
                        let mut n = next.fetch_add(1, Ordering::Relaxed);
                        if let Some(o) = job.only {
                            if n > 0 {
                                break;
                            }
                            n = o;
                        } else if n >= job.cases + chunks {
                            break;
                        }
                        if n > bound.load(Ordering::Relaxed) {
                            break;
                        }
                        slot.idx.store(n, Ordering::Relaxed);
                        slot.serial.fetch_add(1, Ordering::Relaxed);
                        if let Some(f) = &job.slots_file {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_at(&n.to_le_bytes(), t as u64 * 8);
                        }
                        if n >= job.cases && job.only.is_none() {
                            let e = job.prop.exhaustive.as_ref().unwrap();
                            let chunk = n - job.cases;
                            // long, but known to end
                            slot.idx.store(u64::MAX, Ordering::Relaxed);
                            let r = match catch(|| (e.run)(chunk, job.thorough)) {
                                Ok(r) => r,
                                Err(p) => Err(format!("unexpected panic: {p}")),
                            };
                            match r {
                                Ok(k) => {
                                    st.evals += k;
                                    st.distinct_inside += k;
                                    *st.labels.entry(e.name).or_default() += k;
                                }
                                Err(msg) => {
                                    failures.lock().unwrap().push(Failure::Exhaustive { chunk, msg });
                                    bound.fetch_min(n, Ordering::Relaxed);
                                }
                            }
                            continue;
                        }
                        let src = Src::random(case_seed(job.seed, job.prop.id, n));
                        let o = run_case(job.prop.run, src, n < 400, job.thorough, &job.known);
                        st.cases += 1;
                        st.evals += o.ctx.evals.max(1);
                        for l in &o.ctx.labels {
                            *st.labels.entry(l).or_default() += 1;
                        }
                        for (sig, msg) in &o.ctx.findings {
                            let e = st.findings.entry(sig.clone()).or_insert((0, msg.clone()));
                            e.0 += 1;
                        }
                        if o.ctx.nontrivial {
                            st.nontrivial += 1;
                            let d = if o.ctx.digest != 0 {
                                o.ctx.digest
                            } else {
                                let mut h = 0xcbf29ce484222325u64;
                                for c in &o.record {
                                    h = (h ^ c).wrapping_mul(0x100000001b3);
                                }
                                h
                            };
                            if st.distinct.insert(d) {
                                st.distinct_inside += o.ctx.distinct_inside;
                            }
                            if let Some(s) = &o.ctx.sample {
                                if st.samples.len() < 3 {
                                    st.samples.push(s.clone());
                                }
                            }
                        }
                        if o.res.is_err() {
                            bound.fetch_min(n, Ordering::Relaxed);
                            failures.lock().unwrap().push(Failure::Case { idx: n, outcome: Box::new(o) });
                        }
                    }
                    slot.idx.store(u64::MAX, Ordering::Relaxed);
                    *slot.clock.lock().unwrap() = None;
                    total.lock().unwrap().merge(st);
                })
                .unwrap();
        }
    });
    done.store(true, Ordering::Relaxed);
    let _ = wd.join();
    let mut fs = failures.into_inner().unwrap();
    fs.sort_by_key(|f| match f {
        Failure::Case { idx, .. } => *idx,
        Failure::Hang { idx, .. } => *idx,
        Failure::Exhaustive { chunk, .. } => u64::MAX / 2 + chunk,
    });
    let f = if fs.is_empty() { None } else { Some(fs.remove(0)) };
    (total.into_inner().unwrap(), f)
}

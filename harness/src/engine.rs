//! A small property-based testing engine.
//!
//! Every random choice a case makes is drawn from a `Src`, which records it on
//! a tape. Re-running a case from its tape reproduces it, and shrinking edits
//! the tape (delete blocks, zero blocks, lower single choices), so every
//! generator shrinks without code of its own. A case is a pure function of its
//! tape, and the tape of case `i` is a pure function of (seed, part, i): the
//! result of a run does not depend on thread scheduling or on the clock.

use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}

pub struct Src {
    tape: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
}

pub const MAX_TAPE: usize = 60_000;

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: vec![], pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(tape: Vec<u32>) -> Self {
        Src { tape, pos: 0, rng: None }
    }
    /// Uniform in `0..n`; 0 is the simplest choice.
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        if let Some(rng) = &mut self.rng {
            if self.tape.len() >= MAX_TAPE {
                return 0;
            }
            let v = (rng.next() % n as u64) as u32;
            self.tape.push(v);
            v
        } else {
            let v = self.tape.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            v.min(n - 1)
        }
    }
    /// True with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    pub fn range(&mut self, lo: u32, hi_incl: u32) -> u32 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u32) as usize]
    }
    /// Index by weights; earlier entries are simpler.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    pub fn u64(&mut self) -> u64 {
        let a = self.below(1 << 16) as u64;
        let b = self.below(1 << 16) as u64;
        let c = self.below(1 << 16) as u64;
        let d = self.below(1 << 16) as u64;
        a << 48 | b << 32 | c << 16 | d
    }
    fn used(&self) -> Vec<u32> {
        if self.rng.is_some() {
            self.tape.clone()
        } else {
            self.tape[..self.pos.min(self.tape.len())].to_vec()
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// Which clause of the oracle was broken, plus whatever identifies the
    /// failing input for the known-findings file.
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::engine::Fail { sig: $sig.into(), msg: format!($($arg)*) });
        }
    };
}

#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub input: String,
    labels: Vec<&'static str>,
    pub skipped: bool,
}

impl Case {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    /// Record the concrete input of the case and whether it counts.
    pub fn input(&mut self, s: impl Into<String>, nontrivial: bool) {
        self.input = s.into();
        self.nontrivial = nontrivial;
    }
    pub fn skip(&mut self) {
        self.skipped = true;
    }
}

pub type CaseFn = fn(&mut Src, &mut Case) -> Res;

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
    /// For parts that enumerate a finite set: the number of cases. The case
    /// index is handed to the case as its first choices instead of randomness.
    pub enumerate: Option<fn(bool) -> u64>,
}

impl Part {
    pub fn random(name: &'static str, quick: u64, thorough: u64, run: CaseFn) -> Part {
        Part { name, quick, thorough, run, enumerate: None }
    }
    /// Every case of a finite set; `count` is told whether the tier is thorough.
    pub fn all(name: &'static str, count: fn(bool) -> u64, run: CaseFn) -> Part {
        Part { name, quick: 0, thorough: 0, run, enumerate: Some(count) }
    }
}

/// The index of an enumerated case, as its tape carries it.
pub fn enum_index(src: &mut Src) -> u64 {
    let hi = src.below(u32::MAX) as u64;
    let lo = src.below(u32::MAX) as u64;
    hi << 24 | lo
}
fn enum_tape(i: u64) -> Vec<u32> {
    vec![(i >> 24) as u32, (i & 0xFF_FFFF) as u32]
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} (at {loc})"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run `f`; a panic becomes `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub struct Outcome {
    pub res: Res,
    pub case: Case,
    pub tape: Vec<u32>,
}

pub fn run_case(run: CaseFn, mut src: Src) -> Outcome {
    let mut case = Case::default();
    let r = catch_unwind(AssertUnwindSafe(|| run(&mut src, &mut case)));
    let res = match r {
        Ok(r) => r,
        Err(_) => {
            let msg = last_panic();
            // strip line numbers and quoted payload so that equal causes agree
            let loc = msg.rsplit("(at ").next().unwrap_or("").trim_end_matches(')');
            // .../registry/src/<index>/kdl-4.7.1/src/parser.rs:47 -> kdl-4.7.1/src/parser.rs:47
            let loc = loc.split_once("/registry/src/").and_then(|(_, r)| r.split_once('/')).map(|(_, r)| r).unwrap_or(loc).to_string();
            Err(Fail { sig: format!("panic at {loc}"), msg: format!("panicked: {msg}") })
        }
    };
    Outcome { res, case, tape: src.used() }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub part: &'static str,
    pub index: u64,
    pub sig: String,
    pub msg: String,
    pub tape: Vec<u32>,
    pub input: String,
}

#[derive(Default)]
pub struct PartStats {
    pub name: &'static str,
    pub cases: u64,
    pub skipped: u64,
    pub nontrivial_distinct: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    pub fail_count: u64,
    pub exhaustive: bool,
    pub wall_s: f64,
}

#[derive(Default)]
struct Local {
    cases: u64,
    skipped: u64,
    labels: BTreeMap<&'static str, u64>,
    hashes: Vec<u64>,
    nontrivial: u64,
    samples: Vec<(u64, String)>,
    failures: BTreeMap<String, Failure>,
    fail_count: u64,
}

pub fn run_part(part: &Part, seed: u64, thorough: bool, scale: f64, threads: usize, stop: Option<&[(String, String)]>) -> PartStats {
    let started = std::time::Instant::now();
    let total = match part.enumerate {
        Some(f) => f(thorough),
        None => (((if thorough { part.thorough } else { part.quick }) as f64) * scale).ceil() as u64,
    };
    let base = seed
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add(hash_str(part.name));
    let next = AtomicU64::new(0);
    let nfail = AtomicUsize::new(0);
    let many = std::env::var_os("KDLCHECK_MANY").is_some();
    let merged: Mutex<Vec<Local>> = Mutex::new(vec![]);
    let chunk = (total / (threads as u64 * 16)).clamp(1, 256);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, || {
                    let mut l = Local::default();
                    loop {
                        let start = next.fetch_add(chunk, Ordering::Relaxed);
                        if start >= total || (stop.is_some() && nfail.load(Ordering::Relaxed) >= 24) {
                            break;
                        }
                        for i in start..(start + chunk).min(total) {
                            let src = match part.enumerate {
                                Some(_) => Src::replay(enum_tape(i)),
                                None => {
                                    let mut r = Rng::new(base.wrapping_add(i.wrapping_mul(0xD134_2543_DE82_EF95)));
                                    Src::random(r.next())
                                }
                            };
                            let out = run_case(part.run, src);
                            l.cases += 1;
                            if out.case.skipped {
                                l.skipped += 1;
                            }
                            for lb in &out.case.labels {
                                *l.labels.entry(lb).or_default() += 1;
                            }
                            if out.case.nontrivial {
                                l.nontrivial += 1;
                                l.hashes.push(hash_str(&out.case.input));
                                if l.samples.len() < 2 || i % 4099 == 7 && l.samples.len() < 6 {
                                    l.samples.push((i, out.case.input.clone()));
                                }
                            }
                            if let Err(f) = out.res {
                                l.fail_count += 1;
                                // known findings do not end the search
                                if stop.is_some_and(|known| known.iter().all(|(sig, _)| *sig != f.sig)) {
                                    nfail.fetch_add(1, Ordering::Relaxed);
                                }
                                let e = Failure {
                                    part: part.name,
                                    index: i,
                                    sig: f.sig.clone(),
                                    msg: f.msg,
                                    tape: out.tape,
                                    input: out.case.input,
                                };
                                let key = if many { format!("{}#{}", f.sig, l.fail_count % 40) } else { f.sig };
                                let slot = l.failures.entry(key);
                                slot.and_modify(|old| {
                                    if e.tape.len() < old.tape.len() {
                                        *old = e.clone();
                                    }
                                })
                                .or_insert(e);
                            }
                        }
                    }
                    merged.lock().unwrap().push(l);
                })
                .expect("spawn");
        }
    });
    let mut st = PartStats { name: part.name, exhaustive: part.enumerate.is_some(), ..Default::default() };
    let mut seen = HashSet::new();
    let mut fails: BTreeMap<String, Failure> = BTreeMap::new();
    let mut samples = vec![];
    for l in merged.into_inner().unwrap() {
        st.cases += l.cases;
        st.skipped += l.skipped;
        st.fail_count += l.fail_count;
        for (k, v) in l.labels {
            *st.labels.entry(k).or_default() += v;
        }
        seen.extend(l.hashes);
        samples.extend(l.samples);
        for (k, f) in l.failures {
            match fails.get(&k) {
                Some(old) if old.tape.len() <= f.tape.len() => {}
                _ => {
                    fails.insert(k, f);
                }
            }
        }
    }
    samples.sort();
    st.samples = samples.into_iter().take(4).map(|(_, s)| s).collect();
    st.nontrivial_distinct = seen.len() as u64;
    st.failures = fails.into_values().collect();
    st.failures.sort_by_key(|f| f.tape.len());
    st.wall_s = started.elapsed().as_secs_f64();
    st
}

/// Shrink a failing tape, keeping the failure's signature.
pub fn shrink(run: CaseFn, f: &Failure, max_evals: usize) -> Failure {
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(40);
    let evals = std::cell::Cell::new(0usize);
    let mut best = f.clone();
    let attempt = |tape: Vec<u32>| -> Option<Failure> {
        evals.set(evals.get() + 1);
        let out = run_case(run, Src::replay(tape));
        match out.res {
            Err(e) if e.sig == f.sig => Some(Failure {
                part: f.part,
                index: f.index,
                sig: e.sig,
                msg: e.msg,
                tape: out.tape,
                input: out.case.input,
            }),
            _ => None,
        }
    };
    let better = |a: &Failure, b: &Failure| -> bool {
        (a.tape.len(), &a.tape) < (b.tape.len(), &b.tape)
    };
    let done = || evals.get() >= max_evals || std::time::Instant::now() > deadline;
    if let Some(n) = attempt(best.tape.clone()) {
        best = n;
    } else {
        return best;
    }
    loop {
        let before = best.tape.clone();
        let mut size = (best.tape.len() / 2).next_power_of_two().max(1);
        while size >= 1 && !done() {
            let mut i = best.tape.len().saturating_sub(size);
            loop {
                if done() {
                    break;
                }
                if i + size <= best.tape.len() {
                    let mut t = best.tape.clone();
                    t.drain(i..i + size);
                    let mut hit = false;
                    if let Some(n) = attempt(t) {
                        if better(&n, &best) {
                            best = n;
                            hit = true;
                        }
                    }
                    if !hit && best.tape[i..i + size].iter().any(|x| *x != 0) {
                        let mut t = best.tape.clone();
                        t[i..i + size].iter_mut().for_each(|x| *x = 0);
                        if let Some(n) = attempt(t) {
                            if better(&n, &best) {
                                best = n;
                            }
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size.div_ceil(2)).min(best.tape.len());
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.tape.len() && !done() {
            let mut lo = 0u32;
            let mut hi = best.tape[i];
            while lo < hi && !done() {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.tape.clone();
                t[i] = mid;
                match attempt(t) {
                    Some(n) if better(&n, &best) => {
                        best = n;
                        hi = mid;
                        if i >= best.tape.len() {
                            break;
                        }
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best.tape == before || done() {
            break;
        }
    }
    best
}

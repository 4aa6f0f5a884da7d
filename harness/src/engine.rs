//! A small property-based testing engine in the style of Hypothesis/minithesis.
//!
//! Every random choice a case makes is drawn from a `Source` and recorded on a tape of integers.
//! Replaying a tape reproduces the case; shrinking edits the tape (delete, zero, lower entries) and
//! keeps edits that still fail in the same way. Case `i` of a run is a pure function of
//! (seed, property, i), so the outcome does not depend on how cases are spread over threads.
use crate::scalar;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
pub fn hash_words(it: impl IntoIterator<Item = u64>) -> u64 {
    it.into_iter().fold(0x1234_5678_9abc_def1, |h, w| mix(h ^ w.wrapping_mul(0x9E3779B97F4A7C15)))
}

/// Deterministic expansion of one drawn word (used for the elements of large matrices).
#[derive(Clone)]
pub struct Expand(u64);
impl Expand {
    pub fn new(seed: u64) -> Self {
        Expand(mix(seed ^ 0xabcdef))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub struct Source<'a> {
    tape: Option<&'a [u64]>,
    pos: usize,
    rng: Expand,
    pub rec: Vec<u64>,
}
impl<'a> Source<'a> {
    pub fn random(seed: u64) -> Source<'static> {
        Source { tape: None, pos: 0, rng: Expand::new(seed), rec: Vec::new() }
    }
    pub fn replay(tape: &'a [u64]) -> Source<'a> {
        Source { tape: Some(tape), pos: 0, rng: Expand::new(0), rec: Vec::new() }
    }
    /// An integer in 0..n (n = 0 means the full 64-bit range). Shrinks towards 0.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match self.tape {
            None => {
                if n == 0 {
                    self.rng.next()
                } else {
                    self.rng.below(n)
                }
            }
            Some(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0);
                if n == 0 {
                    v
                } else {
                    v.min(n - 1)
                }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn u(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.u(hi - lo + 1)
    }
    /// Index drawn with the given weights; shrinks towards index 0.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        // draw the index itself so that shrinking sees small integers
        let i = match self.tape {
            Some(_) => return self.u(w.len()),
            None => {
                let mut x = self.rng.below(total as u64) as u32;
                let mut i = 0;
                while x >= w[i] {
                    x -= w[i];
                    i += 1;
                }
                i
            }
        };
        self.pos += 1;
        self.rec.push(i as u64);
        i
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.weighted(&[den - num, num]) == 1
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.u(xs.len())]
    }
    /// A permutation of 0..n; shrinks to the identity
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.u(n - i);
            p.swap(i, j);
        }
        p
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(kind: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { kind: kind.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $kind:expr, $($arg:tt)*) => {
        if !($c) { return $crate::engine::fail($kind, format!($($arg)*)); }
    };
}

#[derive(Default, Clone)]
pub struct Stats {
    pub labels: BTreeMap<&'static str, u64>,
    pub ratios: BTreeMap<&'static str, f64>,
}
pub struct Cx {
    pub stats: Stats,
    pub nontrivial: bool,
    pub want_note: bool,
    pub note: String,
    pub thorough: bool,
}
impl Cx {
    pub fn new(want_note: bool) -> Self {
        Cx { stats: Default::default(), nontrivial: false, want_note, note: String::new(), thorough: false }
    }
    pub fn label(&mut self, l: &'static str) {
        *self.stats.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn interesting(&mut self) {
        self.nontrivial = true;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_note {
            let s = f();
            if std::env::var_os("LV_TRACE").is_some() {
                eprintln!("note: {}", s);
            }
            if !self.note.is_empty() {
                self.note.push_str("; ");
            }
            self.note.push_str(&s);
        }
    }
    /// Check err <= tol, recording the worst err/tol seen under `what`.
    pub fn within(&mut self, what: &'static str, err: f64, tol: f64, ctx: impl FnOnce() -> String) -> Res {
        let r = if err == 0.0 { 0.0 } else { err / tol };
        let e = self.stats.ratios.entry(what).or_insert(0.0);
        if !(r <= *e) {
            *e = r;
        }
        if !(r <= 1.0) && !survey() {
            return fail(what, format!("{}: error {:e} exceeds tolerance {:e} ({})", what, err, tol, ctx()));
        }
        Ok(())
    }
}

/// Calibration aid: with LV_SURVEY set, tolerances are recorded but not enforced.
pub fn survey() -> bool {
    static S: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *S.get_or_init(|| std::env::var_os("LV_SURVEY").is_some())
}
pub type CaseFn = fn(&mut Source, &mut Cx) -> Res;

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub run: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub pinned: &'static [(&'static str, fn(&mut Cx) -> Res)],
    pub assumptions: &'static [&'static str],
}

thread_local! {
    pub static FORCE_COUNTING: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub const CASE_FUEL: u64 = 3_000_000_000;

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{} at {}", msg, loc)
            }
        });
    }));
}

/// Run a closure, turning a panic into its message.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Panic kind with digits removed, so that a shrunk case with other dimensions is the same failure.
fn panic_kind(m: &str) -> String {
    if m.contains(scalar::FUEL_MSG) {
        "does-not-terminate".into()
    } else {
        format!("panic: {}", m.chars().filter(|c| !c.is_ascii_digit()).take(160).collect::<String>())
    }
}

pub fn run_case(f: CaseFn, s: &mut Source, cx: &mut Cx) -> Res {
    scalar::set_fuel(CASE_FUEL);
    let r = match caught(|| f(s, cx)) {
        Ok(r) => r,
        Err(m) => fail(panic_kind(&m), m),
    };
    scalar::set_fuel(u64::MAX);
    r
}

fn better(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

struct Shrinker<'f> {
    f: CaseFn,
    kind: String,
    best: Vec<u64>,
    best_fail: Fail,
    evals: usize,
    max_evals: usize,
    deadline: Instant,
    on_better: &'f mut dyn FnMut(&[u64], &Fail),
    tick: &'f dyn Fn(),
}
impl<'f> Shrinker<'f> {
    fn out(&self) -> bool {
        self.evals >= self.max_evals || Instant::now() > self.deadline
    }
    fn try_tape(&mut self, t: &[u64]) -> bool {
        if self.out() || !better(t, &self.best) {
            return false;
        }
        self.evals += 1;
        (self.tick)();
        let mut s = Source::replay(t);
        let mut cx = Cx::new(false);
        if let Err(fl) = run_case(self.f, &mut s, &mut cx) {
            if fl.kind == self.kind {
                // trailing draws beyond the recorded ones are dropped, missing ones appear as zeros
                let rec = s.rec;
                let cand = if better(&rec, t) { rec } else { t.to_vec() };
                if better(&cand, &self.best) {
                    self.best = cand;
                    self.best_fail = fl;
                    (self.on_better)(&self.best, &self.best_fail);
                    return true;
                }
            }
        }
        false
    }
    fn run(&mut self) {
        loop {
            let before = self.best.clone();
            // lower early entries first: types, classes and dimensions live there
            self.lower(12);
            for k in [64usize, 16, 8, 4, 2, 1] {
                let mut i = self.best.len();
                while i >= k && !self.out() {
                    let mut t = self.best.clone();
                    if i > t.len() {
                        i = t.len();
                        continue;
                    }
                    t.drain(i - k..i);
                    if !self.try_tape(&t) {
                        i -= 1.max(k / 2);
                    } else {
                        i = i.min(self.best.len());
                    }
                }
            }
            for k in [16usize, 4, 1] {
                let mut i = 0;
                while i < self.best.len() && !self.out() {
                    let mut t = self.best.clone();
                    let e = (i + k).min(t.len());
                    if t[i..e].iter().any(|&x| x != 0) {
                        t[i..e].iter_mut().for_each(|x| *x = 0);
                        self.try_tape(&t);
                    }
                    i += k;
                }
            }
            self.lower(usize::MAX);
            if self.best == before || self.out() {
                break;
            }
        }
    }
    fn lower(&mut self, upto: usize) {
        let mut i = 0;
        while i < self.best.len().min(upto) && !self.out() {
            let v = self.best[i];
            if v > 0 {
                let mut t = self.best.clone();
                t[i] = 0;
                if !self.try_tape(&t) {
                    let (mut lo, mut hi) = (0u64, v);
                    while lo + 1 < hi && !self.out() {
                        let mid = lo + (hi - lo) / 2;
                        let mut t = self.best.clone();
                        if i >= t.len() {
                            break;
                        }
                        t[i] = mid;
                        if self.try_tape(&t) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_f(x: f64) -> String {
    if x.is_finite() {
        format!("{:e}", x)
    } else {
        "1e308".into()
    }
}

pub struct Violation {
    pub tape: Vec<u64>,
    pub fail: Fail,
    pub origin: String,
    pub counting: bool,
    pub note: String,
}

pub struct Outcome {
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub nontrivial: u64,
    pub samples: Vec<String>,
    pub stats: Stats,
    pub violation: Option<Violation>,
    pub known: Vec<String>,
    pub known_hits: u64,
    pub inconclusive: Option<String>,
}

/// Known findings: (key, text); a failure whose kind equals `key` exactly is a listed finding.
pub fn load_known(root: &str, id: &str) -> Vec<(String, String)> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) {
        for l in s.lines() {
            // finding: property=<id> key=<kind> :: <what fails>
            if let Some(r) = l.strip_prefix("finding: ") {
                if let Some(r) = r.strip_prefix(&format!("property={} key=", id)) {
                    if let Some((k, t)) = r.split_once(" :: ") {
                        v.push((k.to_string(), t.to_string()));
                    }
                }
            }
        }
    }
    v
}

struct Slot {
    started: AtomicU64, // ms since start + 1, 0 = idle
    case: AtomicU64,
}

pub fn run_prop(p: &Prop, cases: u64, seed: u64, threads: usize, thorough: bool, known: &[(String, String)], hang_s: u64) -> Outcome {
    let t0 = Instant::now();
    let base = mix(seed) ^ hash_str(p.id);
    let case_seed = move |i: u64| mix(base.wrapping_add(mix(i)));
    let mut out = Outcome {
        evaluations: 0,
        distinct_nontrivial: 0,
        nontrivial: 0,
        samples: vec![],
        stats: Default::default(),
        violation: None,
        known: vec![],
        known_hits: 0,
        inconclusive: None,
    };
    // 1. pinned cases: inputs of past failures and hand-picked corner inputs
    for (name, f) in p.pinned {
        let mut cx = Cx::new(true);
        scalar::set_fuel(CASE_FUEL);
        let r = match caught(|| f(&mut cx)) {
            Ok(r) => r,
            Err(m) => fail(panic_kind(&m), m),
        };
        scalar::set_fuel(u64::MAX);
        out.evaluations += 1;
        if let Err(fl) = r {
            let key = format!("pinned:{}", name);
            if let Some((_, t)) = known.iter().find(|(k, _)| *k == key) {
                out.known.push(t.clone());
                out.known_hits += 1;
            } else {
                out.violation = Some(Violation { tape: vec![], fail: fl, origin: key, counting: false, note: cx.note });
                return out;
            }
        }
    }
    // 2. generated cases
    let next = Arc::new(AtomicU64::new(0));
    let first_bad = Arc::new(AtomicU64::new(u64::MAX));
    struct Shared {
        bad: Option<(u64, Vec<u64>, Fail)>,
        stats: Stats,
        seen: HashSet<u64>,
        nontrivial: u64,
        evals: u64,
        samples: BTreeMap<u64, String>,
        known_hits: BTreeMap<String, u64>,
    }
    let shared = Arc::new(Mutex::new(Shared {
        bad: None,
        stats: Default::default(),
        seen: HashSet::new(),
        nontrivial: 0,
        evals: 0,
        samples: BTreeMap::new(),
        known_hits: BTreeMap::new(),
    }));
    let slots: Arc<Vec<Slot>> =
        Arc::new((0..threads).map(|_| Slot { started: AtomicU64::new(0), case: AtomicU64::new(0) }).collect());
    let live = Arc::new(AtomicUsize::new(threads));
    let f = p.run;
    let chunk = 16u64;
    for th in 0..threads {
        let (next, first_bad, shared, slots, live) = (next.clone(), first_bad.clone(), shared.clone(), slots.clone(), live.clone());
        let known: Vec<String> = known.iter().map(|k| k.0.clone()).collect();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let mut seen: HashSet<u64> = HashSet::new();
                let (mut nontriv, mut evals) = (0u64, 0u64);
                let mut stats = Stats::default();
                let mut samples: BTreeMap<u64, String> = BTreeMap::new();
                let mut hits: BTreeMap<String, u64> = BTreeMap::new();
                'outer: loop {
                    let lo = next.fetch_add(chunk, SeqCst);
                    if lo >= cases {
                        break;
                    }
                    for i in lo..(lo + chunk).min(cases) {
                        if i > first_bad.load(SeqCst) {
                            break 'outer;
                        }
                        slots[th].case.store(i, SeqCst);
                        slots[th].started.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                        let mut s = Source::random(case_seed(i));
                        let mut cx = Cx::new(i < 48);
                        cx.thorough = thorough;
                        let r = run_case(f, &mut s, &mut cx);
                        slots[th].started.store(0, SeqCst);
                        evals += 1;
                        for (k, v) in cx.stats.labels {
                            *stats.labels.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in cx.stats.ratios {
                            let e = stats.ratios.entry(k).or_insert(0.0);
                            if !(v <= *e) {
                                *e = v;
                            }
                        }
                        if cx.nontrivial {
                            nontriv += 1;
                            seen.insert(hash_words(s.rec.iter().copied()));
                            if i < 48 {
                                samples.insert(i, cx.note);
                            }
                        }
                        if let Err(fl) = r {
                            if known.contains(&fl.kind) {
                                *hits.entry(fl.kind).or_insert(0) += 1;
                                continue;
                            }
                            first_bad.fetch_min(i, SeqCst);
                            let mut g = shared.lock().unwrap();
                            if g.bad.as_ref().map_or(true, |b| i < b.0) {
                                g.bad = Some((i, s.rec, fl));
                            }
                            break 'outer;
                        }
                    }
                }
                let mut g = shared.lock().unwrap();
                g.evals += evals;
                g.nontrivial += nontriv;
                g.seen.extend(seen);
                g.samples.extend(samples);
                for (k, v) in hits {
                    *g.known_hits.entry(k).or_insert(0) += v;
                }
                for (k, v) in stats.labels {
                    *g.stats.labels.entry(k).or_insert(0) += v;
                }
                for (k, v) in stats.ratios {
                    let e = g.stats.ratios.entry(k).or_insert(0.0);
                    if !(v <= *e) {
                        *e = v;
                    }
                }
                drop(g);
                live.fetch_sub(1, SeqCst);
            })
            .unwrap();
    }
    // monitor
    let mut hung: Option<u64> = None;
    while live.load(SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64 + 1;
        for s in slots.iter() {
            let st = s.started.load(SeqCst);
            if st != 0 && now > st + hang_s * 1000 {
                hung = Some(s.case.load(SeqCst));
            }
        }
        if hung.is_some() {
            break;
        }
    }
    {
        let g = shared.lock().unwrap();
        out.evaluations += g.evals;
        out.nontrivial = g.nontrivial;
        out.distinct_nontrivial = g.seen.len() as u64;
        out.samples = g.samples.values().take(6).cloned().collect();
        out.stats = g.stats.clone();
        for (k, t) in known {
            if let Some(n) = g.known_hits.get(k) {
                out.known_hits += n;
                out.known.push(t.clone());
            }
        }
    }
    let bad = shared.lock().unwrap().bad.take();
    if let Some((i, tape, fl)) = bad {
        let v = shrink(f, tape, fl, format!("case {}", i), false, hang_s);
        out.violation = Some(v);
        return out;
    }
    if let Some(i) = hung {
        // A time-out decides nothing. Re-run the same choices over the operation-counting floats:
        // exhausting the operation budget is a deterministic non-termination, independent of the clock.
        let cs = case_seed(i);
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                FORCE_COUNTING.with(|c| c.set(true));
                let mut s = Source::random(cs);
                let mut cx = Cx::new(false);
                let r = run_case(f, &mut s, &mut cx);
                let _ = tx.send((s.rec, r));
            })
            .unwrap();
        match rx.recv_timeout(Duration::from_secs(200)) {
            Ok((rec, Err(fl))) => {
                out.violation = Some(shrink(f, rec, fl, format!("case {}", i), true, hang_s));
            }
            _ => out.inconclusive = Some(format!("case {} did not finish within {} s", i, hang_s)),
        }
    }
    out
}

fn shrink(f: CaseFn, tape: Vec<u64>, fl: Fail, origin: String, counting: bool, hang_s: u64) -> Violation {
    let best: Arc<Mutex<(Vec<u64>, Fail)>> = Arc::new(Mutex::new((tape.clone(), fl.clone())));
    let beat = Arc::new(AtomicU64::new(0));
    let (b2, beat2) = (best.clone(), beat.clone());
    let t0 = Instant::now();
    let done = Arc::new(AtomicUsize::new(0));
    let done2 = done.clone();
    let slow = fl.kind == "does-not-terminate";
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            FORCE_COUNTING.with(|c| c.set(counting));
            let mut ob = |t: &[u64], fl: &Fail| *b2.lock().unwrap() = (t.to_vec(), fl.clone());
            let tick = || beat2.store(t0.elapsed().as_millis() as u64, SeqCst);
            let mut sh = Shrinker {
                f,
                kind: fl.kind.clone(),
                best: tape,
                best_fail: fl,
                evals: 0,
                max_evals: if slow { 60 } else { 4000 },
                deadline: Instant::now() + Duration::from_secs(25),
                on_better: &mut ob,
                tick: &tick,
            };
            sh.run();
            done2.store(1, SeqCst);
        })
        .unwrap();
    while done.load(SeqCst) == 0 {
        std::thread::sleep(Duration::from_millis(20));
        let now = t0.elapsed().as_millis() as u64;
        if now > beat.load(SeqCst) + hang_s.min(20) * 1000 {
            break; // a shrink candidate hangs: keep the best found so far
        }
    }
    let (tape, fail) = best.lock().unwrap().clone();
    // description of the shrunk case
    let t2 = tape.clone();
    let note = if slow {
        String::new()
    } else {
        let (tx, rx) = std::sync::mpsc::channel();
        let _ = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            FORCE_COUNTING.with(|c| c.set(counting));
            let mut cx = Cx::new(true);
            let _ = run_case(f, &mut Source::replay(&t2), &mut cx);
            let _ = tx.send(cx.note);
        });
        rx.recv_timeout(Duration::from_secs(10)).unwrap_or_default()
    };
    Violation { tape, fail, origin, counting, note }
}

pub fn write_replay(root: &str, id: &str, seed: u64, v: &Violation) -> String {
    let dir = format!("{}/replays", root);
    let _ = std::fs::create_dir_all(&dir);
    let name = format!("{}/{}-{:016x}.json", dir, id, hash_words(v.tape.iter().copied()) ^ hash_str(&v.fail.kind));
    let tape: Vec<String> = v.tape.iter().map(|x| x.to_string()).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"seed\": {},\n \"origin\": {},\n \"counting\": {},\n \"kind\": {},\n \"message\": {},\n \"input\": {},\n \"tape\": [{}]\n}}\n",
        json_str(id),
        seed,
        json_str(&v.origin),
        v.counting,
        json_str(&v.fail.kind),
        json_str(&v.fail.msg),
        json_str(&v.note),
        tape.join(",")
    );
    let _ = std::fs::write(&name, s);
    name
}

pub fn write_evidence(root: &str, p: &Prop, tier: &str, seed: u64, o: &Outcome, wall: f64) {
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    let labels: Vec<String> = o.stats.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let ratios: Vec<String> = o.stats.ratios.iter().map(|(k, v)| format!("{}: {}", json_str(k), json_f(*v))).collect();
    let samples: Vec<String> = o.samples.iter().map(|s| json_str(&s.chars().take(700).collect::<String>())).collect();
    let assume: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"nontrivial\": {},\n  \"distinct_nontrivial\": {},\n  \"pinned_cases\": {},\n  \"rule\": {},\n  \"classes\": {{{}}},\n  \"worst_error_over_tolerance\": {{{}}},\n  \"known_finding_hits\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(p.id),
        json_str(tier),
        seed,
        o.evaluations,
        o.nontrivial,
        o.distinct_nontrivial,
        p.pinned.len(),
        json_str(p.rule),
        labels.join(", "),
        ratios.join(", "),
        o.known_hits,
        samples.join(", "),
        assume.join(", "),
        wall,
        if o.violation.is_some() { 1 } else { 0 }
    );
    let _ = std::fs::write(format!("{}/evidence/{}.json", root, p.id), s);
}

//! Shared machinery of the bounded exhaustive explorers in /verif.
//!
//! * `Check` collects what a run covered (executions, transitions, distinct
//!   observed states, distinct outcomes, samples), prints VIOLATION /
//!   KNOWN-FINDING lines, and writes the evidence file.
//! * `Check::explore_seqs` enumerates *every* operation sequence over an
//!   alphabet up to a depth; `Check::explore_product` every element of a finite
//!   product; `Check::explore_choices` every resolution of the choice points an
//!   execution meets, within a bound on the number of deviations from choice 0.
//!   Nothing here samples.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

pub const THREADS: usize = 8;
/// One execution normally takes microseconds to milliseconds. One that is
/// still running after this long is reported as a hang of the code under test.
const HANG_SECS: u64 = 60;

#[derive(Clone, Debug)]
pub struct Failure {
    /// Stable identity of the failing case (matched against known findings).
    pub key: String,
    pub what: String,
    pub replay: Value,
}

pub type Outcome = Result<(), String>;

thread_local! {
    static SLOT: RefCell<Option<usize>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static PANICS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Panics seen on this thread so far, including ones a runtime swallowed.
pub fn panic_count() -> u64 {
    PANICS.with(|p| p.get())
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_else(|| "?".into())
}

struct Slot {
    started: Mutex<Option<(Instant, String)>>,
}

pub struct Check {
    pub property: &'static str,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    executions: AtomicU64,
    transitions: AtomicU64,
    states: Vec<Mutex<HashSet<u64>>>,
    outcomes: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<Value>>,
    sections: Mutex<Vec<Value>>,
    failures: Mutex<Vec<Failure>>,
    failure_count: AtomicU64,
    assumptions: Mutex<Vec<String>>,
    slots: Arc<Vec<Slot>>,
    replay: Option<Value>,
    stop: AtomicBool,
    verif: String,
}

fn real_now() -> Instant {
    Instant::now()
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a based hasher: deterministic across processes.
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 33;
            x = x.wrapping_mul(0xff51afd7ed558ccd);
            x ^= x >> 33;
            x
        }
        fn write(&mut self, b: &[u8]) {
            for c in b {
                self.0 ^= *c as u64;
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

/// Run `f`, turning a panic of the code under test into an error.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let msg = LAST_PANIC.with(|p| p.borrow_mut().take());
        format!("panic: {}", msg.unwrap_or_else(|| "?".into()))
    })
}

/// Decides one property: runs `f` and reports. A panic that no single case
/// accounts for (a run the cases are compared with, a common set-up) comes
/// from the code under test too, and is reported as such.
pub fn run(property: &'static str, f: impl FnOnce(&Arc<Check>)) -> ! {
    let c = Check::new(property);
    if let Err(p) = guarded(|| f(&c)) {
        if p.contains("ENGINE:") {
            eprintln!("{p}");
            std::process::exit(2);
        }
        c.fail("the set-up all cases share", p, json!({"section": "set-up"}));
    }
    c.finish()
}

impl Check {
    pub fn new(property: &'static str) -> Arc<Check> {
        std::panic::set_hook(Box::new(|info| {
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file();
                    let f = f.rsplit_once("/src/").map(|x| x.1).unwrap_or(f);
                    f.to_string()
                })
                .unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            if std::env::var_os("MC_BT").is_some() {
                eprintln!("panic {msg} at {:?}\n{}", info.location(), std::backtrace::Backtrace::force_capture());
            }
            PANICS.with(|p| p.set(p.get() + 1));
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} [{loc}]")));
        }));
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let replay = std::env::var("MC_REPLAY").ok().map(|p| {
            serde_json::from_str::<Value>(&std::fs::read_to_string(p).expect("replay file"))
                .expect("replay json")
        });
        let check = Arc::new(Check {
            property,
            thorough,
            seed,
            start: real_now(),
            executions: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            outcomes: Mutex::new(HashSet::new()),
            samples: Mutex::new(Vec::new()),
            sections: Mutex::new(Vec::new()),
            failures: Mutex::new(Vec::new()),
            failure_count: AtomicU64::new(0),
            assumptions: Mutex::new(Vec::new()),
            slots: Arc::new((0..256).map(|_| Slot { started: Mutex::new(None) }).collect()),
            replay,
            stop: AtomicBool::new(false),
            verif,
        });
        let me = Arc::clone(&check);
        std::thread::spawn(move || me.watchdog());
        check
    }

    fn watchdog(self: Arc<Self>) {
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for s in self.slots.iter() {
                let cur = s.started.lock().unwrap().clone();
                if let Some((t, what)) = cur {
                    if t.elapsed() > Duration::from_secs(HANG_SECS) {
                        self.fail(
                            &format!("hang {what}"),
                            format!("execution did not finish within {HANG_SECS}s"),
                            json!({"case": what}),
                        );
                        let code = self.finish_now();
                        std::process::exit(code);
                    }
                }
            }
        }
    }

    pub fn tier(&self) -> &'static str {
        if self.thorough { "thorough" } else { "quick" }
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn transition(&self) {
        self.transitions.fetch_add(1, Ordering::Relaxed);
    }
    pub fn transitions_add(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn execution(&self) {
        self.executions.fetch_add(1, Ordering::Relaxed);
    }
    pub fn state<T: Hash + ?Sized>(&self, t: &T) {
        let h = hash64(t);
        let mut s = self.states[(h % 64) as usize].lock().unwrap();
        // memory bound; beyond it the reported count is a lower bound
        if s.len() < 250_000 {
            s.insert(h);
        }
    }
    pub fn outcome<T: Hash + ?Sized>(&self, t: &T) {
        let h = hash64(t);
        let mut o = self.outcomes.lock().unwrap();
        if o.len() < 5_000_000 {
            o.insert(h);
        }
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn replaying(&self) -> Option<&Value> {
        self.replay.as_ref()
    }

    pub fn fail(&self, key: &str, what: String, replay: Value) {
        let n = self.failure_count.fetch_add(1, Ordering::Relaxed);
        let mut f = self.failures.lock().unwrap();
        if f.iter().any(|x| x.key == key) {
            return;
        }
        if f.len() < 2000 {
            f.push(Failure { key: key.to_string(), what, replay });
        }
        if n > 20000 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    /// Run one execution under the hang watchdog, catching panics.
    pub fn run_case(&self, section: &str, case: &str, replay: impl FnOnce() -> Value, f: impl FnOnce() -> Outcome) -> bool {
        let slot = SLOT.with(|s| {
            let mut s = s.borrow_mut();
            *s.get_or_insert_with(|| {
                static NEXT: AtomicUsize = AtomicUsize::new(0);
                NEXT.fetch_add(1, Ordering::Relaxed) % 256
            })
        });
        *self.slots[slot].started.lock().unwrap() = Some((real_now(), format!("{section}: {case}")));
        self.execution();
        let res = match guarded(f) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        *self.slots[slot].started.lock().unwrap() = None;
        if let Err(what) = res {
            let mut r = replay();
            if let Value::Object(m) = &mut r {
                m.insert("section".into(), json!(section));
            }
            self.fail(&format!("{section} {case}"), what, r);
            return false;
        }
        true
    }

    /// Parallel for over 0..n with work stealing by an atomic counter.
    pub fn par_for(&self, n: usize, body: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..THREADS.min(n.max(1)) {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || self.stopped() {
                        return;
                    }
                    body(i);
                });
            }
        });
    }

    /// Every sequence over `alphabet` of length 1..=depth (each executed from
    /// scratch on the real code). `enabled` may prune a letter after a prefix:
    /// it must depend only on the prefix. `run` executes one full sequence.
    pub fn explore_seqs<A: Clone + Sync + Send>(
        &self,
        section: &str,
        alphabet: &[A],
        depth: usize,
        show: impl Fn(&A) -> String + Sync,
        enabled: impl Fn(&[A], &A) -> bool + Sync,
        run: impl Fn(&[A]) -> Outcome + Sync,
    ) {
        if let Some(r) = self.replay.clone() {
            if r["section"] != json!(section) {
                return;
            }
            let seq: Vec<A> = r["indices"]
                .as_array()
                .expect("indices")
                .iter()
                .map(|i| alphabet[i.as_u64().unwrap() as usize].clone())
                .collect();
            let case = seq.iter().map(&show).collect::<Vec<_>>().join("; ");
            println!("replaying {section}: {case}");
            self.run_case(section, &case, || json!({}), || run(&seq));
            return;
        }
        let t0 = real_now();
        let e0 = self.executions.load(Ordering::Relaxed);
        let k = alphabet.len();
        // iterative deepening so the first counterexample is a shortest one
        let mut completed = 0;
        for d in 1..=depth {
            let before = self.failure_count.load(Ordering::Relaxed);
            let split = if d >= 2 { k * k } else { k };
            self.par_for(split, |job| {
                let mut idx: Vec<usize> = if d >= 2 { vec![job / k, job % k] } else { vec![job] };
                let mut seq: Vec<A> = Vec::with_capacity(d);
                for &i in &idx {
                    if !enabled(&seq, &alphabet[i]) {
                        return;
                    }
                    seq.push(alphabet[i].clone());
                }
                self.rec(section, alphabet, d, &mut idx, &mut seq, &show, &enabled, &run);
            });
            completed = d;
            if self.failure_count.load(Ordering::Relaxed) > before {
                break;
            }
        }
        self.section(json!({
            "section": section, "kind": "all operation sequences", "alphabet": alphabet.iter().map(&show).collect::<Vec<_>>(),
            "depth_bound": depth, "depth_completed": completed,
            "executions": self.executions.load(Ordering::Relaxed) - e0,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
    }

    #[allow(clippy::too_many_arguments)]
    fn rec<A: Clone + Sync + Send>(
        &self,
        section: &str,
        alphabet: &[A],
        depth: usize,
        idx: &mut Vec<usize>,
        seq: &mut Vec<A>,
        show: &(impl Fn(&A) -> String + Sync),
        enabled: &(impl Fn(&[A], &A) -> bool + Sync),
        run: &(impl Fn(&[A]) -> Outcome + Sync),
    ) {
        if self.stopped() {
            return;
        }
        if seq.len() == depth {
            let case = LazyCase { seq, show };
            self.run_lazy(section, &case, idx, || run(seq));
            return;
        }
        for (i, a) in alphabet.iter().enumerate() {
            if !enabled(seq, a) {
                continue;
            }
            idx.push(i);
            seq.push(a.clone());
            self.rec(section, alphabet, depth, idx, seq, show, enabled, run);
            seq.pop();
            idx.pop();
        }
    }

    /// Every sequence over `alphabet` up to `depth`, as a tree: `run` executes a
    /// full-length sequence checking the property after every operation. It
    /// answers Ok(None) when the whole sequence was executed, Ok(Some(i)) when
    /// operation i does not apply after its prefix (that subtree is skipped),
    /// Err((i, what)) when the property fails at operation i.
    pub fn explore_tree<A: Clone + Sync + Send>(
        &self,
        section: &str,
        alphabet: &[A],
        depth: usize,
        show: impl Fn(&A) -> String + Sync,
        run: impl Fn(&[A], bool) -> Result<Option<usize>, (usize, String)> + Sync,
    ) {
        let text = |seq: &[A]| seq.iter().map(&show).collect::<Vec<_>>().join("; ");
        if let Some(r) = self.replay.clone() {
            if r["section"] != json!(section) {
                return;
            }
            let seq: Vec<A> =
                r["indices"].as_array().expect("indices").iter().map(|i| alphabet[i.as_u64().unwrap() as usize].clone()).collect();
            let case = text(&seq);
            println!("replaying {section}: {case}");
            self.run_case(section, &case, || json!({}), || match run(&seq, true) {
                Ok(_) => Ok(()),
                Err((_, w)) => Err(w),
            });
            return;
        }
        let t0 = real_now();
        let e0 = self.executions.load(Ordering::Relaxed);
        let k = alphabet.len();
        let pre = depth.min(2);
        let jobs = k.pow(pre as u32);
        let skipped = AtomicU64::new(0);
        self.par_for(jobs, |job| {
            let mut idx: Vec<usize> = vec![0; depth];
            let mut r = job;
            for p in (0..pre).rev() {
                idx[p] = r % k;
                r /= k;
            }
            let slot = SLOT.with(|s| {
                let mut s = s.borrow_mut();
                *s.get_or_insert_with(|| {
                    static NEXT: AtomicUsize = AtomicUsize::new(0);
                    NEXT.fetch_add(1, Ordering::Relaxed) % 256
                })
            });
            loop {
                if self.stopped() {
                    return;
                }
                let seq: Vec<A> = idx.iter().map(|&i| alphabet[i].clone()).collect();
                *self.slots[slot].started.lock().unwrap() = Some((real_now(), format!("{section}: indices {idx:?}")));
                let n = self.executions.fetch_add(1, Ordering::Relaxed);
                let res = match guarded(|| run(&seq, false)) {
                    Ok(r) => r,
                    Err(p) => Err((depth - 1, p)),
                };
                *self.slots[slot].started.lock().unwrap() = None;
                if n % 50021 == 17 {
                    self.sample(json!({"section": section, "case": text(&seq)}));
                }
                let at = match res {
                    Ok(None) => {
                        self.transitions_add(depth as u64);
                        depth - 1
                    }
                    Ok(Some(i)) => {
                        self.transitions_add(i as u64);
                        skipped.fetch_add(1, Ordering::Relaxed);
                        i
                    }
                    Err((i, what)) => {
                        let t = text(&seq[..=i]);
                        self.fail(&format!("{section} {t}"), what, json!({"section": section, "indices": &idx[..=i], "case": t}));
                        i
                    }
                };
                // next sequence that differs at position `at` or before
                let mut p = at;
                for x in idx.iter_mut().skip(at + 1) {
                    *x = 0;
                }
                loop {
                    if p < pre {
                        return;
                    }
                    idx[p] += 1;
                    if idx[p] < k {
                        break;
                    }
                    idx[p] = 0;
                    p -= 1;
                }
            }
        });
        self.section(json!({
            "section": section, "kind": "every applicable operation sequence", "alphabet": alphabet.iter().map(&show).collect::<Vec<_>>(),
            "depth": depth, "executions": self.executions.load(Ordering::Relaxed) - e0,
            "pruned_inapplicable": skipped.load(Ordering::Relaxed),
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
    }

    fn run_lazy<A, S: Fn(&A) -> String>(&self, section: &str, case: &LazyCase<A, S>, idx: &[usize], f: impl FnOnce() -> Outcome) {
        let slot = SLOT.with(|s| {
            let mut s = s.borrow_mut();
            *s.get_or_insert_with(|| {
                static NEXT: AtomicUsize = AtomicUsize::new(0);
                NEXT.fetch_add(1, Ordering::Relaxed) % 256
            })
        });
        *self.slots[slot].started.lock().unwrap() = Some((real_now(), format!("{section}: indices {idx:?}")));
        let n = self.executions.fetch_add(1, Ordering::Relaxed);
        let res = match guarded(f) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        *self.slots[slot].started.lock().unwrap() = None;
        if n % 50021 == 17 {
            self.sample(json!({"section": section, "case": case.text()}));
        }
        if let Err(what) = res {
            let text = case.text();
            self.fail(
                &format!("{section} {text}"),
                what,
                json!({"section": section, "indices": idx, "case": text}),
            );
        }
    }

    /// Every index of a finite space 0..n.
    pub fn explore_product(
        &self,
        section: &str,
        what: &str,
        n: usize,
        show: impl Fn(usize) -> String + Sync,
        run: impl Fn(usize) -> Outcome + Sync,
    ) {
        if let Some(r) = self.replay.clone() {
            if r["section"] != json!(section) {
                return;
            }
            let i = r["index"].as_u64().unwrap() as usize;
            println!("replaying {section}: {}", show(i));
            self.run_case(section, &show(i), || json!({}), || run(i));
            return;
        }
        let t0 = real_now();
        let e0 = self.executions.load(Ordering::Relaxed);
        let chunk = (n / (THREADS * 32)).max(1);
        let jobs = n.div_ceil(chunk);
        self.par_for(jobs, |j| {
            for i in j * chunk..((j + 1) * chunk).min(n) {
                if self.stopped() {
                    return;
                }
                let case = LazyCase1 { i, show: &show };
                let slot = SLOT.with(|s| {
                    let mut s = s.borrow_mut();
                    *s.get_or_insert_with(|| {
                        static NEXT: AtomicUsize = AtomicUsize::new(0);
                        128 + NEXT.fetch_add(1, Ordering::Relaxed) % 128
                    })
                });
                *self.slots[slot].started.lock().unwrap() = Some((real_now(), format!("{section}: index {i}")));
                let c = self.executions.fetch_add(1, Ordering::Relaxed);
                let res = match guarded(|| run(i)) {
                    Ok(r) => r,
                    Err(p) => Err(p),
                };
                *self.slots[slot].started.lock().unwrap() = None;
                if c % 20011 == 5 {
                    self.sample(json!({"section": section, "case": case.text()}));
                }
                if let Err(what) = res {
                    let t = case.text();
                    self.fail(&format!("{section} {t}"), what, json!({"section": section, "index": i, "case": t}));
                }
            }
        });
        self.section(json!({
            "section": section, "kind": "every element of a finite space", "space": what, "size": n,
            "executions": self.executions.load(Ordering::Relaxed) - e0,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
    }

    /// Deviation-bounded exploration: `run` executes once under a `Chooser`;
    /// every choice point defaults to 0; all executions with at most `bound`
    /// non-default choices are run. `name` identifies the scenario.
    pub fn explore_choices(
        &self,
        section: &str,
        bound: usize,
        run: impl Fn(&mut Chooser) -> Outcome + Sync,
    ) -> u64 {
        self.explore_choices_from(section, bound, vec![vec![]], run)
    }
    /// The same from several starting points at once: `run` must first resolve
    /// the choices that a starting point fixes (they are not deviations).
    pub fn explore_choices_from(
        &self,
        section: &str,
        bound: usize,
        starts: Vec<Vec<u32>>,
        run: impl Fn(&mut Chooser) -> Outcome + Sync,
    ) -> u64 {
        if let Some(r) = self.replay.clone() {
            if r["section"] != json!(section) {
                return 0;
            }
            let forced: Vec<u32> = r["choices"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u32).collect();
            let mut ch = Chooser::new(forced);
            println!("replaying {section}: {:?}", ch.forced);
            self.run_case(section, "replay", || json!({}), || run(&mut ch));
            for l in &ch.log {
                println!("   {l}");
            }
            return 1;
        }
        let t0 = real_now();
        let e0 = self.executions.load(Ordering::Relaxed);
        let maxpoints = AtomicUsize::new(0);
        let per_level: Vec<AtomicU64> = (0..=bound).map(|_| AtomicU64::new(0)).collect();
        // Level by level: all executions with 0 deviations, then 1, then 2 ...
        let mut completed = 0;
        let nstarts = starts.len();
        // a prefix as its length and what differs from the default
        type Prefix = (u32, Box<[(u32, u32)]>);
        fn pack(taken: &[u32]) -> Prefix {
            (taken.len() as u32, taken.iter().enumerate().filter(|(_, c)| **c != 0).map(|(i, c)| (i as u32, *c)).collect())
        }
        fn unpack(p: &Prefix) -> Vec<u32> {
            let mut v = vec![0; p.0 as usize];
            for (i, c) in p.1.iter() {
                v[*i as usize] = *c;
            }
            v
        }
        let mut level: Vec<Prefix> = starts.iter().map(|s| pack(s)).collect();
        drop(starts);
        let again = AtomicU64::new(0);
        for dev in 0..=bound {
            let next: Mutex<Vec<Prefix>> = Mutex::new(Vec::new());
            let before = self.failure_count.load(Ordering::Relaxed);
            self.par_for(level.len(), |i| {
                let forced = unpack(&level[i]);
                let mut ch = Chooser::new(forced.clone());
                ch.section = section.to_string();
                per_level[dev].fetch_add(1, Ordering::Relaxed);
                let case = format!("choices {forced:?}");
                let once = |ch: &mut Chooser| {
                    self.run_case(section, &case, || json!({"choices": forced.clone()}), AssertUnwindSafe(|| run(ch)))
                };
                let mut ok = once(&mut ch);
                // what ran was an execution like any other, only not this one
                for _ in 0..4 {
                    if !ok || !ch.diverged {
                        break;
                    }
                    again.fetch_add(1, Ordering::Relaxed);
                    ch = Chooser::new(forced.clone());
                    ch.section = section.to_string();
                    ok = once(&mut ch);
                }
                if ch.diverged && ok {
                    self.fail(
                        &format!("{section} divergence {forced:?}"),
                        "ENGINE: replaying a prefix diverged (uncontrolled nondeterminism)".into(),
                        json!({"choices": forced}),
                    );
                    return;
                }
                maxpoints.fetch_max(ch.points.len(), Ordering::Relaxed);
                let n = self.executions.load(Ordering::Relaxed);
                if n % 1009 == 3 {
                    self.sample(json!({"section": section, "choices": forced, "log": ch.log.iter().take(60).collect::<Vec<_>>()}));
                }
                if !ok || dev == bound {
                    return;
                }
                let mut out = Vec::new();
                for p in forced.len()..ch.points.len() {
                    for alt in 1..ch.points[p] {
                        let mut f = ch.taken[..p].to_vec();
                        f.push(alt);
                        out.push(pack(&f));
                    }
                }
                next.lock().unwrap().extend(out);
            });
            completed = dev;
            if self.failure_count.load(Ordering::Relaxed) > before {
                break;
            }
            level = next.into_inner().unwrap();
            level.sort();
            if level.is_empty() {
                break;
            }
        }
        let total = self.executions.load(Ordering::Relaxed) - e0;
        self.section(json!({
            "section": section, "kind": "deviation-bounded schedules", "scenarios": nstarts, "deviation_bound": bound,
            "deviations_completed": completed, "max_choice_points": maxpoints.load(Ordering::Relaxed),
            "executions_per_deviation_level": per_level.iter().map(|x| x.load(Ordering::Relaxed)).collect::<Vec<_>>(),
            "executions": total, "repeated_after_divergence": again.into_inner(), "wall_s": t0.elapsed().as_secs_f64(),
        }));
        total
    }

    pub fn section(&self, v: Value) {
        self.sections.lock().unwrap().push(v);
    }

    fn known(&self) -> BTreeMap<String, String> {
        let path = format!("{}/known_findings.json", self.verif);
        let mut out = BTreeMap::new();
        if let Ok(text) = std::fs::read_to_string(&path) {
            let v: Value = serde_json::from_str(&text).expect("known_findings.json");
            for e in v["findings"].as_array().expect("findings") {
                if e["property"] == json!(self.property) && e["status"] == json!("known") {
                    out.insert(e["key"].as_str().unwrap().to_string(), e["what"].as_str().unwrap().to_string());
                }
            }
        }
        out
    }

    fn finish_now(&self) -> i32 {
        let known = self.known();
        let failures = self.failures.lock().unwrap().clone();
        let mut seen_known = Vec::new();
        let mut fresh = Vec::new();
        for f in &failures {
            if let Some(w) = known.get(&f.key) {
                seen_known.push((f.key.clone(), w.clone()));
            } else {
                fresh.push(f.clone());
            }
        }
        let engine_err = fresh.iter().find(|f| f.what.starts_with("ENGINE:")).cloned();
        let states: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        let execs = self.executions.load(Ordering::Relaxed);
        if self.replay.is_some() {
            for f in &failures {
                println!("REPRODUCED {}\n  {}", f.key, f.what);
            }
            if failures.is_empty() {
                println!("not reproduced");
            }
            return if failures.is_empty() { 0 } else { 1 };
        }
        let samples = self.samples.lock().unwrap().clone();
        let evidence = json!({
            "property": self.property,
            "tier": self.tier(),
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": states,
                "transitions": self.transitions.load(Ordering::Relaxed),
                "traces_validated_against_impl": execs,
                "distinct_outcomes": self.outcomes.lock().unwrap().len(),
                "samples": samples,
                "sections": *self.sections.lock().unwrap(),
                "known_findings_seen": seen_known.iter().map(|k| &k.0).collect::<Vec<_>>(),
            },
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": fresh.len(),
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.verif));
        std::fs::write(
            format!("{}/evidence/{}.json", self.verif, self.property),
            serde_json::to_string_pretty(&evidence).unwrap() + "\n",
        )
        .expect("write evidence");
        println!(
            "{}: {} executions, {} transitions, {} states, {} outcomes, {:.1}s ({})",
            self.property,
            execs,
            self.transitions.load(Ordering::Relaxed),
            states,
            self.outcomes.lock().unwrap().len(),
            self.start.elapsed().as_secs_f64(),
            self.tier(),
        );
        for (_, w) in &seen_known {
            println!("KNOWN-FINDING: property={} {}", self.property, w);
        }
        if let Some(f) = engine_err {
            println!("ENGINE ERROR: {} {}", f.key, f.what);
            return 2;
        }
        if fresh.is_empty() {
            return 0;
        }
        let dir = format!("{}/replays", self.verif);
        let _ = std::fs::create_dir_all(&dir);
        // (MC_SHOW: how many to print, while working on a check)
        let most = std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
        for (i, f) in fresh.iter().enumerate() {
            if i >= most {
                println!("... and {} more", fresh.len() - i);
                break;
            }
            let path = format!("{dir}/{}-{}.json", self.property, i);
            let mut r = f.replay.clone();
            if let Value::Object(m) = &mut r {
                m.insert("property".into(), json!(self.property));
                m.insert("key".into(), json!(f.key));
                m.insert("what".into(), json!(f.what));
            }
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap() + "\n");
            println!("  case: {}", trunc(&f.key, 1500));
            println!("  what: {}", trunc(&f.what, 1500));
            println!("VIOLATION property={} replay={}", self.property, path);
        }
        1
    }

    pub fn finish(self: Arc<Self>) -> ! {
        let code = self.finish_now();
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(code)
    }
}

fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    }
}

struct LazyCase<'a, A, S> {
    seq: &'a [A],
    show: &'a S,
}
impl<A, S: Fn(&A) -> String> LazyCase<'_, A, S> {
    fn text(&self) -> String {
        self.seq.iter().map(self.show).collect::<Vec<_>>().join("; ")
    }
}
struct LazyCase1<'a, S> {
    i: usize,
    show: &'a S,
}
impl<S: Fn(usize) -> String> LazyCase1<'_, S> {
    fn text(&self) -> String {
        (self.show)(self.i)
    }
}

/// Resolves the choice points of one execution.
pub struct Chooser {
    pub forced: Vec<u32>,
    pub taken: Vec<u32>,
    pub points: Vec<u32>,
    pub log: Vec<String>,
    pub diverged: bool,
    pub section: String,
}
impl Chooser {
    pub fn new(forced: Vec<u32>) -> Chooser {
        Chooser { forced, taken: vec![], points: vec![], log: vec![], diverged: false, section: String::new() }
    }
    /// Pick one of `n` alternatives (0 = default).
    pub fn choose(&mut self, n: usize) -> usize {
        debug_assert!(n >= 1);
        let i = self.taken.len();
        let c = match self.forced.get(i) {
            Some(&c) if (c as usize) < n => c,
            Some(_) => {
                self.diverged = true;
                0
            }
            None => 0,
        };
        self.taken.push(c);
        self.points.push(n as u32);
        c as usize
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.log.push(s.into());
    }
}

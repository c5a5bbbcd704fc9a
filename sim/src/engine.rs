//! Runner: derives every run from one integer, catches crashes and hangs, minimises, writes replays
//! and evidence. Nothing here reads a clock or draws randomness on behalf of a simulated run.
use crate::rng::{mix, Rng};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
#[cfg(not(target_has_atomic = "64"))]
use crate::atomic64::AtomicU64;
#[cfg(target_has_atomic = "64")]
use std::sync::atomic::AtomicU64;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A violated property. `class` names the kind of violation and is stable while a case is minimised.
#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
pub type R = Result<(), Viol>;
pub fn viol<T>(class: &str, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.to_string(), detail: detail.into() })
}
#[macro_export]
macro_rules! bail {
    ($c:expr, $($a:tt)*) => { return $crate::engine::viol($c, format!($($a)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($x:expr, $c:expr, $($a:tt)*) => { if !($x) { return $crate::engine::viol($c, format!($($a)*)); } };
}

/// What one run did: counters of faults that fired and rare conditions met, simulated time, and a
/// digest of everything observed.
#[derive(Default, Clone)]
pub struct Ctx {
    pub counts: BTreeMap<&'static str, u64>,
    pub sim_us: u64,
    pub hash: u64,
    /// set by a run whose workload made the property bite (see each property's rule)
    pub nontrivial: bool,
    pub log: Option<Vec<String>>,
}
impl Ctx {
    pub fn new(log: bool) -> Self {
        Ctx { hash: 0xcbf29ce484222325, log: if log { Some(vec![]) } else { None }, ..Default::default() }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.counts.entry(k).or_insert(0) += n;
        }
    }
    pub fn feed(&mut self, b: &[u8]) {
        let mut h = self.hash;
        for x in b {
            h = (h ^ u64::from(*x)).wrapping_mul(0x100000001b3);
        }
        self.hash = (h ^ b.len() as u64).wrapping_mul(0x100000001b3);
    }
    pub fn num(&mut self, n: u64) {
        self.feed(&n.to_le_bytes());
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = self.log.as_mut() {
            l.push(f());
        }
    }
}

pub trait Sim: Send + Sync + 'static {
    type Case: Clone + Serialize + DeserializeOwned;
    const ID: &'static str;
    fn gen(r: &mut Rng, tier: Tier) -> Self::Case;
    fn run(c: &Self::Case, x: &mut Ctx) -> R;
    fn budget(tier: Tier) -> u64;
    /// Runs one at a time: the property is about state the process might share between runs.
    const SOLO: bool = false;
    /// A run that takes longer than this many seconds does not end.
    const HANG_S: u64 = 60;
    /// How cases are made and what makes one non-trivial.
    const RULE: &'static str;
    const REAL: &'static [&'static str];
    const STUB: &'static [&'static str];
    const ASSUME: &'static [&'static str] = &[];
}

pub trait DynSim: Send + Sync {
    fn id(&self) -> &'static str;
    fn run_seed(&self, seed: u64, tier: Tier, x: &mut Ctx) -> R;
    fn gen_json(&self, seed: u64, tier: Tier) -> J;
    fn run_json(&self, c: &J, x: &mut Ctx) -> Option<R>;
    fn budget(&self, tier: Tier) -> u64;
    fn solo(&self) -> bool;
    fn hang_s(&self) -> u64;
    fn rule(&self) -> &'static str;
    fn real(&self) -> &'static [&'static str];
    fn stub(&self) -> &'static [&'static str];
    fn assume(&self) -> &'static [&'static str];
}
pub struct W<S>(pub std::marker::PhantomData<S>);
impl<S: Sim> DynSim for W<S> {
    fn id(&self) -> &'static str {
        S::ID
    }
    fn run_seed(&self, seed: u64, tier: Tier, x: &mut Ctx) -> R {
        let c = S::gen(&mut Rng::new(seed), tier);
        S::run(&c, x)
    }
    fn gen_json(&self, seed: u64, tier: Tier) -> J {
        serde_json::to_value(S::gen(&mut Rng::new(seed), tier)).expect("case serialises")
    }
    fn run_json(&self, c: &J, x: &mut Ctx) -> Option<R> {
        let c: S::Case = serde_json::from_value(c.clone()).ok()?;
        Some(S::run(&c, x))
    }
    fn budget(&self, tier: Tier) -> u64 {
        S::budget(tier)
    }
    fn hang_s(&self) -> u64 {
        S::HANG_S
    }
    fn solo(&self) -> bool {
        S::SOLO
    }
    fn rule(&self) -> &'static str {
        S::RULE
    }
    fn real(&self) -> &'static [&'static str] {
        S::REAL
    }
    fn stub(&self) -> &'static [&'static str] {
        S::STUB
    }
    fn assume(&self) -> &'static [&'static str] {
        S::ASSUME
    }
}

thread_local! {
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<Option<(String, String, bool)>> = const { RefCell::new(None) };
}
struct LibGuard;
impl Drop for LibGuard {
    fn drop(&mut self) {
        IN_LIB.with(|c| c.set(c.get() - 1));
    }
}
/// Runs code of the library under test: a panic in here is the library's, elsewhere it is ours.
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    IN_LIB.with(|c| c.set(c.get() + 1));
    let _g = LibGuard;
    f()
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let inlib = IN_LIB.with(|c| c.get()) > 0 || loc.contains("/ublox/src/") || loc.starts_with("/repo/");
        LAST.with(|l| *l.borrow_mut() = Some((msg, loc, inlib)));
    }));
}

/// A panic that is neither the library's nor intended is an error of the harness.
pub fn guarded(f: impl FnOnce() -> R) -> R {
    LAST.with(|l| *l.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (m, l, inlib) = LAST.with(|l| l.borrow_mut().take()).unwrap_or_default();
            if m.starts_with("CONTRACT") {
                return viol("contract", m);
            }
            if !inlib {
                eprintln!("HARNESS ERROR: panic outside the library: {} at {}", m, l);
                std::process::exit(2);
            }
            let short = l.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
            viol(&format!("panic:{}", short), format!("the library panicked: {} at {}", m, l))
        },
    }
}

/// Code of the library that may legitimately be asked to fail; a panic becomes a value.
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(|| lib(f))).map_err(|_| {
        let (m, l, _) = LAST.with(|l| l.borrow_mut().take()).unwrap_or_default();
        format!("{} at {}", m, l)
    })
}

struct Slot {
    idx: AtomicU64,
    since: AtomicU64,
}

pub fn write_replay(dir: &str, id: &str, tag: &str, body: &J) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{}/{}-{}.json", dir, id, tag);
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(body).unwrap() + "\n") {
        eprintln!("HARNESS ERROR: cannot write {}: {}", path, e);
        std::process::exit(2);
    }
    path
}

/// Structural minimisation of a case: drop list elements, shorten byte strings, reduce numbers,
/// while the same class of violation persists.
pub fn shrink(case: &J, class: &str, fails: &mut dyn FnMut(&J) -> Option<String>, limit: Duration) -> (J, u64) {
    let t0 = Instant::now();
    let mut cur = case.clone();
    let mut tries = 0u64;
    loop {
        let mut improved = false;
        // collect paths of the current value, longest containers first
        let mut paths = vec![];
        collect(&cur, &mut vec![], &mut paths);
        let mut pi = 0;
        while pi < paths.len() {
            if t0.elapsed() > limit {
                return (cur, tries);
            }
            let p = paths[pi].clone();
            pi += 1;
            let Some(v) = get(&cur, &p).cloned() else { continue };
            match v {
                J::Array(a) => {
                    let mut size = a.len();
                    let mut arr = a;
                    while size >= 1 {
                        let mut i = 0;
                        while i < arr.len() {
                            if t0.elapsed() > limit {
                                return (cur, tries);
                            }
                            let mut b = arr.clone();
                            let end = (i + size).min(b.len());
                            b.drain(i..end);
                            let mut cand = cur.clone();
                            *get_mut(&mut cand, &p).unwrap() = J::Array(b.clone());
                            tries += 1;
                            if fails(&cand).as_deref() == Some(class) {
                                cur = cand;
                                arr = b;
                                improved = true;
                            } else {
                                i += size;
                            }
                        }
                        size /= 2;
                    }
                },
                J::String(s) if s.len() >= 2 && crate::hex::dec(&s).is_some() => {
                    let mut bytes = crate::hex::dec(&s).unwrap();
                    let mut size = bytes.len();
                    while size >= 1 {
                        let mut i = 0;
                        while i < bytes.len() {
                            if t0.elapsed() > limit {
                                return (cur, tries);
                            }
                            let mut b = bytes.clone();
                            let end = (i + size).min(b.len());
                            b.drain(i..end);
                            let mut cand = cur.clone();
                            *get_mut(&mut cand, &p).unwrap() = J::String(crate::hex::enc(&b));
                            tries += 1;
                            if fails(&cand).as_deref() == Some(class) {
                                cur = cand;
                                bytes = b;
                                improved = true;
                            } else {
                                i += size;
                            }
                        }
                        size /= 2;
                    }
                    // plainer bytes
                    let step = (bytes.len() / 32).max(1);
                    for i in (0..bytes.len()).step_by(step) {
                        let e = (i + step).min(bytes.len());
                        if bytes[i..e].iter().all(|x| *x == 0) {
                            continue;
                        }
                        let mut b = bytes.clone();
                        b[i..e].fill(0);
                        let mut cand = cur.clone();
                        *get_mut(&mut cand, &p).unwrap() = J::String(crate::hex::enc(&b));
                        tries += 1;
                        if t0.elapsed() > limit {
                            return (cur, tries);
                        }
                        if fails(&cand).as_deref() == Some(class) {
                            cur = cand;
                            bytes = b;
                            improved = true;
                        }
                    }
                },
                J::Number(n) => {
                    let mut cands: Vec<J> = vec![];
                    if let Some(u) = n.as_u64() {
                        for c in [0, 1, u / 2, u.saturating_sub(1)] {
                            if c < u {
                                cands.push(json!(c));
                            }
                        }
                    } else if let Some(i) = n.as_i64() {
                        cands.extend([json!(0), json!(i / 2)]);
                    } else if let Some(f) = n.as_f64() {
                        for c in [0.0, f.trunc(), f / 2.0] {
                            if c.abs() < f.abs() {
                                cands.push(json!(c));
                            }
                        }
                    }
                    for c in cands {
                        let mut cand = cur.clone();
                        *get_mut(&mut cand, &p).unwrap() = c;
                        tries += 1;
                        if fails(&cand).as_deref() == Some(class) {
                            cur = cand;
                            improved = true;
                            break;
                        }
                    }
                },
                J::Bool(true) => {
                    let mut cand = cur.clone();
                    *get_mut(&mut cand, &p).unwrap() = J::Bool(false);
                    tries += 1;
                    if fails(&cand).as_deref() == Some(class) {
                        cur = cand;
                        improved = true;
                    }
                },
                J::Object(_) => {
                    let mut cand = cur.clone();
                    *get_mut(&mut cand, &p).unwrap() = J::Null;
                    tries += 1;
                    if fails(&cand).as_deref() == Some(class) {
                        cur = cand;
                        improved = true;
                    }
                },
                _ => {},
            }
        }
        if !improved {
            return (cur, tries);
        }
    }
}
#[derive(Clone)]
enum Key {
    I(usize),
    K(String),
}
fn collect(v: &J, path: &mut Vec<Key>, out: &mut Vec<Vec<Key>>) {
    out.push(path.clone());
    match v {
        J::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(Key::I(i));
                collect(x, path, out);
                path.pop();
            }
        },
        J::Object(m) => {
            for (k, x) in m {
                path.push(Key::K(k.clone()));
                collect(x, path, out);
                path.pop();
            }
        },
        _ => {},
    }
}
fn get<'a>(v: &'a J, p: &[Key]) -> Option<&'a J> {
    p.iter().try_fold(v, |v, k| match k {
        Key::I(i) => v.get(i),
        Key::K(s) => v.get(s),
    })
}
fn get_mut<'a>(v: &'a mut J, p: &[Key]) -> Option<&'a mut J> {
    let mut v = v;
    for k in p {
        v = match k {
            Key::I(i) => v.get_mut(*i)?,
            Key::K(s) => v.get_mut(s.as_str())?,
        };
    }
    Some(v)
}

pub struct Opts {
    pub seed: u64,
    pub tier: Tier,
    pub runs: Option<u64>,
    pub threads: usize,
    pub replay_dir: String,
    pub inflight: Option<String>,
    pub cap_s: u64,
}

#[derive(Default)]
struct Agg {
    counts: BTreeMap<&'static str, u64>,
    sim_us: u64,
    runs: u64,
    hashes: HashSet<u64>,
    nontrivial: HashSet<u64>,
    failures: Vec<(u64, Viol)>,
}

pub struct Outcome {
    pub evidence: J,
    /// (violation, replay path)
    pub violation: Option<(Viol, String)>,
}

pub fn run_guarded(s: &dyn DynSim, seed: u64, tier: Tier, x: &mut Ctx) -> R {
    guarded(|| s.run_seed(seed, tier, x))
}
pub fn run_case(s: &dyn DynSim, c: &J, x: &mut Ctx) -> Option<R> {
    let mut ok = true;
    let r = guarded(|| match s.run_json(c, x) {
        Some(r) => r,
        None => {
            ok = false;
            Ok(())
        },
    });
    if ok {
        Some(r)
    } else {
        None
    }
}

pub fn check(s: &'static dyn DynSim, o: &Opts) -> Outcome {
    let t0 = Instant::now();
    let n = o.runs.unwrap_or_else(|| s.budget(o.tier));
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let bound = AtomicU64::new(n);
    let active = AtomicU64::new(o.threads as u64);
    let slots: Vec<Slot> =
        (0..o.threads).map(|_| Slot { idx: AtomicU64::new(u64::MAX), since: AtomicU64::new(0) }).collect();
    let agg = Mutex::new(Agg::default());
    let inflight = o.inflight.as_ref().map(|p| {
        use std::os::unix::fs::FileExt;
        let f = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).expect("in-flight file");
        f.write_all_at(&vec![0xFF; 8 * o.threads], 0).unwrap();
        f
    });
    let chunk = (n / (8 * o.threads as u64)).clamp(1, 16);
    std::thread::scope(|sc| {
        for t in 0..o.threads {
            let (next, stop, slots, agg, inflight, bound, active) = (&next, &stop, &slots, &agg, &inflight, &bound, &active);
            let th = std::thread::Builder::new().stack_size(8 << 20);
            th.spawn_scoped(sc, move || {
                let mut a = Agg::default();
                'outer: loop {
                    let base = next.fetch_add(chunk, Ordering::Relaxed);
                    if base >= n {
                        break;
                    }
                    for i in base..(base + chunk).min(n) {
                        if stop.load(Ordering::Relaxed) || i >= bound.load(Ordering::Relaxed) {
                            break 'outer;
                        }
                        slots[t].since.store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                        slots[t].idx.store(i, Ordering::Relaxed);
                        if let Some(f) = inflight {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_all_at(&i.to_le_bytes(), 8 * t as u64);
                        }
                        let mut x = Ctx::new(false);
                        let r = run_guarded(s, mix(o.seed, s.id(), i), o.tier, &mut x);
                        slots[t].idx.store(u64::MAX, Ordering::Relaxed);
                        a.runs += 1;
                        a.sim_us += x.sim_us;
                        for (k, v) in x.counts {
                            *a.counts.entry(k).or_insert(0) += v;
                        }
                        a.hashes.insert(x.hash);
                        if x.nontrivial {
                            a.nontrivial.insert(x.hash);
                        }
                        if let Err(v) = r {
                            a.failures.push((i, v));
                            // every run before this one is still executed, so the report is the
                            // same whatever the threads do
                            bound.fetch_min(i, Ordering::Relaxed);
                        }
                        if t0.elapsed().as_secs() > o.cap_s {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                if let Some(f) = inflight {
                    use std::os::unix::fs::FileExt;
                    let _ = f.write_all_at(&[0xFF; 8], 8 * t as u64);
                }
                let mut g = agg.lock().unwrap();
                g.runs += a.runs;
                g.sim_us += a.sim_us;
                for (k, v) in a.counts {
                    *g.counts.entry(k).or_insert(0) += v;
                }
                g.hashes.extend(a.hashes);
                g.nontrivial.extend(a.nontrivial);
                g.failures.extend(a.failures);
                drop(g);
                active.fetch_sub(1, Ordering::Relaxed);
            })
            .expect("thread");
        }
        // A run that does not end: the library loops forever.
        let (slots, active) = (&slots, &active);
        sc.spawn(move || {
            while active.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(50));
                let now = t0.elapsed().as_millis() as u64;
                for sl in slots {
                    let i = sl.idx.load(Ordering::Relaxed);
                    if i == u64::MAX {
                        continue;
                    }
                    if now.saturating_sub(sl.since.load(Ordering::Relaxed)) > s.hang_s() * 1000
                        && sl.idx.load(Ordering::Relaxed) == i
                    {
                        report_hang(s, o, i);
                    }
                }
            }
        });
    });
    let mut a = agg.into_inner().unwrap();
    a.failures.sort_by_key(|f| f.0);
    let explored_s = t0.elapsed().as_secs_f64();

    let mut violation = None;
    if let Some((i, v)) = a.failures.first().cloned() {
        let seed = mix(o.seed, s.id(), i);
        let case = s.gen_json(seed, o.tier);
        violation = Some(if s.solo() {
            minimise_solo(s, o, i, seed, case, v)
        } else {
            let (m, path) = minimise(s, o, i, seed, case.clone(), v.clone());
            if confirmed(&path) {
                (m, path)
            } else {
                // the library keeps something from one run to the next
                let _ = std::fs::remove_file(&path);
                minimise_solo(s, o, i, seed, case, v)
            }
        });
    }

    let samples: Vec<J> = {
        let mut v = vec![];
        let mut i = 0;
        while v.len() < 2 && i < n.min(400) {
            let c = s.gen_json(mix(o.seed, s.id(), i), o.tier);
            if serde_json::to_string(&c).map(|t| t.len()).unwrap_or(0) < 3000 {
                v.push(json!({"run": i, "case": c}));
            }
            i += 1;
        }
        v
    };
    let faults: BTreeMap<_, _> = a.counts.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let probes: BTreeMap<_, _> = a.counts.iter().filter(|(k, _)| !k.starts_with("fault.")).collect();
    let wall = t0.elapsed().as_secs_f64();
    let per_h = |n: u64| (n as f64 / explored_s.max(1e-9) * 3600.0).round();
    let evidence = json!({
        "property": s.id(),
        "tier": if o.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": s.rule(),
            "samples": samples,
            "runs_requested": n,
            "truncated_by_time": a.runs < n && a.failures.is_empty(),
            "distinct_executions": a.hashes.len(),
            "distinct_executions_measure": "64-bit digest over every input byte, read, yielded item and reported length of a run",
            "runs_per_hour": per_h(a.runs),
            "seeds_per_hour": per_h(a.runs),
            "simulated_seconds": a.sim_us as f64 / 1e6,
            "faults_fired": faults,
            "probes": probes,
            "real_code": s.real(),
            "stubbed": s.stub(),
            "threads": o.threads,
        },
        "assumptions": s.assume(),
        "wall_s": wall,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    Outcome { evidence, violation }
}

fn minimise(s: &'static dyn DynSim, o: &Opts, i: u64, seed: u64, case: J, v: Viol) -> (Viol, String) {
    // the case as data must fail like the case as generated; should it not, the seed is the replay
    let first = run_case(s, &case, &mut Ctx::new(false)).and_then(|r| r.err());
    let from_seed = first.is_none();
    let (min, tries) = match &first {
        Some(f) => {
            let class = f.class.clone();
            let mut fails = |c: &J| run_case(s, c, &mut Ctx::new(false)).and_then(|r| r.err()).map(|v| v.class);
            shrink(&case, &class, &mut fails, Duration::from_secs(40))
        },
        None => (case, 0),
    };
    let mut x = Ctx::new(true);
    let fin = if from_seed {
        run_guarded(s, seed, o.tier, &mut x).err().unwrap_or(v)
    } else {
        run_case(s, &min, &mut x).and_then(|r| r.err()).unwrap_or(v)
    };
    let body = json!({
        "property": s.id(), "violation": fin.class, "detail": fin.detail, "verif_seed": o.seed,
        "run": i, "run_seed": seed, "tier": format!("{:?}", o.tier).to_lowercase(), "from_seed": from_seed,
        "trace_digest": format!("{:016x}", x.hash), "shrink_attempts": tries, "events": x.log,
        "case": min,
    });
    let path = write_replay(&o.replay_dir, s.id(), &format!("seed{}-run{}", o.seed, i), &body);
    (fin, path)
}

/// What a fresh process reports about a replay file: its digest, class, detail and log.
fn fresh(path: &str, limit: u64) -> Option<J> {
    let out = std::env::temp_dir().join(format!("vsim-report-{}.json", std::process::id()));
    let _ = std::fs::remove_file(&out);
    let args = ["replay-child", path, "--report", &out.to_string_lossy(), "--limit", &limit.to_string()].map(String::from);
    let end = crate::spawn(&args, true);
    let got = std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str(&t).ok());
    let _ = std::fs::remove_file(&out);
    match end {
        crate::End::Killed(sig) => Some(json!({"class": format!("crash:{}", sig)})),
        crate::End::Code(1) => got,
        crate::End::Code(_) => None,
    }
}

/// Does the file alone give the same execution?
fn confirmed(path: &str) -> bool {
    let want: J = std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
    fresh(path, 0).is_some_and(|g| g["class"] == want["violation"] && g["digest"] == want["trace_digest"])
}

/// Minimisation in fresh processes: the library may have been left in another state by earlier runs.
fn minimise_solo(s: &'static dyn DynSim, o: &Opts, i: u64, seed: u64, case: J, v: Viol) -> (Viol, String) {
    let tier = format!("{:?}", o.tier).to_lowercase();
    let tmp = std::env::temp_dir().join(format!("vsim-solo-{}.json", std::process::id()));
    let child = |body: &J, limit: u64| -> Option<J> {
        std::fs::write(&tmp, body.to_string()).ok()?;
        fresh(&tmp.to_string_lossy(), limit)
    };
    let head = json!({"property": s.id(), "violation": v.class, "detail": v.detail, "verif_seed": o.seed,
        "run": i, "run_seed": seed, "tier": tier});
    let with = |k: &str, x: J| {
        let mut b = head.clone();
        b[k] = x;
        b
    };
    let class = |g: &J| g["class"].as_str().map(String::from);
    let mut body;
    if let Some(g) = child(&with("case", case.clone()), 0) {
        let c = class(&g).unwrap_or_default();
        let mut fails = |k: &J| child(&with("case", k.clone()), 0).as_ref().and_then(class);
        let (min, tries) = shrink(&case, &c, &mut fails, Duration::from_secs(60));
        body = with("case", min);
        body["shrink_attempts"] = json!(tries);
    } else {
        // the shortest history of runs, doubled until it fails, that ends in a failure; should none
        // do (other threads had a part in it), the first failure of all runs one after another
        let t0 = Instant::now();
        let left = || 150u64.saturating_sub(t0.elapsed().as_secs()).max(1);
        let back_from = |end: u64| -> Option<u64> {
            let mut back = 1;
            while t0.elapsed().as_secs() < 150 {
                let lo = end.saturating_sub(back);
                if child(&with("range", json!([lo, end])), left()).is_some() {
                    return Some(lo);
                }
                if lo == 0 {
                    return None;
                }
                back *= 2;
            }
            None
        };
        let range = match back_from(i) {
            Some(lo) => [lo, i],
            None => match child(&with("range", json!([0, u64::MAX])), left()).and_then(|g| g["run"].as_u64()) {
                Some(j) => [back_from(j).unwrap_or(0), j],
                None => [0, i],
            },
        };
        body = with("range", json!(range));
    }
    let mut fin = v;
    if let Some(g) = child(&body, 240) {
        if let Some(c) = class(&g) {
            fin.class = c;
        }
        if let Some(d) = g["detail"].as_str() {
            fin.detail = d.to_string();
        }
        body["violation"] = json!(fin.class);
        body["detail"] = json!(fin.detail);
        body["trace_digest"] = g["digest"].clone();
        body["events"] = g["events"].clone();
    } else {
        body["note"] = json!("seen while other threads used the library too; one thread alone does not show it");
    }
    let path = write_replay(&o.replay_dir, s.id(), &format!("seed{}-run{}", o.seed, i), &body);
    let _ = std::fs::remove_file(&tmp);
    (fin, path)
}

pub fn report_hang(s: &dyn DynSim, o: &Opts, i: u64) -> ! {
    let seed = mix(o.seed, s.id(), i);
    let case = s.gen_json(seed, o.tier);
    let body = json!({"property": s.id(), "violation": "hang",
        "detail": format!("the run did not finish within {} s of CPU-bound execution (it should take a small part of that)", s.hang_s()),
        "verif_seed": o.seed, "run": i, "run_seed": seed, "case": case});
    let path = write_replay(&o.replay_dir, s.id(), &format!("seed{}-run{}-hang", o.seed, i), &body);
    println!("hang: run {} of {}", i, s.id());
    println!("VIOLATION property={} replay={}", s.id(), path);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

//! C22: the library built with different features and profiles, each build in a process of its own, given
//! the same bytes, reads, buffers and commands; every observation must be the same.
//! C28: the same on a simulated machine (Miri) of another word size and byte order, which also ends at
//! the first thing the language leaves undefined.
use crate::cmd::{gen_cmd, gen_items, item_bytes, Cmd};
use crate::engine::{Ctx, Sim, Tier, Viol, R};
use crate::ensure;
use crate::hex::Hex;
use crate::link::*;
use crate::linkgen::*;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lite {
    pub plan: Plan,
    pub cmds: Vec<Cmd>,
    pub sinks: Vec<u16>,
    pub kv: Vec<Hex>,
}

struct Build {
    dir: &'static str,
    what: &'static str,
    /// has growable buffers
    grow: bool,
    /// serialises packets
    ser: bool,
    /// run by Miri as a machine of this kind
    machine: Option<&'static str>,
}
const fn build(dir: &'static str, what: &'static str, grow: bool, ser: bool) -> Build {
    Build { dir, what, grow, ser, machine: None }
}
const BUILDS: &[Build] = &[
    build("default", "std and serde (the default)", true, true),
    build("full", "std, alloc and serde", true, true),
    build("alloc", "alloc only", true, false),
    build("none", "no features", false, false),
    build("serde", "serde only", false, true),
    build("opt", "the default features, optimised, without overflow checks and debug assertions", true, true),
    Build {
        dir: "ppc",
        what: "the default features on a 32-bit big-endian machine",
        grow: true,
        ser: true,
        machine: Some("powerpc-unknown-linux-gnu"),
    },
    build(PLAIN, "the default features, not optimised, on a small stack", true, true),
];
/// Not compared with the others: only asked whether it survives (C09).
const PLAIN: &str = "plain";
/// Gives the unoptimised build the same reads; it must come back.
pub fn survives(plan: &Plan, incs: &[Inc], x: &mut Ctx) -> R {
    let k = BUILDS.iter().position(|b| b.dir == PLAIN).expect("listed");
    let c = Lite { plan: plan.clone(), cmds: vec![], sinks: vec![], kv: vec![] };
    let a = ask(k, &request(&c, incs, false))?;
    let panics = format!("{:x}", "panic".bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100000001b3)));
    ensure!(!a.split(['|', ' ']).any(|h| h == panics), "panic", "the build with {} panics", BUILDS[k].what);
    x.count("fault.small_stack", 1);
    Ok(())
}

struct Worker {
    child: Child,
    to: Option<ChildStdin>,
    from: BufReader<ChildStdout>,
    err: Option<std::fs::File>,
}
impl Worker {
    fn start(b: &Build) -> Worker {
        use std::os::unix::process::CommandExt;
        let exe = std::env::current_exe().expect("own path");
        let target = exe.parent().and_then(|p| p.parent()).expect("target");
        let dir = target.join(format!("lite-{}", b.dir));
        let mut err = None;
        let (exe, mut cmd) = match b.machine {
            None => {
                let exe = dir.join(if b.dir == PLAIN { "plain/litesim" } else { "release/litesim" });
                (exe.clone(), Command::new(exe))
            },
            Some(m) => {
                // as tools/build.sh builds it
                let mut c = Command::new("cargo");
                c.args(["+nightly", "miri", "run", "--offline", "--release", "--quiet", "--features", "up_std,up_serde"]);
                c.args(["--target", m]);
                c.current_dir(target.parent().expect("verif").join("litesim"));
                c.env("CARGO_TARGET_DIR", &dir).env("MIRI_SYSROOT", target.join(format!("miri-{}", b.dir)));
                c.env("MIRIFLAGS", MIRIFLAGS);
                err = scratch_file();
                (std::path::PathBuf::from("cargo miri"), c)
            },
        };
        cmd.stdin(Stdio::piped()).stdout(Stdio::piped());
        cmd.stderr(err.as_ref().and_then(|f| f.try_clone().ok()).map_or_else(Stdio::null, Stdio::from));
        // SAFETY: only async-signal-safe calls between fork and exec
        unsafe {
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &core);
                Ok(())
            });
        }
        match cmd.spawn() {
            Err(e) => {
                eprintln!("HARNESS ERROR: cannot start {}: {}", exe.display(), e);
                std::process::exit(2);
            },
            Ok(mut child) => {
                let to = child.stdin.take();
                let from = BufReader::new(child.stdout.take().expect("piped"));
                Worker { child, to, from, err }
            },
        }
    }
    fn ask(&mut self, q: &str) -> Option<String> {
        let to = self.to.as_mut()?;
        to.write_all(q.as_bytes()).and_then(|_| to.write_all(b"\n")).and_then(|_| to.flush()).ok()?;
        let mut l = String::new();
        match self.from.read_line(&mut l) {
            Ok(n) if n > 0 && l.ends_with('\n') => Some(l.trim_end().to_string()),
            _ => None,
        }
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        self.to = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
/// Floating-point arithmetic as the hardware does it; no aliasing model, which the language does not fix yet.
const MIRIFLAGS: &str = "-Zmiri-disable-isolation -Zmiri-deterministic-floats -Zmiri-disable-stacked-borrows";
/// A file without a name, for what a machine says when it ends.
fn scratch_file() -> Option<std::fs::File> {
    let p = std::env::temp_dir().join(format!("vsim-{}-{:?}", std::process::id(), std::thread::current().id()));
    let f = std::fs::OpenOptions::new().read(true).append(true).create(true).open(&p).ok();
    let _ = std::fs::remove_file(&p);
    f
}
thread_local! { static WORKERS: RefCell<Vec<Option<Worker>>> = const { RefCell::new(Vec::new()) }; }
/// The answer of one build; an error if the request ends its process.
fn ask(k: usize, q: &str) -> Result<String, Viol> {
    WORKERS.with(|w| {
        let mut w = w.borrow_mut();
        while w.len() < BUILDS.len() {
            w.push(None);
        }
        let a = w[k].get_or_insert_with(|| Worker::start(&BUILDS[k])).ask(q);
        match a {
            Some(a) if a.starts_with('?') => {
                eprintln!("HARNESS ERROR: {} does not understand: {}", BUILDS[k].dir, a);
                std::process::exit(2);
            },
            Some(a) => Ok(a),
            None => {
                use std::io::{Read, Seek};
                let mut said = String::new();
                let mut st = String::new();
                if let Some(mut w) = w[k].take() {
                    st = w.child.wait().map(|s| s.to_string()).unwrap_or_default();
                    if let Some(f) = w.err.as_mut() {
                        let _ = f.rewind().and_then(|_| f.read_to_string(&mut said));
                    }
                }
                let said = said.lines().find(|l| l.starts_with("error")).unwrap_or("");
                if said.contains("could not compile") || said.contains("unsupported operation") {
                    eprintln!("HARNESS ERROR: {}: {}", BUILDS[k].dir, said);
                    std::process::exit(2);
                }
                crate::engine::viol("crash", format!("the build with {} ended: {} {}", BUILDS[k].what, st, said))
            },
        }
    })
}
fn request(c: &Lite, incs: &[Inc], full: bool) -> String {
    let buf = match c.plan.buf {
        Buf::Fixed { n } => Some(n),
        _ => None,
    };
    let lives: Vec<Vec<(Hex, Option<u16>)>> = incs
        .iter()
        .map(|i| {
            let mut at = 0;
            i.reads
                .iter()
                .map(|(end, m, _)| {
                    let b = Hex(i.stream[at..*end].to_vec());
                    at = *end;
                    let take = match m {
                        Mode::Take { n } | Mode::Panic { n } => Some(u16::from(*n)),
                        Mode::NoPoll => Some(0),
                        _ => None,
                    };
                    (b, take)
                })
                .collect()
        })
        .collect();
    serde_json::json!({"full": full, "buf": buf, "lives": lives, "cmds": c.cmds, "sinks": c.sinks, "kv": c.kv}).to_string()
}

fn gen_lite(r: &mut Rng, p: Prof) -> Lite {
    let typed = r.chance(2, 3);
    let mut plan = gen_plan(r, &Prof { typed, ..p });
    if r.chance(3, 4) {
        let n = if r.chance(1, 2) { fixed_size(r, &plan.tx) } else { r.range(300, 9000) as u32 };
        plan.buf = Buf::Fixed { n };
    }
    let n = r.below(4);
    let cmds: Vec<Cmd> = (0..n).map(|_| gen_cmd(r)).collect();
    let sinks = cmds.iter().map(|_| if r.chance(1, 2) { 4096 } else { r.skewed(80) as u16 }).collect();
    let kv = gen_items(r, 5)
        .iter()
        .map(|i| {
            let mut b = item_bytes(i);
            let n = r.skewed(9);
            b.extend(r.bytes(n));
            Hex(b)
        })
        .collect();
    Lite { plan, cmds, sinks, kv }
}
fn compare(c: &Lite, x: &mut Ctx, which: impl Fn(&Build) -> bool) -> R {
    if !plan_ok(&c.plan) || !matches!(c.plan.buf, Buf::Vec | Buf::Fixed { .. }) || !c.cmds.iter().all(|c| c.ok()) {
        return Ok(());
    }
    let incs = deliver(&c.plan, x);
    let grow = matches!(c.plan.buf, Buf::Vec);
    let q = request(c, &incs, false);
    let base = ask(0, &q)?;
    x.feed(base.as_bytes());
    for (k, b) in BUILDS.iter().enumerate().skip(1) {
        if !which(b) || (grow && !b.grow) {
            continue;
        }
        let a = ask(k, &q)?;
        let part = |t: &str| if b.ser { t.to_string() } else { t.split('|').next().unwrap_or("").to_string() };
        if part(&a) != part(&base) {
            let full = request(c, &incs, true);
            let said = |k: usize| -> Result<Vec<String>, Viol> {
                let (mut t, s): (Vec<String>, Vec<String>) = serde_json::from_str(&ask(k, &full)?).unwrap_or_default();
                if b.ser {
                    t.extend(s);
                }
                Ok(t)
            };
            let (w, g) = (said(0)?, said(k)?);
            let i = w.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
            let cut = |v: &Vec<String>| v.get(i).map_or("nothing".to_string(), |s| s.chars().take(500).collect());
            let (w, g) = (cut(&w), cut(&g));
            ensure!(w == g, "differs", "observation {}: with {}: {}; with {}: {}", i, BUILDS[0].what, w, b.what, g);
            return crate::engine::viol("unstable", format!("with {} the same request gives different answers", b.what));
        }
        x.count("probe.builds_compared", 1);
    }
    let n = base.split('|').next().unwrap_or("").split(' ').count();
    x.count("probe.observations", n as u64);
    if x.log.is_some() {
        let (full, ser): (Vec<String>, Vec<String>) =
            serde_json::from_str(&ask(0, &request(c, &incs, true))?).unwrap_or_default();
        for l in full.into_iter().chain(ser) {
            x.say(|| l.chars().take(300).collect());
        }
    }
    x.nontrivial = n >= 3 + incs.iter().map(|i| i.reads.len()).sum::<usize>().min(1);
    Ok(())
}

pub struct C22;
impl Sim for C22 {
    type Case = Lite;
    const ID: &'static str = "C22";
    const RULE: &'static str = "A run delivers the same faulty line, in the same reads, to the library built six times (default features; with alloc besides; alloc only; none; serde only; default features optimised without overflow checks and debug assertions), each in its own process, then builds the same commands and reads the same stored configuration in each; non-trivial if at least two messages were delivered or commands built. Oracle: every observation (type, payload, every accessor and nested element, Debug output, serialised form where the build has it, derived values, errors and their text, bytes kept, frames, sink contents) equals the default build's.";
    const REAL: &'static [&'static str] = &["ublox built with {std,serde}, {std,alloc,serde}, {alloc}, {}, {serde} and optimised"];
    const STUB: &'static [&'static str] = &["device", "serial line", "UART FIFO", "host read loop", "sinks"];
    const ASSUME: &'static [&'static str] = &["growable buffers are compared between the builds that have them, fixed ones between all"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 360_000 } else { 4_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Lite {
        gen_lite(r, Prof { early: true, restarts: true, prefill: false, max_ops: 8, ..GROW })
    }
    fn run(c: &Lite, x: &mut Ctx) -> R {
        compare(c, x, |b| b.machine.is_none() && b.dir != PLAIN)
    }
}

pub struct C28;
impl Sim for C28 {
    type Case = Lite;
    const ID: &'static str = "C28";
    const HANG_S: u64 = 300;
    const RULE: &'static str = "A run delivers the same faulty line, in the same reads, to the library on this machine and on a simulated 32-bit big-endian machine (Miri, PowerPC), then builds the same commands and reads the same stored configuration on both; non-trivial if at least two messages were delivered or commands built. Oracle: every observation (type, payload, every accessor and nested element, Debug output, serialised form where the build has it, derived values, errors and their text, bytes kept, frames, sink contents) is equal, and the simulated machine never stops at undefined behaviour, an out-of-bounds access or an overflow.";
    const REAL: &'static [&'static str] = &["ublox on this machine", "ublox compiled for powerpc-unknown-linux-gnu"];
    const STUB: &'static [&'static str] = &["the other machine (Miri)", "device", "serial line", "UART FIFO", "host read loop", "sinks"];
    const ASSUME: &'static [&'static str] = &["one machine stands for all that are not 64-bit little-endian; Miri's PowerPC is the language's, not the hardware's"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 400 } else { 12_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Lite {
        // a simulated machine is some thousand times slower
        loop {
            let p = Prof { early: true, restarts: true, prefill: false, big: false, max_ops: 4, max_len: 100, ..GROW };
            let mut c = gen_lite(r, p);
            if r.chance(1, 16) {
                // sums and offsets near the longest message are the largest there are
                let p = vec![*r.pick(&[0xFF, 0xFE, 0x80, 0x55]); r.range(5500, 8176)];
                let i = r.u8();
                c.plan.tx = vec![Tx::Frame { c: 0x77, i, p: Hex(p) }, Tx::Frame { c: 0x77, i: !i, p: Hex(vec![i]) }];
                c.plan.faults.clear();
                c.plan.fifo = None;
                let n = r.range(1, 4);
                c.plan.host = (0..n)
                    .map(|_| {
                        let n = if r.chance(1, 2) { r.range(5900, 9000) } else { r.skewed(8000) };
                        Host::Exact { n: n as u32, m: Mode::Drain }
                    })
                    .collect();
                if matches!(c.plan.buf, Buf::Fixed { .. }) {
                    c.plan.buf = Buf::Fixed { n: r.range(5000, 9000) as u32 };
                }
                c.cmds.clear();
                return c;
            }
            if total_len(&c.plan.tx) <= 1200 && c.plan.host.len() <= 200 {
                return c;
            }
        }
    }
    fn run(c: &Lite, x: &mut Ctx) -> R {
        compare(c, x, |b| b.machine.is_some())
    }
}

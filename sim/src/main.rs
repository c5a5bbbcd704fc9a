mod cmd;
mod duplex;
mod engine;
mod frames;
#[allow(non_snake_case)]
mod gen_acc;
#[allow(non_snake_case)]
mod gen_cmd;
mod heap;
mod hex;
mod link;
mod linkgen;
mod nav;
mod props_cli;
mod props_cmd;
mod props_duplex;
mod props_link;
mod props_lite;
mod props_mem;
mod props_multi;
mod props_save;
mod props_store;
mod refdec;
mod refparse;
mod rng;
mod val;

use engine::{DynSim, Opts, Tier, W};
use std::marker::PhantomData;

fn registry() -> Vec<&'static dyn DynSim> {
    macro_rules! reg { ($($t:ty),* $(,)?) => { vec![$( { static S: W<$t> = W(PhantomData); &S as &'static dyn DynSim } ),*] } }
    use nav::*;
    use props_cli::*;
    use props_cmd::*;
    use props_duplex::*;
    use props_link::*;
    use props_lite::*;
    use props_mem::*;
    use props_multi::*;
    use props_save::*;
    use props_store::*;
    reg![C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C21, C22, C23, C24, C25, C27, C28]
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<String> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).cloned()
    }
    fn num(&self, k: &str) -> Option<u64> {
        self.get(k).and_then(|v| v.parse().ok())
    }
}

fn main() {
    let a = Args(std::env::args().skip(1).collect());
    let mode = a.0.first().cloned().unwrap_or_default();
    engine::install_hook();
    match mode.as_str() {
        "check" => check(&a),
        "worker" => worker(&a),
        "replay" => replay(&a),
        "replay-child" => replay_child(&a),
        "digest" => digest(&a),
        "show" => show(&a),
        "list" => {
            for s in registry() {
                println!("{}", s.id());
            }
        },
        _ => {
            eprintln!("usage: vsim check|worker|replay|digest|show|list");
            std::process::exit(2);
        },
    }
}

fn find(id: &str) -> &'static dyn DynSim {
    match registry().into_iter().find(|s| s.id() == id) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        },
    }
}
fn opts(a: &Args) -> Opts {
    let tier = if a.get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    Opts {
        seed: a.num("--seed").unwrap_or(1),
        tier,
        runs: a.num("--runs"),
        threads: a.num("--threads").unwrap_or(if a.get("--prop").map(|p| find(&p).solo()) == Some(true) { 1 } else { 8 }) as usize,
        replay_dir: a.get("--replays").unwrap_or_else(|| "replays".into()),
        inflight: a.get("--inflight"),
        cap_s: a.num("--cap").unwrap_or(if tier == Tier::Quick { 240 } else { 3600 }),
    }
}

/// Ending of a child process: its exit code, or what killed it.
pub enum End {
    Code(i32),
    Killed(String),
}
pub fn spawn(args: &[String], quiet: bool) -> End {
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().expect("own path");
    let mut c = Command::new(exe);
    c.args(args);
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    match c.status() {
        Err(e) => {
            eprintln!("HARNESS ERROR: cannot start a worker: {}", e);
            std::process::exit(2);
        },
        Ok(st) => match (st.code(), st.signal()) {
            (Some(c), _) => End::Code(c),
            (_, Some(s)) => End::Killed(format!("signal {}", s)),
            _ => End::Killed("unknown cause".into()),
        },
    }
}

/// Runs the worker in a process of its own. If the code under test kills it (abort, stack overflow,
/// memory fault), the runs in flight are repeated one by one to name the one that does.
fn check(a: &Args) {
    let mut args = a.0.clone();
    args[0] = "worker".into();
    let tmp = std::env::temp_dir().join(format!("vsim-{}", std::process::id()));
    let inflight = tmp.join("inflight");
    std::fs::create_dir_all(&tmp).expect("scratch directory");
    args.push("--inflight".into());
    args.push(inflight.to_string_lossy().into());
    let end = spawn(&args, false);
    let code = match end {
        End::Code(c) => c,
        End::Killed(sig) => {
            println!("the worker was killed: {}", sig);
            attribute(a, &tmp, &inflight)
        },
    };
    let _ = std::fs::remove_dir_all(&tmp);
    std::process::exit(code);
}

fn attribute(a: &Args, tmp: &std::path::Path, inflight: &std::path::Path) -> i32 {
    let s = find(&a.get("--prop").unwrap_or_default());
    let o = opts(a);
    let raw = std::fs::read(inflight).unwrap_or_default();
    let mut idx: Vec<u64> =
        raw.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|i| *i != u64::MAX).collect();
    idx.sort();
    let one = tmp.join("case.json");
    let try_case = |c: &serde_json::Value| -> Option<String> {
        let body = serde_json::json!({"property": s.id(), "case": c});
        std::fs::write(&one, body.to_string()).ok()?;
        match spawn(&["replay-child".into(), one.to_string_lossy().into()], true) {
            End::Killed(sig) => Some(format!("crash:{}", sig)),
            End::Code(_) => None,
        }
    };
    for i in idx {
        let seed = rng::mix(o.seed, s.id(), i);
        let case = s.gen_json(seed, o.tier);
        if let Some(class) = try_case(&case) {
            let mut f = |c: &serde_json::Value| try_case(c);
            let (min, tries) = engine::shrink(&case, &class, &mut f, std::time::Duration::from_secs(40));
            let body = serde_json::json!({
                "property": s.id(), "violation": class, "detail": "the code under test killed the process",
                "verif_seed": o.seed, "run": i, "run_seed": seed, "shrink_attempts": tries, "case": min});
            let path = engine::write_replay(&o.replay_dir, s.id(), &format!("seed{}-run{}-crash", o.seed, i), &body);
            println!("{}: run {} of {} ended the process", class, i, s.id());
            println!("VIOLATION property={} replay={}", s.id(), path);
            return 1;
        }
    }
    eprintln!("HARNESS ERROR: the worker was killed and no run in flight does it alone");
    2
}

fn replay(a: &Args) {
    let mut args = a.0.clone();
    args[0] = "replay-child".into();
    match spawn(&args, false) {
        End::Code(c) => std::process::exit(c),
        End::Killed(sig) => {
            let path = a.0.get(1).cloned().unwrap_or_default();
            let j: serde_json::Value =
                std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
            println!("crash:{}", sig);
            println!("VIOLATION property={} replay={}", j["property"].as_str().unwrap_or_default(), path);
            std::process::exit(1);
        },
    }
}

fn worker(a: &Args) {
    let s = find(&a.get("--prop").unwrap_or_default());
    let o = opts(a);
    let out = engine::check(s, &o);
    if let Some(p) = a.get("--evidence") {
        if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&out.evidence).unwrap() + "\n") {
            eprintln!("HARNESS ERROR: cannot write {}: {}", p, e);
            std::process::exit(2);
        }
    }
    let c = &out.evidence["coverage"];
    println!(
        "{}: {} runs, {} distinct non-trivial, {} simulated s, {:.1} s",
        s.id(),
        c["evaluations"],
        c["distinct_nontrivial"],
        c["simulated_seconds"],
        out.evidence["wall_s"].as_f64().unwrap_or(0.0)
    );
    if let Some((v, path)) = out.violation {
        println!("{}: {}", v.class, v.detail);
        println!("VIOLATION property={} replay={}", s.id(), path);
        std::process::exit(1);
    }
}

fn replay_child(a: &Args) {
    let Some(path) = a.0.get(1) else {
        eprintln!("usage: vsim replay FILE");
        std::process::exit(2);
    };
    let j: serde_json::Value =
        std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_else(|| {
            eprintln!("cannot read {}", path);
            std::process::exit(2);
        });
    let s = find(j["property"].as_str().unwrap_or_default());
    // a hang must end too
    let id = s.id();
    let history = j["range"].is_array();
    let limit = match a.num("--limit") {
        Some(l) if l > 0 => l,
        _ if history => 600,
        _ => s.hang_s(),
    };
    let p2 = path.clone();
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        if history {
            println!("no result after {} s", limit);
            std::process::exit(2);
        }
        println!("hang: no result after {} s", limit);
        println!("VIOLATION property={} replay={}", id, p2);
        std::process::exit(1);
    });
    let report = |run: u64, digest: u64, v: &engine::Viol, log: &Option<Vec<String>>| {
        if let Some(p) = a.get("--report") {
            let r = serde_json::json!({"digest": format!("{:016x}", digest), "class": v.class, "detail": v.detail, "events": log, "run": run});
            let _ = std::fs::write(p, r.to_string());
        }
    };
    let mut x = engine::Ctx::new(true);
    if let (Some(lo), Some(hi)) = (j["range"][0].as_u64(), j["range"][1].as_u64()) {
        // the failure needs what earlier runs left behind in the process
        let tier = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
        let base = j["verif_seed"].as_u64().unwrap_or(1);
        let mut all = 0u64;
        for i in lo..=hi {
            let mut x = engine::Ctx::new(false);
            let r = engine::run_guarded(s, rng::mix(base, s.id(), i), tier, &mut x);
            all = all.rotate_left(5) ^ x.hash;
            if let Err(v) = r {
                println!("trace digest {:016x} (recorded {})", all, j["trace_digest"].as_str().unwrap_or("-"));
                report(i, all, &v, &None);
                println!("run {}: {}: {}", i, v.class, v.detail);
                println!("VIOLATION property={} replay={}", s.id(), path);
                std::process::exit(1);
            }
        }
        println!("no violation");
        return;
    }
    let from_seed = j["from_seed"].as_bool() == Some(true);
    let r = if from_seed {
        let tier = if j["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
        Some(engine::run_guarded(s, j["run_seed"].as_u64().unwrap_or_default(), tier, &mut x))
    } else {
        engine::run_case(s, &j["case"], &mut x)
    };
    match r {
        None => {
            eprintln!("the case of {} does not fit property {}", path, s.id());
            std::process::exit(2);
        },
        Some(r) => {
            for l in x.log.iter().flatten() {
                println!("  {}", l);
            }
            println!("trace digest {:016x} (recorded {})", x.hash, j["trace_digest"].as_str().unwrap_or("-"));
            match r {
                Ok(()) => println!("no violation"),
                Err(v) => {
                    report(0, x.hash, &v, &x.log);
                    println!("{}: {}", v.class, v.detail);
                    println!("VIOLATION property={} replay={}", s.id(), path);
                    std::process::exit(1);
                },
            }
        },
    }
}

/// One line per run: the digest of everything observed. Two executions must print the same.
fn digest(a: &Args) {
    let o = opts(a);
    let ids: Vec<String> = match a.get("--prop") {
        Some(p) => vec![p],
        None => registry().iter().map(|s| s.id().to_string()).collect(),
    };
    let n = o.runs.unwrap_or(200);
    for id in ids {
        let s = find(&id);
        let n = n.min(s.budget(Tier::Quick) / 20);
        let lines = std::sync::Mutex::new(vec![]);
        let next = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|sc| {
            for _ in 0..o.threads {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    let mut x = engine::Ctx::new(false);
                    let r = engine::run_guarded(s, rng::mix(o.seed, s.id(), i), o.tier, &mut x);
                    lines.lock().unwrap().push((i, x.hash, x.sim_us, x.counts, r.err().map(|v| v.class)));
                });
            }
        });
        let mut l = lines.into_inner().unwrap();
        l.sort_by_key(|x| x.0);
        for (i, h, t, c, v) in l {
            println!("{} seed={} run={} digest={:016x} t={} counts={:?} {}", id, o.seed, i, h, t, c, v.unwrap_or_default());
        }
    }
}

fn show(a: &Args) {
    let o = opts(a);
    let s = find(&a.get("--prop").unwrap_or_default());
    let c = s.gen_json(rng::mix(o.seed, s.id(), a.num("--run").unwrap_or(0)), o.tier);
    println!("{}", serde_json::to_string_pretty(&c).unwrap());
}

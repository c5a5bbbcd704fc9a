//! C21: the command-line tool, whole, with its serial port simulated (see /verif/clisim): its command
//! line, the receiver's traffic, and what every read and write does are the plan; what it puts on the
//! line and on its standard output is the history.
use crate::engine::{viol, Ctx, Sim, Tier, Viol, R};
use crate::ensure;
use crate::hex::{dec, enc, Hex};
use crate::refdec::type_of;
use crate::refparse::{self, frame, unframe, Cand};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::process::{Command, Stdio};

/// Serial options on the command line; None: left out.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Line {
    pub baud: Option<u32>,
    pub stop: Option<u8>,
    pub data: Option<u8>,
    /// 0 even, 1 odd
    pub parity: Option<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conf {
    /// 0 usb, 1 uart1, 2 uart2
    pub select: Option<u8>,
    pub line: Line,
    pub in_ubx: bool,
    pub in_nmea: bool,
    pub in_rtcm: bool,
    pub in_rtcm3: bool,
    pub out_ubx: bool,
    pub out_nmea: bool,
    pub out_rtcm3: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Io {
    /// at most so many bytes
    Up(u16),
    Timeout,
    Interrupted,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Reply {
    Ack,
    Nak,
    /// acknowledges something else: class, id
    Other(u8, u8),
    /// what was asked for, for the poll
    Answer(Hex),
    Silent,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cli {
    pub line: Line,
    pub conf: Option<Conf>,
    pub reads: Vec<Io>,
    pub writes: Vec<Io>,
    pub burst: u16,
    pub gap: u16,
    pub limit: u16,
    pub msgs: Vec<Hex>,
    /// how the receiver reacts to each command: after so many further messages
    pub replies: Vec<(u16, Reply)>,
}

fn push_line(a: &mut Vec<String>, l: &Line) {
    let mut opt = |k: &str, v: Option<String>| {
        if let Some(v) = v {
            a.push(format!("--{}", k));
            a.push(v);
        }
    };
    opt("baud", l.baud.map(|b| b.to_string()));
    opt("stop-bits", l.stop.map(|b| b.to_string()));
    opt("data-bits", l.data.map(|b| b.to_string()));
    opt("parity", l.parity.map(|p| if p == 0 { "even".into() } else { "odd".into() }));
}
fn args(c: &Cli) -> Vec<String> {
    let mut a = vec!["--port".to_string(), "/dev/simulated".into()];
    push_line(&mut a, &c.line);
    if let Some(f) = &c.conf {
        a.push("configure".into());
        if let Some(s) = f.select {
            a.push("--select".into());
            a.push(["usb", "uart1", "uart2"][usize::from(s % 3)].into());
        }
        push_line(&mut a, &f.line);
        for (on, n) in [
            (f.in_ubx, "in-ublox"),
            (f.in_nmea, "in-nmea"),
            (f.in_rtcm, "in-rtcm"),
            (f.in_rtcm3, "in-rtcm3"),
            (f.out_ubx, "out-ublox"),
            (f.out_nmea, "out-nmea"),
            (f.out_rtcm3, "out-rtcm3"),
        ] {
            if on {
                a.push(format!("--{}", n));
            }
        }
    }
    a
}
/// Whether a defect is listed as a known finding (known_findings.json). Each is recognised by exactly
/// what it does, and anything else remains a violation.
fn known(label: &str) -> bool {
    static LIST: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    LIST.get_or_init(|| {
        let text = std::env::var("VSIM_KNOWN").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        let j: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
        let of = |f: &serde_json::Value| Some(f["label"].as_str()?.to_string());
        j["findings"].as_array().map(|a| a.iter().filter_map(of).collect()).unwrap_or_default()
    })
    .iter()
    .any(|l| l == label)
}
/// The same options with odd and even parity exchanged.
fn swapped(l: &Line) -> Line {
    Line { parity: l.parity.map(|p| u8::from(p == 0)), ..l.clone() }
}
fn cfg_prt(f: &Conf) -> Vec<u8> {
    let l = &f.line;
    let mode = match l.data {
        Some(7) => 0b10u32 << 6,
        _ => 0b11 << 6,
    } | match l.parity {
        Some(0) => 0b000u32 << 9,
        Some(_) => 0b001 << 9,
        None => 0b100 << 9,
    } | match l.stop {
        Some(2) => 0b10u32 << 12,
        _ => 0,
    };
    // UBX cannot be switched off
    let inm = 1u16 | if f.in_nmea { 2 } else { 0 } | if f.in_rtcm { 4 } else { 0 } | if f.in_rtcm3 { 0x20 } else { 0 };
    let mut outm = if f.out_ubx { 1u16 } else { 0 } | if f.out_nmea { 2 } else { 0 } | if f.out_rtcm3 { 0x20 } else { 0 };
    if outm == 0 {
        outm = 1;
    }
    let mut p = vec![[3u8, 1, 2][usize::from(f.select.unwrap_or(0) % 3)], 0, 0, 0];
    p.extend(mode.to_le_bytes());
    p.extend(l.baud.unwrap_or(9600).to_le_bytes());
    p.extend(inm.to_le_bytes());
    p.extend(outm.to_le_bytes());
    p.extend([0; 4]);
    p
}
/// The commands the tool has to send, in order.
fn wanted(c: &Cli) -> Vec<(u8, u8, Vec<u8>)> {
    let mut w = vec![];
    if let Some(f) = &c.conf {
        w.push((6, 0, cfg_prt(f)));
    }
    w.push((6, 1, vec![1, 7, 0, 1, 1, 1, 0, 0]));
    w.push((0x0a, 4, vec![]));
    w
}
fn script(c: &Cli) -> String {
    let io = |v: &[Io]| {
        v.iter()
            .map(|o| match o {
                Io::Up(n) => (*n).max(1).to_string(),
                Io::Timeout => "t".into(),
                Io::Interrupted => "i".into(),
            })
            .collect::<Vec<_>>()
            .join(" ")
    };
    let mut s = format!(
        "reads {}\nwrites {}\nlimit {}\nburst {}\ngap {}\n",
        io(&c.reads),
        io(&c.writes),
        c.limit.max(1),
        c.burst,
        c.gap
    );
    for m in &c.msgs {
        s += &format!("msg {}\n", enc(&m.0));
    }
    for ((d, r), w) in c.replies.iter().zip(wanted(c)) {
        let b = match r {
            Reply::Ack => frame(5, 1, &[w.0, w.1]),
            Reply::Nak => frame(5, 0, &[w.0, w.1]),
            Reply::Other(a, b) => frame(5, 1, &[*a, *b]),
            Reply::Answer(h) => h.0.clone(),
            Reply::Silent => vec![],
        };
        s += &format!("reply {} {}\n", d, enc(&b));
    }
    s
}

/// Runs the tool once: (standard output, how it ended)
fn run_tool(c: &Cli) -> Result<(String, Result<i32, i32>), Viol> {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let exe = std::env::current_exe().expect("own path").with_file_name("clisim");
    let mut cmd = Command::new(&exe);
    cmd.args(args(c)).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    // SAFETY: only async-signal-safe calls between fork and exec
    unsafe {
        cmd.pre_exec(|| {
            let cpu = libc::rlimit { rlim_cur: 30, rlim_max: 30 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            Ok(())
        });
    }
    let mut ch = match cmd.spawn() {
        Ok(ch) => ch,
        Err(e) => {
            eprintln!("HARNESS ERROR: cannot start {}: {}", exe.display(), e);
            std::process::exit(2);
        },
    };
    // the tool may end before it reads all of its script
    let mut inp = ch.stdin.take().expect("piped");
    let text = script(c);
    let feed = std::thread::spawn(move || {
        let _ = inp.write_all(text.as_bytes());
    });
    let mut out = vec![];
    let _ = ch.stdout.take().expect("piped").read_to_end(&mut out);
    let st = ch.wait().expect("child");
    let _ = feed.join();
    let end = match st.code() {
        Some(v) => Ok(v),
        None => Err(st.signal().unwrap_or(0)),
    };
    Ok((String::from_utf8_lossy(&out).into_owned(), end))
}

type Good = (usize, usize, u8, u8, Vec<u8>);
/// The tool is listening, and its last read completed a solution whose time does not exist (or is a leap
/// second).
fn died_of_date(reads: &[usize], good: &[Good], listening: bool) -> bool {
    let Some(now) = reads.last() else { return false };
    let before = reads.iter().rev().nth(1).copied().unwrap_or(0);
    listening
        && good.iter().any(|g| {
            let p = &g.4;
            g.1 > before && g.1 <= *now && type_of(g.2, g.3, p) == "NavPvt" && matches!(p[20], 3 | 4 | 5) && {
                let y = i64::from(p[4]) | i64::from(p[5]) << 8;
                let (mo, d) = (u32::from(p[6]), u32::from(p[7]));
                let ns = i32at(p, 16).abs();
                let date = (1..=12).contains(&mo) && d >= 1 && d <= crate::nav::month_len(y, mo);
                !date || p[8] > 23 || p[9] > 59 || p[10] > 59 || ns >= 1e9
            }
        })
}
fn i32at(p: &[u8], o: usize) -> f64 {
    f64::from(i32::from_le_bytes([p[o], p[o + 1], p[o + 2], p[o + 3]]))
}
fn numbers(l: &str, names: &[(&str, &str)]) -> Option<Vec<f64>> {
    let mut rest = l;
    let mut v = vec![];
    for (before, after) in names {
        let at = rest.find(before)? + before.len();
        rest = rest[at..].trim_start();
        let end = if after.is_empty() { rest.find(' ').unwrap_or(rest.len()) } else { rest.find(after)? };
        v.push(rest[..end].trim().parse().ok()?);
        rest = &rest[end..];
    }
    Some(v)
}
/// A solution as shown.
#[derive(Debug, Clone)]
struct Shown {
    pos: Vec<f64>,
    vel: Option<Vec<f64>>,
    reads: usize,
}
fn fits(s: &Shown, p: &[u8]) -> bool {
    let ok = |g: f64, w: f64, digits: f64| (g - w).abs() <= digits * 0.5001 + w.abs() * 1e-12;
    ok(s.pos[1], i32at(p, 24) * 1e-7, 1e-5)
        && ok(s.pos[0], i32at(p, 28) * 1e-7, 1e-5)
        && ok(s.pos[2], i32at(p, 36) * 1e-3, 1e-2)
        && s.vel.as_ref().map_or(true, |v| ok(v[0], i32at(p, 60) * 1e-3, 1e-2) && ok(v[1], i32at(p, 64) * 1e-5, 1e-2))
}

/// Reads the tool may use to notice what it has already been sent.
const PROMPT: usize = 200;

pub struct C21;
impl Sim for C21 {
    type Case = Cli;
    const ID: &'static str = "C21";
    const RULE: &'static str = "A run starts the whole tool with a random command line on a simulated serial port: a receiver that streams without pause or in bursts, acknowledges, rejects, ignores or answers late, reads that give a few bytes, time out or are interrupted, writes that are short or interrupted; solutions with every kind of fix, with clocks not set and leap seconds. Non-trivial if at least two commands were sent and a solution was shown, or a refusal or silence was met. Oracle: the options, the protocol's encoding, an independent frame scan of what the port delivered.";
    const REAL: &'static [&'static str] =
        &["examples/ublox-cli/src/main.rs, compiled from its source", "ublox", "clap", "chrono"];
    const STUB: &'static [&'static str] = &["serialport (open, read, write and their failures)", "receiver"];
    const ASSUME: &'static [&'static str] = &[
        "solutions that arrive before the tool has sent its last request need not be shown",
        "after a rejection the tool may wait for ever or give up, but not go on",
        "the wording of what is shown is the tool's, apart from the numbers of position and speed",
    ];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 10_000 } else { 250_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Cli {
        // most runs keep clear of interrupted reads and times that do not exist, which end the tool early
        let (interrupts, odd_times) = (r.chance(1, 6), r.chance(1, 5));
        let line = |r: &mut Rng| Line {
            baud: if r.chance(1, 2) { Some(*r.pick(&[4800, 9600, 38400, 115200, 921600, 1, u32::MAX])) } else { None },
            stop: if r.chance(1, 2) { Some(r.range(1, 2) as u8) } else { None },
            data: if r.chance(1, 2) { Some(r.range(7, 8) as u8) } else { None },
            parity: if r.chance(1, 2) { Some(r.below(2) as u8) } else { None },
        };
        let l0 = line(r);
        let conf = if r.chance(3, 4) {
            let rtcm = r.below(8);
            Some(Conf {
                select: Some(r.below(3) as u8),
                line: line(r),
                in_ubx: r.chance(1, 2),
                in_nmea: r.chance(1, 2),
                in_rtcm: matches!(rtcm, 0..=2),
                in_rtcm3: matches!(rtcm, 2..=4),
                out_ubx: r.chance(1, 2),
                out_nmea: r.chance(1, 2),
                out_rtcm3: r.chance(1, 2),
            })
        } else {
            None
        };
        let io = |r: &mut Rng, n: usize, fail: usize| -> Vec<Io> {
            let kind = r.below(4);
            (0..n)
                .map(|_| {
                    if r.chance(fail, 10) {
                        return if r.chance(1, 2) { Io::Timeout } else { Io::Interrupted };
                    }
                    Io::Up(match kind {
                        0 => 1 + r.below(3) as u16,
                        1 => 1 + r.skewed(60) as u16,
                        2 => 1 + r.skewed(1300) as u16,
                        _ => 4096,
                    })
                })
                .collect()
        };
        let nr = r.range(1, 12);
        let f = *r.pick(&[0, 0, 1, 3]);
        let mut reads = io(r, nr, f);
        if !reads.iter().any(|o| matches!(o, Io::Up(_))) {
            reads.push(Io::Up(64));
        }
        if !interrupts {
            for o in reads.iter_mut() {
                if matches!(o, Io::Interrupted) {
                    *o = Io::Timeout;
                }
            }
        }
        let nw = r.range(1, 6);
        let f = *r.pick(&[0, 0, 2]);
        let mut writes = io(r, nw, f);
        for w in writes.iter_mut() {
            if matches!(w, Io::Timeout) {
                *w = Io::Interrupted;
            }
        }
        if !writes.iter().any(|o| matches!(o, Io::Up(_))) {
            writes.push(Io::Up(3));
        }
        let n = r.range(0, 8);
        let mut msgs = vec![];
        for _ in 0..n {
            let b = match r.below(10) {
                0 => crate::linkgen::clean_raw(r),
                1 => {
                    let (n, c, i, mut p) = crate::frames::random_packet(r);
                    if n == "NavPvt" {
                        p[63] &= 0x7F;
                        p[20] = if odd_times { p[20] } else { 0 };
                    }
                    frame(c, i, &p)
                },
                2 => {
                    let (a, b) = *r.pick(&[(6u8, 0u8), (6, 1), (6, 2), (0x0a, 4), (0, 6), (1, 7), (6, 0x8a)]);
                    frame(5, *r.pick(&[1u8, 1, 0]), &[a, b])
                },
                3 => {
                    let mut p = crate::frames::valid_payload(r, "NavPvt");
                    p[63] &= 0x7F;
                    let mut b = frame(1, 7, &p);
                    let k = r.range(6, b.len() - 1);
                    b[k] ^= 1 << r.below(8);
                    b
                },
                _ => {
                    let mut p = crate::frames::valid_payload(r, "NavPvt");
                    p[20] = *r.pick(&[3u8, 3, 3, 4, 5, 0, 1, 2, 6, 200]);
                    p[63] &= 0x7F; // speed over ground is never negative
                    if !odd_times || r.chance(3, 4) {
                        let y = r.range(1980, 2100) as u16;
                        p[4..6].copy_from_slice(&y.to_le_bytes());
                        p[6] = r.range(1, 12) as u8;
                        p[7] = r.range(1, 28) as u8;
                        p[8] = r.below(24) as u8;
                        p[9] = r.below(60) as u8;
                        p[10] = r.below(60) as u8;
                        let ns = r.below(1_000_000_000) as i32 - 500_000_000;
                        p[16..20].copy_from_slice(&ns.to_le_bytes());
                        for (o, lim) in [(24, 1_800_000_000i64), (28, 900_000_000)] {
                            let v = (r.u64() % (2 * lim as u64)) as i64 - lim;
                            p[o..o + 4].copy_from_slice(&(v as i32).to_le_bytes());
                        }
                        if odd_times && r.chance(1, 8) {
                            (p[8], p[9], p[10]) = (23, 59, 60);
                        }
                    }
                    frame(1, 7, &p)
                },
            };
            msgs.push(Hex(b));
        }
        let stream = !msgs.is_empty() && r.chance(1, 2);
        let mut replies = vec![];
        for w in 0..3 {
            let kind = r.below(12);
            let rep = match kind {
                0 if w < 2 => Reply::Nak,
                1 if w < 2 => Reply::Silent,
                2 if w < 2 => {
                    let (a, b) = *r.pick(&[(6u8, 1u8), (6, 0), (6, 2), (0, 6), (1, 7)]);
                    Reply::Other(a, b)
                },
                _ => Reply::Ack,
            };
            replies.push((r.skewed(12) as u16, rep));
        }
        let last = if conf.is_some() { 2 } else { 1 };
        if r.chance(4, 5) {
            let mut p = crate::frames::valid_payload(r, "MonVer");
            if r.chance(1, 2) {
                p.truncate(40);
            }
            replies[last].1 = Reply::Answer(Hex(frame(0x0a, 4, &p)));
        }
        Cli {
            line: l0,
            conf,
            reads,
            writes,
            burst: if stream { 1 + r.skewed(4000) as u16 } else { 0 },
            gap: r.skewed(4) as u16,
            limit: if r.chance(1, 20) { r.range(1, 300) as u16 } else { r.range(400, 700) as u16 },
            msgs,
            replies,
        }
    }
    fn run(c: &Cli, x: &mut Ctx) -> R {
        if c.conf.as_ref().map_or(false, |f| f.select.is_none()) {
            return Ok(());
        }
        if c.reads.is_empty() || c.writes.is_empty() || !c.reads.iter().any(|o| matches!(o, Io::Up(_))) || !c.writes.iter().any(|o| matches!(o, Io::Up(_))) {
            return Ok(());
        }
        let (out, end) = run_tool(c)?;
        x.feed(out.as_bytes());
        x.say(|| format!("arguments: {}", args(c).join(" ")));
        let want = wanted(c);
        let contradictory = c.conf.as_ref().map_or(false, |f| f.in_rtcm && f.in_rtcm3);
        let mut open: Option<Vec<String>> = None;
        let mut sent: Vec<u8> = vec![];
        let mut got: Vec<u8> = vec![];
        // number of reads done, bytes received when each ended
        let mut reads: Vec<usize> = vec![];
        let mut pauses: Vec<usize> = vec![];
        // for each command: (reads done when it began, bytes received then, bytes received when it was complete)
        let mut cmds: Vec<(usize, usize, usize)> = vec![];
        let mut done = 0;
        let mut begun: Option<(usize, usize)> = None;
        let mut shown: Vec<Shown> = vec![];
        let mut ended = false;
        let mut interrupted = false;
        for l in out.lines() {
            x.say(|| if l.len() > 300 { l.chars().take(300).collect::<String>() + " …" } else { l.to_string() });
            if let Some(v) = l.strip_prefix("@OPEN ") {
                ensure!(open.is_none(), "opened-twice", "the port is opened a second time");
                open = Some(v.split(' ').map(|s| s.to_string()).collect());
            } else if let Some(v) = l.strip_prefix("@SET ") {
                if let (Some(o), Some((k, v))) = (open.as_mut(), v.split_once(' ')) {
                    let i = match k {
                        "baud" => 1,
                        "data" => 2,
                        "parity" => 3,
                        "stop" => 4,
                        _ => 5,
                    };
                    o[i] = v.into();
                }
            } else if let Some(v) = l.strip_prefix("@W ") {
                let b = dec(v).unwrap_or_default();
                if begun.is_none() {
                    begun = Some((reads.len(), got.len()));
                    if let Some(o) = &open {
                        let l = &c.line;
                        let settings = |l: &Line| {
                            [
                                "/dev/simulated".to_string(),
                                l.baud.unwrap_or(9600).to_string(),
                                if l.data == Some(7) { "Seven".into() } else { "Eight".into() },
                                match l.parity {
                                    None => "None".into(),
                                    Some(0) => "Even".into(),
                                    Some(_) => "Odd".into(),
                                },
                                if l.stop == Some(2) { "Two".into() } else { "One".into() },
                                "None".into(),
                            ]
                        };
                        let w = settings(l);
                        if o[..] != w && o[..] == settings(&swapped(l)) && known("cli-parity-port") {
                            x.count("known.cli-parity-port", 1);
                        } else {
                            ensure!(o[..] == w, "port-settings", "asked for {:?}, the port has {:?}", w, o);
                        }
                    }
                }
                if c.writes.len() > 1 {
                    x.count("fault.partial_write", 1);
                }
                sent.extend(b);
                while sent.len() - done >= 8 {
                    let n = 8 + usize::from(sent[done + 4]) + 256 * usize::from(sent[done + 5]);
                    if sent.len() - done < n {
                        break;
                    }
                    let f = sent[done..done + n].to_vec();
                    done += n;
                    let k = cmds.len();
                    ensure!(k < want.len(), "unasked-command", "sends {} after all its commands", enc(&f));
                    let w = &want[k];
                    let mut ok = unframe(&f).map_or(false, |(a, b, p)| (a, b, p) == (w.0, w.1, &w.2[..]));
                    if let (false, Some(f0), Some((6, 0, p))) = (ok, &c.conf, unframe(&f)) {
                        // listed defects of this command, each alone or together with the other
                        let (kp, kb) = (known("cli-parity-configure"), known("cli-configure-baud"));
                        for (par, baud) in [(true, false), (false, true), (true, true)] {
                            let mut g = f0.clone();
                            if par {
                                g.line = swapped(&g.line);
                            }
                            if baud {
                                g.line.baud = Some(9600);
                            }
                            if !ok && (!par || kp) && (!baud || kb) && p == cfg_prt(&g) {
                                ok = true;
                                x.count("known.cli-parity-configure", u64::from(par));
                                x.count("known.cli-configure-baud", u64::from(baud));
                            }
                        }
                    }
                    ensure!(ok, "wrong-command", "command {} is {}, should be {}", k + 1, enc(&f), enc(&frame(w.0, w.1, &w.2)));
                    let b = begun.take().unwrap_or((reads.len(), got.len()));
                    cmds.push((b.0, b.1, got.len()));
                    if sent.len() > done {
                        begun = Some((reads.len(), got.len()));
                    }
                }
            } else if l == "@WI" {
                x.count("fault.interrupted_write", 1);
                interrupted = true;
            } else if let Some(v) = l.strip_prefix("@R ") {
                interrupted = false;
                got.extend(dec(v).unwrap_or_default());
                reads.push(got.len());
            } else if l == "@T" || l == "@I" {
                interrupted = l == "@I";
                x.count(if interrupted { "fault.interrupted_read" } else { "fault.read_timeout" }, 1);
                if l == "@T" {
                    pauses.push(reads.len());
                }
                reads.push(got.len());
            } else if l == "@WRITELOOP" {
                return viol("endless-writes", format!("after {} bytes sent", sent.len()));
            } else if l == "@END" {
                ended = true;
            } else if l.starts_with("Latitude:") {
                match numbers(l, &[("Latitude:", ""), ("Longitude:", ""), ("Altitude:", "m")]) {
                    Some(pos) => shown.push(Shown { pos, vel: None, reads: reads.len() }),
                    None => return viol("unreadable", l.to_string()),
                }
            } else if l.starts_with("Speed:") {
                match (numbers(l, &[("Speed:", ""), ("Heading:", "")]), shown.last_mut()) {
                    (Some(v), Some(s)) => s.vel = Some(v),
                    _ => return viol("unreadable", l.to_string()),
                }
            }
        }
        x.sim_us += reads.len() as u64 * 10_000;
        if contradictory {
            ensure!(cmds.is_empty() && sent.is_empty(), "contradiction", "both RTCM versions asked for, yet sends {}", enc(&sent));
            ensure!(end == Ok(1), "contradiction", "both RTCM versions asked for: ends with {:?}", end);
            x.count("probe.contradictory_options", 1);
            x.nontrivial = true;
            return Ok(());
        }
        ensure!(open.is_some(), "not-opened", "the port was never opened: ends with {:?}", end);
        // what the port delivered, by an independent reading
        let (cands, _) = refparse::scan(&got);
        let good: Vec<Good> = cands
            .iter()
            .filter_map(|k| match *k {
                Cand::Good { at, len } => {
                    let f = &got[at..at + len];
                    unframe(f).map(|(a, b, p)| (at, at + len, a, b, p.to_vec()))
                },
                _ => None,
            })
            .collect();
        let ackd = |w: &(u8, u8, Vec<u8>), from: usize| {
            good.iter().find(|g| g.2 == 5 && g.3 == 1 && g.4 == [w.0, w.1] && g.1 > from).map(|g| g.1)
        };
        let nakd = good.iter().any(|g| g.2 == 5 && g.3 == 0 && want.iter().any(|w| g.4 == [w.0, w.1]));
        if !ended {
            let waiting = cmds.len();
            match end {
                Ok(101) if interrupted && known("cli-interrupted") => x.count("known.cli-interrupted", 1),
                Ok(101) if known("cli-date") && died_of_date(&reads, &good, cmds.len() == want.len()) => {
                    x.count("known.cli-date", 1)
                },
                Ok(101) | Err(_) if interrupted => {
                    return viol("interrupted", format!("an interrupted call ends the tool ({:?}) after {} commands", end, waiting))
                },
                Ok(0) | Ok(101) | Err(_) => return viol("crash", format!("ends with {:?} after {} commands and {} bytes received", end, waiting, got.len())),
                Ok(v) => ensure!(nakd, "gives-up", "ends with {} after {} commands although nothing was rejected", v, waiting),
            }
        }
        for k in 0..want.len() {
            let Some(&(r0, begin, _)) = cmds.get(k) else {
                // why was it not sent?
                if k > 0 {
                    match ackd(&want[k - 1], cmds[k - 1].2) {
                        None => {
                            x.count("probe.never_acknowledged", 1);
                            x.nontrivial = true;
                        },
                        Some(at) => {
                            let seen = reads.iter().position(|n| *n >= at).unwrap_or(reads.len());
                            // nothing was there to read
                            let paused = pauses.iter().any(|p| *p > seen && *p + PROMPT <= reads.len());
                            if ended && reads.len() - seen >= PROMPT && !paused && known("cli-never-pausing") {
                                x.count("known.cli-never-pausing", 1);
                                break;
                            }
                            ensure!(
                                !ended || reads.len() - seen < PROMPT,
                                "stuck",
                                "command {} was acknowledged by read {}, but after {} reads the next one has not been sent",
                                k,
                                seen,
                                reads.len()
                            );
                        },
                    }
                } else {
                    return viol("nothing-sent", "no complete command was sent");
                }
                break;
            };
            if k > 0 {
                let complete = cmds[k - 1].2;
                match ackd(&want[k - 1], complete) {
                    Some(at) if at <= begin => {
                        let seen = reads.iter().position(|n| *n >= at).unwrap_or(reads.len());
                        let paused = pauses.iter().any(|p| *p > seen && *p + PROMPT < r0);
                        if r0 - (seen + 1) > PROMPT && !paused && known("cli-never-pausing") {
                            x.count("known.cli-never-pausing", 1);
                            continue;
                        }
                        ensure!(r0 - (seen + 1) <= PROMPT, "slow", "acknowledged by read {}, goes on after read {}", seen, r0);
                        x.count("probe.waited_for_ack", 1);
                    },
                    _ => return viol("not-acknowledged", format!("command {} is sent although command {} is not acknowledged yet", k + 1, k)),
                }
            }
        }
        // solutions
        let all: Vec<(usize, &Vec<u8>)> = good
            .iter()
            .filter(|g| type_of(g.2, g.3, &g.4) == "NavPvt" && (g.4[20] == 3 || g.4[20] == 4))
            .map(|g| (g.1, &g.4))
            .collect();
        let last = cmds.get(want.len() - 1).map(|c| c.2);
        let opt = match last {
            None => all.len(),
            Some(b) => all.iter().filter(|a| a.0 <= b).count(),
        };
        // those due: read well before the end
        let due = all.iter().filter(|a| ended && reads.iter().rposition(|n| *n < a.0).map_or(0, |i| i + 2) + 3 <= reads.len()).count();
        // what is shown is some of the optional ones, then all the others, in order
        let mut j = all.len().min(opt);
        let tail = all.len() - j;
        if shown.len() >= tail {
            j = j.saturating_sub(shown.len() - tail);
        }
        if shown.len() > all.len() {
            return viol("shown-twice", format!("{} solutions shown, {} received", shown.len(), all.len()));
        }
        let first = j;
        for s in &shown {
            let Some((at, p)) = all.get(j) else { return viol("shown", format!("{:?} was not received", s)) };
            ensure!(fits(s, p), "shown", "{:?} should show {}", s, enc(p));
            ensure!(s.vel.is_some() || !ended, "shown", "no speed shown for {}", enc(p));
            ensure!(s.reads > 0 && reads[s.reads - 1] >= *at, "shown-early", "{:?} is shown before it was received", s);
            j += 1;
        }
        let expect = due.max(opt);
        ensure!(
            last.is_none() || j >= expect,
            "not-shown",
            "{} solutions are shown, {} were received after the last request",
            j - first,
            expect - opt
        );
        x.count("probe.solutions_shown", shown.len() as u64);
        x.count("probe.commands", cmds.len() as u64);
        if c.burst > 0 {
            x.count("fault.never_pausing_stream", 1);
        }
        if nakd {
            x.count("fault.rejected", 1);
        }
        if cmds.len() >= 2 && !shown.is_empty() {
            x.nontrivial = true;
        }
        Ok(())
    }
}

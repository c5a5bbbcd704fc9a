//! C15, C16, C17, C20 (encoding side), C23: commands on their way from the application to the wire.
use crate::cmd::*;
use crate::engine::{lib, Ctx, Sim, Tier, R};
use crate::hex::{enc, Hex};
use crate::link::Item;
use crate::nav::{civil, days, month_len};
use crate::refparse::{frame, next_cand, unframe, Cand};
use crate::rng::Rng;
use crate::{bail, ensure};
use serde::{Deserialize, Serialize};
use ublox::{FixedLinearBuffer, MemWriter, MemWriterError, Parser};

// ---------------------------------------------------------------- C15
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Fail {
    NoMem,
    Code(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Step {
    Write { cmd: Cmd },
    /// the transmitter takes n bytes out of the sink
    Drain { n: u16 },
    /// the application throws the damaged frame away
    Recover,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SinkCase {
    /// bytes the sink can hold; unlimited if absent
    pub cap: Option<u32>,
    /// whether reserving is where a full sink is noticed (otherwise only writing fails)
    pub strict_reserve: bool,
    /// sink calls (counted over the whole run) that fail
    pub fails: Vec<(u32, Fail)>,
    pub steps: Vec<Step>,
}
#[derive(Clone, Debug, PartialEq)]
enum Call {
    Reserve(usize, Option<Fail>),
    Write(Vec<u8>, Option<Fail>),
}
struct Sink<'a> {
    case: &'a SinkCase,
    calls: u32,
    held: Vec<u8>,
    log: Vec<Call>,
}
impl Sink<'_> {
    fn fails(&mut self) -> Option<Fail> {
        let k = self.calls;
        self.calls += 1;
        self.case.fails.iter().find(|f| f.0 == k).map(|f| f.1)
    }
    fn room(&self) -> usize {
        self.case.cap.map(|c| (c as usize).saturating_sub(self.held.len())).unwrap_or(usize::MAX)
    }
}
fn err(f: Fail) -> MemWriterError<u32> {
    match f {
        Fail::NoMem => MemWriterError::NotEnoughMem,
        Fail::Code(c) => MemWriterError::Custom(c),
    }
}
impl MemWriter for Sink<'_> {
    type Error = u32;
    fn reserve_allocate(&mut self, len: usize) -> Result<(), MemWriterError<u32>> {
        let mut f = self.fails();
        if f.is_none() && self.case.strict_reserve && len > self.room() {
            f = Some(Fail::NoMem);
        }
        self.log.push(Call::Reserve(len, f));
        f.map_or(Ok(()), |f| Err(err(f)))
    }
    fn write(&mut self, buf: &[u8]) -> Result<(), MemWriterError<u32>> {
        let mut f = self.fails();
        if f.is_none() && buf.len() > self.room() {
            f = Some(Fail::NoMem);
        }
        self.log.push(Call::Write(buf.to_vec(), f));
        match f {
            Some(f) => Err(err(f)),
            None => {
                self.held.extend_from_slice(buf);
                Ok(())
            },
        }
    }
}

pub struct C15;
impl Sim for C15 {
    type Case = SinkCase;
    const ID: &'static str = "C15";
    const RULE: &'static str = "A run is a history of commands written into one sink that a transmitter drains, the sink failing calls chosen by the seed (either error kind, at any call, once or persistently) or running full; non-trivial if a sink call failed while a command was written.";
    const REAL: &'static [&'static str] = &["UbxPacketCreator::create_packet of every command", "every command builder"];
    const STUB: &'static [&'static str] = &["sink (MemWriter) with injected failures", "transmitter"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 1_500_000 } else { 20_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> SinkCase {
        let n = r.range(1, 6);
        let mut steps = vec![];
        for _ in 0..n {
            steps.push(Step::Write { cmd: gen_writable(r) });
            match r.below(4) {
                0 => steps.push(Step::Drain { n: r.skewed(120) as u16 }),
                1 => steps.push(Step::Recover),
                _ => {},
            }
        }
        let mut fails = vec![];
        let kind = |r: &mut Rng| if r.chance(1, 3) { Fail::NoMem } else { Fail::Code(r.u64() as u32) };
        match r.below(4) {
            0 => {},
            1 => {
                let k = r.below(20 * n) as u32;
                fails.push((k, kind(r)));
            },
            2 => {
                // from some call on everything fails
                let k = r.below(12 * n) as u32;
                let f = kind(r);
                for i in 0..40 {
                    fails.push((k + i, f));
                }
            },
            _ => {
                for _ in 0..r.range(1, 6) {
                    let k = r.below(20 * n) as u32;
                    if !fails.iter().any(|f: &(u32, Fail)| f.0 == k) {
                        fails.push((k, kind(r)));
                    }
                }
            },
        }
        let cap = if r.chance(1, 3) { Some(r.below(160) as u32) } else { None };
        SinkCase { cap, strict_reserve: r.chance(1, 2), fails, steps }
    }
    fn run(c: &SinkCase, x: &mut Ctx) -> R {
        let mut s = Sink { case: c, calls: 0, held: vec![], log: vec![] };
        let mut clean: usize = 0; // end of the last complete frame in the sink
        for st in &c.steps {
            match st {
                Step::Drain { n } => {
                    let n = (*n as usize).min(s.held.len());
                    s.held.drain(..n);
                    clean = clean.saturating_sub(n);
                    x.count("op.drain", 1);
                },
                Step::Recover => s.held.truncate(clean),
                Step::Write { cmd } => {
                    if !cmd.ok() {
                        continue;
                    }
                    let whole = match cmd.forms().into_iter().next() {
                        Some((_, f)) => f,
                        None => continue,
                    };
                    cmd.check_frame(&whole)?;
                    let from = s.log.len();
                    let before = s.held.clone();
                    let Some(got) = cmd.write_to(&mut s) else { continue };
                    let log = &s.log[from..];
                    let failed = log.iter().position(|c| matches!(c, Call::Reserve(_, Some(_)) | Call::Write(_, Some(_))));
                    let mut asked = 0usize;
                    let mut wrote: Vec<u8> = vec![];
                    let mut first = true;
                    for k in log.iter().take(failed.unwrap_or(log.len())) {
                        match k {
                            Call::Reserve(n, _) if wrote.is_empty() => asked = asked.saturating_add(*n),
                            Call::Write(b, _) => {
                                if !b.is_empty() {
                                    if first {
                                        ensure!(
                                            asked >= whole.len(),
                                            "not-reserved",
                                            "{} starts writing after asking for {} of its {} bytes",
                                            cmd.name(),
                                            asked,
                                            whole.len()
                                        );
                                    }
                                    first = false;
                                }
                                wrote.extend(b);
                            },
                            _ => {},
                        }
                    }
                    ensure!(
                        s.held[..before.len()] == before[..] && s.held[before.len()..] == wrote[..],
                        "harness",
                        "the sink lost track"
                    );
                    match failed {
                        Some(at) => {
                            x.nontrivial = true;
                            let f = match &log[at] {
                                Call::Reserve(_, Some(f)) => {
                                    x.count("fault.reserve_fails", 1);
                                    *f
                                },
                                Call::Write(_, Some(f)) => {
                                    x.count("fault.write_fails", 1);
                                    *f
                                },
                                _ => Fail::NoMem,
                            };
                            match (&got, f) {
                                (Err(MemWriterError::NotEnoughMem), Fail::NoMem) => {},
                                (Err(e @ MemWriterError::Custom(a)), Fail::Code(b)) if *a == b => {
                                    let text = lib(|| e.to_string());
                                    ensure!(text.contains(&b.to_string()), "wrong-result", "the sink's error {} is shown as {:?}", b, text);
                                },
                                _ => bail!(
                                    "wrong-result",
                                    "{}: sink call {} failed with {:?}, the caller was told {:?}",
                                    cmd.name(),
                                    at,
                                    f,
                                    got
                                ),
                            }
                            for k in &log[at + 1..] {
                                if let Call::Write(b, _) = k {
                                    bail!("write-after-failure", "{}: {} bytes written after sink call {} had failed", cmd.name(), b.len(), at);
                                }
                            }
                            ensure!(
                                whole.starts_with(&wrote),
                                "not-a-prefix",
                                "{}: the sink holds {} before the failure, the frame is {}",
                                cmd.name(),
                                enc(&wrote),
                                enc(&whole)
                            );
                        },
                        None => {
                            ensure!(got.is_ok(), "wrong-result", "{}: no sink call failed, the caller was told {:?}", cmd.name(), got);
                            ensure!(
                                wrote == whole,
                                "wrong-bytes",
                                "{}: the sink received {} instead of {}",
                                cmd.name(),
                                enc(&wrote),
                                enc(&whole)
                            );
                            clean = s.held.len();
                            x.count("op.complete_write", 1);
                        },
                    }
                    x.num(log.len() as u64);
                    x.feed(&wrote);
                },
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C16
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Into {
    /// through `create_packet` into the queue
    Writer,
    /// through the fixed array or vector, appended by the application
    Bytes,
    /// through `extend_to`
    Extend,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Q {
    Push { cmd: Cmd, how: Into },
    /// the transmitter takes n bytes from the front
    Send { n: u16 },
    /// bytes of another protocol are queued
    Other { b: Hex },
    /// a long stretch of idle characters is queued
    Bulk { n: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QueueCase {
    pub own_container: bool,
    pub ops: Vec<Q>,
    /// how the receiver's reads cut the line
    pub cuts: Vec<u16>,
    /// the receiving parser's buffer
    pub fixed: Option<u32>,
}
/// A container of the application's own.
#[derive(Default)]
struct Own {
    data: Vec<u8>,
}
impl Extend<u8> for Own {
    fn extend<I: IntoIterator<Item = u8>>(&mut self, it: I) {
        for b in it {
            self.data.push(b);
        }
    }
}
impl std::ops::Deref for Own {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.data
    }
}
impl std::ops::DerefMut for Own {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.data
    }
}
pub struct C16;
impl Sim for C16 {
    type Case = QueueCase;
    const ID: &'static str = "C16";
    const RULE: &'static str = "A run queues up to 14 commands (every kind, every way of appending, mixed with bytes of other protocols) in one outgoing buffer that a transmitter empties at moments chosen by the seed, over a line cut into arbitrary reads to a receiver; non-trivial if a command was appended to a buffer that was not empty.";
    const REAL: &'static [&'static str] = &["every command builder", "create_packet into Vec<u8>", "CfgValSetBuilder::extend_to", "ublox::Parser as the receiver"];
    const STUB: &'static [&'static str] = &["transmitter", "line", "reference receiver", "application-defined container"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 400_000 } else { 6_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> QueueCase {
        let n = r.range(2, 14);
        let mut ops = vec![];
        for _ in 0..n {
            let cmd = gen_cmd(r);
            let how = *r.pick(&[Into::Writer, Into::Bytes, Into::Extend, Into::Extend]);
            ops.push(Q::Push { cmd, how });
            match r.below(5) {
                0 => ops.push(Q::Send { n: r.skewed(900) as u16 }),
                1 => ops.push(Q::Send { n: r.below(12) as u16 }),
                2 => ops.push(Q::Other { b: Hex(crate::frames::noise(r, true)) }),
                _ => {},
            }
        }
        if r.chance(1, 1500) {
            let at = r.below(ops.len());
            ops.insert(at, Q::Bulk { n: r.range(64_000, 67_000) as u32 });
        }
        let cuts = match r.below(3) {
            0 => vec![1],
            1 => vec![],
            _ => (0..r.range(1, 12)).map(|_| r.range(1, 200) as u16).collect(),
        };
        let fixed = if r.chance(1, 3) { Some(r.range(800, 2000) as u32) } else { None };
        QueueCase { own_container: r.chance(1, 3), ops, cuts, fixed }
    }
    fn run(c: &QueueCase, x: &mut Ctx) -> R {
        let mut v: Vec<u8> = vec![];
        let mut own = Own::default();
        let mut line: Vec<u8> = vec![];
        let mut sent: Vec<Vec<u8>> = vec![];
        for op in &c.ops {
            match op {
                Q::Send { n } => {
                    let q = if c.own_container { &mut own.data } else { &mut v };
                    let n = (*n as usize).min(q.len());
                    line.extend(q.drain(..n));
                    x.count("op.transmit", 1);
                },
                Q::Other { b } => {
                    let q = if c.own_container { &mut own.data } else { &mut v };
                    if !b.0.contains(&0xB5) {
                        q.extend(&b.0);
                    }
                },
                Q::Bulk { n } => {
                    let q = if c.own_container { &mut own.data } else { &mut v };
                    q.resize(q.len() + (*n as usize).min(1 << 20), 0xFF);
                    x.count("op.long_queue", 1);
                },
                Q::Push { cmd, how } => {
                    if !cmd.ok() {
                        continue;
                    }
                    let before = if c.own_container { own.data.clone() } else { v.clone() };
                    let done = match (how, c.own_container) {
                        (Into::Extend, true) => cmd.extend_to(&mut own),
                        (Into::Extend, false) => cmd.extend_to(&mut v),
                        (Into::Writer, false) => match cmd.write_to(&mut v) {
                            None => false,
                            Some(Ok(())) => true,
                            Some(Err(e)) => bail!("append-failed", "{} could not be appended to a vector: {}", cmd.name(), e),
                        },
                        _ => false,
                    };
                    if !done {
                        if let Some((_, f)) = cmd.forms().pop() {
                            if c.own_container {
                                own.data.extend(f);
                            } else {
                                v.extend(f);
                            }
                        }
                    } else {
                        x.count("op.appended_by_library", 1);
                        if !before.is_empty() {
                            x.nontrivial = true;
                            x.count("probe.appended_to_nonempty", 1);
                        }
                    }
                    let now = if c.own_container { &own.data } else { &v };
                    ensure!(
                        now.len() >= before.len() && now[..before.len()] == before[..],
                        "queued-bytes-changed",
                        "appending {} changed the queue from {} to {}",
                        cmd.name(),
                        enc(&before),
                        enc(&now[..now.len().min(before.len() + 16)])
                    );
                    cmd.check_frame(&now[before.len()..])?;
                    sent.push(now[before.len()..].to_vec());
                },
            }
        }
        line.extend(if c.own_container { &own.data } else { &v });
        x.feed(&line);
        receive_all(&line, &c.cuts, c.fixed, &sent, x)
    }
}

/// The reference receiver and the real parser must both get exactly these frames, in order.
pub fn receive_all(line: &[u8], cuts: &[u16], fixed: Option<u32>, sent: &[Vec<u8>], x: &mut Ctx) -> R {
    x.sim_us += 87 * line.len() as u64;
    let mut got: Vec<Vec<u8>> = vec![];
    let mut at = 0;
    loop {
        match next_cand(line, at) {
            Cand::Good { at: a, len } => {
                got.push(line[a..a + len].to_vec());
                at = a + len;
            },
            Cand::Bad { at: a, .. } => at = a + 2,
            Cand::Pending { .. } => break,
        }
    }
    same(&got, sent, "the reference receiver")?;
    fn feed<T: ublox::UnderlyingBuffer>(mut p: Parser<T>, line: &[u8], cuts: &[u16], x: &mut Ctx) -> Vec<Vec<u8>> {
        let mut got = vec![];
        let mut at = 0;
        let mut k = 0;
        while at < line.len() {
            let n = if cuts.is_empty() { 4096 } else { cuts[k % cuts.len()].max(1) as usize };
            k += 1;
            let end = (at + n).min(line.len());
            let mut it = lib(|| p.consume(&line[at..end]));
            while let Some(r) = lib(|| it.next()) {
                match crate::link::to_item(&r) {
                    Item::Pkt { c, i, p, .. } => got.push(frame(c, i, &p)),
                    other => got.push(other.short().into_bytes()),
                }
            }
            at = end;
        }
        x.count("op.receiver_read", k as u64);
        got
    }
    let got = match fixed {
        None => feed(Parser::<Vec<u8>>::default(), line, cuts, x),
        Some(n) => {
            let mut mem = vec![0u8; n.max(1024) as usize];
            feed(Parser::new(FixedLinearBuffer::new(&mut mem)), line, cuts, x)
        },
    };
    same(&got, sent, "the parser")
}
fn same(got: &[Vec<u8>], sent: &[Vec<u8>], who: &str) -> R {
    for k in 0..got.len().max(sent.len()) {
        let (g, s) = (got.get(k), sent.get(k));
        ensure!(
            g == s,
            "not-received",
            "command {} of {} was sent as {}, {} got {}",
            k,
            sent.len(),
            s.map(|b| enc(b)).unwrap_or_else(|| "nothing".into()),
            who,
            g.map(|b| enc(b)).unwrap_or_else(|| "nothing".into())
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- C17
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SendCase {
    pub cmds: Vec<Cmd>,
    /// what precedes each command on the line
    pub noise: Vec<Hex>,
    pub cuts: Vec<u16>,
    pub fixed: Option<u32>,
}
pub struct C17;
impl Sim for C17 {
    type Case = SendCase;
    const ID: &'static str = "C17";
    const RULE: &'static str = "A run builds up to 8 commands or requests from values chosen by the seed (bounds, beyond the bounds, halves of a wire unit, huge, negative zero), in every form the library offers for each, and sends them over a line with other traffic, cut into arbitrary reads, to a reference receiver and to the real parser; non-trivial if a command with fields was sent. Oracle: the frozen description of every message's layout, scaling and enumerations.";
    const REAL: &'static [&'static str] = &["every command builder (fixed frame, conversion, writer, vector, extension)", "UbxPacketRequest", "CfgMsgSinglePortBuilder/CfgMsgAllPortsBuilder::set_rate_for", "ublox::Parser as the receiver"];
    const STUB: &'static [&'static str] = &["line", "reference receiver"];
    const ASSUME: &'static [&'static str] = &[
        "not-a-number is not a setting",
        "the numeric codes of enumerations and flag bits are those documented in the library; CfgTmode3RcvrMode and the time-grid and synchronisation bits of CfgTp5Flags are taken as documented there although the receiver manuals describe them as numeric fields",
    ];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 500_000 } else { 8_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> SendCase {
        let n = r.range(1, 8);
        let cmds = (0..n).map(|_| gen_cmd(r)).collect();
        let noise = (0..n).map(|_| Hex(if r.chance(1, 3) { crate::frames::noise(r, true) } else { vec![] })).collect();
        let cuts = match r.below(3) {
            0 => vec![1],
            1 => vec![],
            _ => (0..r.range(1, 12)).map(|_| r.range(1, 200) as u16).collect(),
        };
        SendCase { cmds, noise, cuts, fixed: if r.chance(1, 3) { Some(r.range(800, 2000) as u32) } else { None } }
    }
    fn run(c: &SendCase, x: &mut Ctx) -> R {
        let mut line = vec![];
        let mut sent: Vec<Vec<u8>> = vec![];
        for (k, cmd) in c.cmds.iter().enumerate() {
            if !cmd.ok() {
                continue;
            }
            let mut forms = cmd.forms();
            let mut v = vec![];
            match cmd.write_to(&mut v) {
                Some(Ok(())) => forms.push(("create_packet", v)),
                Some(Err(e)) => bail!("write-failed", "{}: writing to a vector failed: {}", cmd.name(), e),
                None => {},
            }
            let mut e: Vec<u8> = vec![];
            if cmd.extend_to(&mut e) {
                forms.push(("extend_to", e));
            }
            for (how, f) in &forms {
                if let Err(mut v) = cmd.check_frame(f) {
                    v.detail = format!("{}: {}", how, v.detail);
                    return Err(v);
                }
                ensure!(
                    *f == forms[0].1,
                    "forms-differ",
                    "{}: {} gives {}, {} gives {}",
                    cmd.name(),
                    forms[0].0,
                    enc(&forms[0].1),
                    how,
                    enc(f)
                );
                x.count("op.form", 1);
            }
            if let Cmd::Dflt { .. } = cmd {
                x.count("op.default_builder", 1);
            }
            if let Cmd::Msg { v, .. } | Cmd::Dflt { v, .. } = cmd {
                x.nontrivial |= !v.is_empty();
            }
            if let Some((_, f)) = forms.into_iter().next() {
                if let Some(n) = c.noise.get(k) {
                    if !n.0.contains(&0xB5) {
                        line.extend(&n.0);
                    }
                }
                line.extend(&f);
                sent.push(f);
            }
        }
        x.feed(&line);
        receive_all(&line, &c.cuts, c.fixed, &sent, x)
    }
}

// ---------------------------------------------------------------- C23
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Clock {
    /// time passes
    Tick { ns: u64 },
    /// the clock is stepped
    Jump { secs: i64 },
    /// assistance data is prepared and sent
    Prepare {
        time: bool,
        /// 1e-9 degrees, 1e-9 degrees, 1e-5 metres
        pos: Option<(i64, i64, i64)>,
        /// position first
        pos_first: bool,
        /// flags the application has set itself
        flags: u32,
    },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AidCase {
    /// seconds since 1970 and nanoseconds of the host's clock at the start
    pub start: (i64, u32),
    pub steps: Vec<Clock>,
}
pub struct C23;
const T0: i64 = 946_684_800; // 2000-01-01
impl Sim for C23 {
    type Case = AidCase;
    const ID: &'static str = "C23";
    const RULE: &'static str = "A run is a history of a simulated host clock (ticking, stepped forwards and backwards, across second, day, month, leap-day, year and century boundaries in 2000-2099) at whose moments assistance data with time, position or both is prepared and sent to a receiver that decodes it per the protocol (yymm, ddhhmmss, nanoseconds, 1e-7 degrees, centimetres, flags); non-trivial if time or position was decoded.";
    const REAL: &'static [&'static str] = &["AidIniBuilder::set_time", "AidIniBuilder::set_position", "AidIniBuilder into a frame"];
    const STUB: &'static [&'static str] = &["host clock", "receiver that decodes AID-INI"];
    const ASSUME: &'static [&'static str] = &["latitude within 90 degrees, longitude within 180 degrees, altitude within 100 km", "no leap second (23:59:60)"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 1_500_000 } else { 20_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> AidCase {
        let y = *r.pick(&[2000i64, 2001, 2009, 2010, 2024, 2099]);
        let y = if r.chance(1, 2) { y } else { r.range(2000, 2099) as i64 };
        let mo = r.range(1, 12) as u32;
        let d = match r.below(4) {
            0 => 1,
            1 => month_len(y, mo),
            _ => r.range(1, month_len(y, mo) as usize) as u32,
        };
        let tod = match r.below(4) {
            0 => 0,
            1 => 86399,
            2 => *r.pick(&[3599, 3600, 59, 60, 43199, 43200, 35999, 36000]),
            _ => r.below(86400) as i64,
        };
        let ns = match r.below(3) {
            0 => *r.pick(&[0, 1, 999_999_999, 999_999_998, 500_000_000]),
            _ => r.below(1_000_000_000) as u32,
        };
        let mut steps = vec![];
        for _ in 0..r.range(1, 8) {
            match r.below(4) {
                0 => steps.push(Clock::Tick { ns: *r.pick(&[1, 999_999_999, 1_000_000_000, 3_600_000_000_000, 86_400_000_000_000]) }),
                1 => {
                    let secs = r.skewed(3_000_000_000) as i64;
                    steps.push(Clock::Jump { secs: if r.chance(1, 2) { secs } else { -secs } });
                },
                _ => {},
            }
            let e = |r: &mut Rng, max: i64| match r.below(5) {
                0 => *r.pick(&[0, 1, -1, 99, 100, -99, -100, 50, 51]),
                1 => max - r.below(3) as i64,
                2 => -max + r.below(3) as i64,
                _ => (r.u64() % (2 * max as u64)) as i64 - max,
            };
            let pos = if r.chance(2, 3) {
                let (a, b, c) = (e(r, 90_000_000_000), e(r, 180_000_000_000), e(r, 10_000_000_000));
                Some((a, b, c))
            } else {
                None
            };
            steps.push(Clock::Prepare {
                time: pos.is_none() || r.chance(2, 3),
                pos,
                pos_first: r.chance(1, 2),
                flags: if r.chance(1, 4) { *r.pick(&[0x04u32, 0x08, 0x10, 0x40, 0x80]) } else { 0 },
            });
        }
        AidCase { start: (days(y, mo, d) * 86400 + tod, ns), steps }
    }
    fn run(c: &AidCase, x: &mut Ctx) -> R {
        use chrono::{DateTime, Utc};
        let (mut s, mut ns) = (c.start.0, i64::from(c.start.1.min(999_999_999)));
        let end = days(2100, 1, 1) * 86400 - 1;
        let mut prev = None;
        for st in &c.steps {
            match st {
                Clock::Tick { ns: d } => {
                    let d = (*d).min(1 << 60) as i64;
                    ns += d % 1_000_000_000;
                    s = s.saturating_add(d / 1_000_000_000);
                    s += ns / 1_000_000_000;
                    ns %= 1_000_000_000;
                    x.sim_us += (d / 1000) as u64;
                },
                Clock::Jump { secs } => {
                    s = s.saturating_add(*secs);
                    x.count("fault.clock_jump", 1);
                },
                Clock::Prepare { time, pos, pos_first, flags } => {
                    s = s.clamp(T0, end);
                    let (y, mo, d, h, mi, se) = civil(s);
                    if let Some(p) = prev {
                        if p != (y, mo) {
                            x.count("probe.month_changed", 1);
                        }
                    }
                    prev = Some((y, mo));
                    let Some(tm) = DateTime::<Utc>::from_timestamp(s, ns as u32) else { bail!("harness", "time {}.{}", s, ns) };
                    let p = pos.map(|p| ublox::Position { lat: p.0 as f64 * 1e-9, lon: p.1 as f64 * 1e-9, alt: p.2 as f64 * 1e-5 });
                    if let Some(p) = &p {
                        if p.lat.abs() > 90.0 || p.lon.abs() > 180.0 || p.alt.abs() > 100_000.0 {
                            continue;
                        }
                    }
                    let f = lib(|| {
                        let mut b = ublox::AidIniBuilder { flags: *flags, ..Default::default() };
                        if *pos_first {
                            if let Some(p) = p {
                                b = b.set_position(p);
                            }
                        }
                        if *time {
                            b = b.set_time(tm);
                        }
                        if !*pos_first {
                            if let Some(p) = p {
                                b = b.set_position(p);
                            }
                        }
                        b.into_packet_bytes()
                    });
                    x.feed(&f);
                    let Some((0x0B, 0x01, b)) = unframe(&f) else { bail!("malformed", "the frame is {}", enc(&f)) };
                    ensure!(b.len() == 48, "malformed", "{} payload bytes", b.len());
                    let u = |o: usize, n: usize| -> i64 { (0..n).fold(0, |a, k| a | i64::from(b[o + k]) << (8 * k)) };
                    let i32at = |o: usize| u(o, 4) as u32 as i32;
                    let want = flags | if *time { 1 << 1 | 1 << 10 } else { 0 } | if pos.is_some() { 1 | 1 << 5 } else { 0 };
                    ensure!(u(44, 4) as u32 == want, "wrong-flags", "flags {:#x} instead of {:#x} (time {}, position {})", u(44, 4), want, time, pos.is_some());
                    if *time {
                        let (ym, hms) = (u(18, 2), u(20, 4));
                        let got = (2000 + ym / 100, ym % 100, hms / 1_000_000, hms / 10_000 % 100, hms / 100 % 100, hms % 100, i64::from(i32at(24)));
                        let want = (y, i64::from(mo), i64::from(d), i64::from(h), i64::from(mi), i64::from(se), ns);
                        ensure!(got == want, "wrong-time", "the clock is at {:?} (y, m, d, h, m, s, ns), the receiver decodes {:?}", want, got);
                        x.count("op.time_decoded", 1);
                    } else {
                        ensure!(u(18, 2) == 0 && u(20, 4) == 0 && i32at(24) == 0, "unasked", "no time was supplied but the time fields are set");
                    }
                    match pos {
                        Some((la, lo, al)) => {
                            for (name, o, v, unit) in [("latitude", 0, *la, 100i64), ("longitude", 4, *lo, 100), ("altitude", 8, *al, 1000)] {
                                let got = i64::from(i32at(o)) * unit;
                                ensure!(
                                    (got - v).abs() <= unit + 1,
                                    "wrong-position",
                                    "{} {} is {} on the wire (wire unit {})",
                                    name,
                                    v,
                                    got,
                                    unit
                                );
                            }
                            x.count("op.position_decoded", 1);
                        },
                        None => ensure!(b[..12].iter().all(|v| *v == 0), "unasked", "no position was supplied but the position fields are set"),
                    }
                    for (o, n) in [(12, 4), (16, 2), (28, 4), (32, 4), (36, 4), (40, 4)] {
                        ensure!(u(o, n) == 0, "unasked", "payload bytes at {} are {} without having been set", o, u(o, n));
                    }
                    x.nontrivial = true;
                },
            }
        }
        Ok(())
    }
}

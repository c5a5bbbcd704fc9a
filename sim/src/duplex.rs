//! Two-way session: a host application on top of the real library, a device, two lossy lines and a
//! virtual clock. A binary heap of events decides what happens next; the plan decides every fault.
use crate::engine::{lib, Ctx, R};
use crate::hex::Hex;
use crate::refparse::{frame, next_cand, Cand, MAX_FRAME};
use crate::rng::Rng;
use crate::{bail, ensure};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet, VecDeque};
use ublox::{FixedLinearBuffer, PacketRef, Parser, ParserError, UnderlyingBuffer};

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum FK {
    Lose,
    Flip { at: u16, bit: u8 },
    /// n bytes missing from `at`
    Cut { at: u16, n: u16 },
    Ins { at: u16, b: Hex },
    /// the same bytes once more, at once
    Twice,
    /// the same bytes once more, later
    Again { ms: u16 },
    /// held back: later transmissions overtake it
    Late { ms: u16 },
    /// the line stalls
    Stall { ms: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FrameFault {
    /// which transmission on this line
    pub nth: u16,
    pub kind: FK,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ResetAt {
    pub ms: u32,
    pub boot_ms: u16,
    pub noise: Hex,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NetPlan {
    pub baud: u32,
    /// bytes arrive in portions of these lengths
    pub seg: Vec<u8>,
    pub up: Vec<FrameFault>,
    pub down: Vec<FrameFault>,
    pub resets: Vec<ResetAt>,
    /// host read loop: wait, then read at most so many bytes
    pub reads: Vec<(u32, u16)>,
    pub proc_us: u32,
    /// the device talks on its own every so often
    pub talk_ms: u16,
    pub talk: Vec<Hex>,
    pub timeout_ms: u16,
    /// the host parser's buffer
    pub fixed: Option<u32>,
    /// the host program restarts
    pub host_restarts: Vec<u32>,
    /// messages the device sends at some time without having been asked
    pub foreign: Vec<(u32, Hex)>,
}

pub fn gen_net(r: &mut Rng, faults: bool) -> NetPlan {
    let baud = *r.pick(&[4800u32, 9600, 38400, 115200, 921600]);
    let nf = if faults { r.skewed(14) } else { 0 };
    let mut up = vec![];
    let mut down = vec![];
    for _ in 0..nf {
        let kind = match r.below(10) {
            0 | 1 => FK::Lose,
            2 | 3 => FK::Flip { at: r.skewed(100) as u16, bit: r.below(8) as u8 },
            4 => FK::Cut { at: r.skewed(40) as u16, n: r.range(1, 12) as u16 },
            5 => {
                let b = match r.below(4) {
                    0 => vec![0xB5],
                    1 => vec![0xB5, 0x62],
                    2 => vec![0xB5, 0x62, r.u8(), r.u8(), r.u8(), *r.pick(&[0u8, 0, 1, 4, 31])],
                    _ => {
                        let n = r.range(1, 20);
                        r.bytes(n)
                    },
                };
                FK::Ins { at: r.skewed(40) as u16, b: Hex(b) }
            },
            6 => FK::Twice,
            7 => FK::Again { ms: r.skewed(3000) as u16 },
            8 => FK::Late { ms: r.skewed(3000) as u16 },
            _ => FK::Stall { ms: r.skewed(2000) as u16 },
        };
        let f = FrameFault { nth: r.skewed(30) as u16, kind };
        if r.chance(1, 2) {
            up.push(f);
        } else {
            down.push(f);
        }
    }
    let resets = (0..if faults && r.chance(1, 4) { r.range(1, 3) } else { 0 })
        .map(|_| ResetAt {
            ms: r.skewed(5000) as u32,
            boot_ms: r.skewed(2000) as u16,
            noise: Hex(crate::frames::noise(r, false)),
        })
        .collect();
    let host_restarts = (0..if faults && r.chance(1, 8) { 1 } else { 0 }).map(|_| r.skewed(5000) as u32).collect();
    let talk = (0..r.range(1, 4))
        .map(|_| {
            Hex(match r.below(4) {
                0 => crate::frames::noise(r, true),
                1 => {
                    let n = r.range(60, 250);
                    let p: Vec<u8> = r.bytes(n).into_iter().map(|b| if b == 0xB5 { 0 } else { b }).collect();
                    frame(0x01, 0xF0, &p)
                },
                _ => {
                    let p: Vec<u8> = r.bytes(28).into_iter().map(|b| if b == 0xB5 { 0 } else { b }).collect();
                    frame(0x01, 0x02, &p)
                },
            })
        })
        .filter(|h| h.0.iter().filter(|b| **b == 0xB5).count() <= 1)
        .collect();
    NetPlan {
        baud,
        seg: match r.below(3) {
            0 => vec![1],
            1 => vec![],
            _ => (0..r.range(1, 6)).map(|_| r.range(1, 64) as u8).collect(),
        },
        up,
        down,
        resets,
        reads: (0..r.range(1, 5)).map(|_| (*r.pick(&[100u32, 1000, 5000, 20_000, 100_000]), *r.pick(&[1u16, 7, 64, 512, 4096]))).collect(),
        proc_us: *r.pick(&[0u32, 500, 10_000, 150_000]),
        talk_ms: if r.chance(1, 6) { 0 } else { *r.pick(&[20u16, 100, 250, 1000]) },
        talk,
        timeout_ms: *r.pick(&[200u16, 500, 1000, 2000]),
        fixed: if r.chance(1, 3) { Some(r.range(400, 1500) as u32) } else { None },
        host_restarts,
        foreign: vec![],
    }
}

/// What runs on the host: commands one after the other, each repeated until resolved.
pub trait HostApp {
    /// The bytes of the current command, or None when all are done.
    fn current(&mut self) -> Option<Vec<u8>>;
    /// A packet arrived.
    fn packet(&mut self, now: u64, p: &PacketRef<'_>, x: &mut Ctx) -> R;
    /// Number of commands resolved so far.
    fn resolved(&self) -> usize;
}
/// What runs in the receiver.
pub trait Device {
    fn frame(&mut self, c: u8, i: u8, p: &[u8], x: &mut Ctx) -> Result<Vec<Vec<u8>>, crate::engine::Viol>;
    fn reset(&mut self, _x: &mut Ctx) {}
}

enum Ev {
    ToDev(Vec<u8>),
    ToHost(Vec<u8>),
    /// a transmission starts (delayed or repeated)
    Start { up: bool, b: Vec<u8> },
    Reply { epoch: u32, b: Vec<u8> },
    HostRead,
    Timeout { serial: u64 },
    Talk { epoch: u32 },
    Reset(usize),
    Boot { epoch: u32, k: usize },
    HostRestart,
    Foreign(usize),
}
struct Leg {
    busy: u64,
    sent: u16,
    faults: BTreeMap<u16, Vec<FK>>,
    last: Option<u16>,
}
struct Net<'a> {
    plan: &'a NetPlan,
    now: u64,
    seq: u64,
    q: BTreeMap<(u64, u64), Ev>,
    up: Leg,
    down: Leg,
    late_until: u64,
    seg_at: usize,
}
impl Net<'_> {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.q.insert((t.max(self.now), self.seq), e);
    }
    fn byte_us(&self) -> u64 {
        10_000_000 / u64::from(self.plan.baud.max(300))
    }
    /// Puts bytes on a line; returns when they are through.
    fn put(&mut self, up: bool, b: Vec<u8>) -> u64 {
        let us = self.byte_us();
        let seg = self.plan.seg.clone();
        let leg = if up { &mut self.up } else { &mut self.down };
        let mut t = leg.busy.max(self.now);
        let mut evs = vec![];
        let mut rest = &b[..];
        while !rest.is_empty() {
            let n = if seg.is_empty() { rest.len() } else { usize::from(seg[self.seg_at % seg.len()].max(1)).min(rest.len()) };
            self.seg_at += 1;
            t += us * n as u64;
            evs.push((t, rest[..n].to_vec()));
            rest = &rest[n..];
        }
        leg.busy = t;
        for (t, b) in evs {
            self.at(t, if up { Ev::ToDev(b) } else { Ev::ToHost(b) });
        }
        t
    }
    /// Transmits, subject to the faults of this line.
    fn send(&mut self, up: bool, mut b: Vec<u8>, x: &mut Ctx) -> u64 {
        let leg = if up { &mut self.up } else { &mut self.down };
        let k = leg.sent;
        leg.sent = leg.sent.saturating_add(1);
        let fs = leg.faults.get(&k).cloned().unwrap_or_default();
        let mut twice = false;
        for f in fs {
            match f {
                FK::Lose => {
                    x.count("fault.lost_message", 1);
                    b.clear();
                },
                FK::Flip { at, bit } => {
                    if !b.is_empty() {
                        let at = at as usize % b.len();
                        b[at] ^= 1 << (bit & 7);
                        x.count("fault.bit_flip", 1);
                    }
                },
                FK::Cut { at, n } => {
                    if !b.is_empty() {
                        let at = at as usize % b.len();
                        let end = (at + n as usize).min(b.len());
                        b.drain(at..end);
                        x.count("fault.bytes_lost", 1);
                    }
                },
                FK::Ins { at, b: ins } => {
                    let at = at as usize % (b.len() + 1);
                    b.splice(at..at, ins.0.iter().copied());
                    x.count("fault.bytes_inserted", 1);
                },
                FK::Twice => {
                    twice = true;
                    x.count("fault.duplicated", 1);
                },
                FK::Again { ms } => {
                    let t = self.now + u64::from(ms) * 1000;
                    self.late_until = self.late_until.max(t + 10_000_000);
                    self.at(t, Ev::Start { up, b: b.clone() });
                    x.count("fault.repeated_later", 1);
                },
                FK::Late { ms } => {
                    let t = self.now + u64::from(ms) * 1000;
                    self.late_until = self.late_until.max(t + 10_000_000);
                    let held = std::mem::take(&mut b);
                    self.at(t, Ev::Start { up, b: held });
                    x.count("fault.delayed", 1);
                },
                FK::Stall { ms } => {
                    let now = self.now;
                    let leg = if up { &mut self.up } else { &mut self.down };
                    leg.busy = leg.busy.max(now) + u64::from(ms) * 1000;
                    x.count("fault.line_stall", 1);
                },
            }
        }
        let mut t = self.put(up, b.clone());
        if twice {
            t = self.put(up, b);
        }
        t
    }
    fn quiet(&self) -> bool {
        let over = |l: &Leg| l.last.map(|n| l.sent > n).unwrap_or(true);
        let last = self
            .plan
            .resets
            .iter()
            .map(|r| (u64::from(r.ms) + u64::from(r.boot_ms)) * 1000)
            .chain(self.plan.host_restarts.iter().map(|r| u64::from(*r) * 1000))
            .chain(self.plan.foreign.iter().map(|r| u64::from(r.0) * 1000))
            .max()
            .unwrap_or(0);
        over(&self.up) && over(&self.down) && self.now > last && self.now > self.late_until
    }
}

/// Everything the session observed, for checks over the whole history.
#[derive(Default)]
pub struct Log {
    /// well-formed frames put on the wire by each side
    pub host_sent: HashSet<Vec<u8>>,
    pub dev_sent: HashSet<Vec<u8>>,
    /// frames the device understood, in order
    pub dev_got: Vec<(u64, Vec<u8>)>,
    /// bytes each host incarnation received
    pub host_rx: Vec<Vec<u8>>,
    /// a frame nobody sent passed the checksum
    pub undetected: bool,
    pub attempts: u64,
    /// attempts after the first at the same command
    pub retries: u64,
}

enum HP {
    V(Parser<Vec<u8>>),
    F(Parser<FixedLinearBuffer<'static>>, *mut [u8]),
}
impl HP {
    fn new(fixed: Option<u32>) -> HP {
        match fixed {
            None => HP::V(Parser::default()),
            Some(n) => {
                let region = Box::into_raw(vec![0u8; n as usize].into_boxed_slice());
                // SAFETY: freed by Drop after the parser is gone
                let s: &'static mut [u8] = unsafe { &mut *region };
                HP::F(Parser::new(FixedLinearBuffer::new(s)), region)
            },
        }
    }
}
impl Drop for HP {
    fn drop(&mut self) {
        if let HP::F(p, region) = self {
            // the parser has no destructor that touches the region
            *p = Parser::new(FixedLinearBuffer::new(&mut []));
            unsafe { drop(Box::from_raw(*region)) }
        }
    }
}
fn pump<T: UnderlyingBuffer>(p: &mut Parser<T>, data: &[u8], now: u64, app: &mut dyn HostApp, x: &mut Ctx) -> R {
    let mut it = lib(|| p.consume(data));
    let mut n = 0usize;
    loop {
        let Some(r) = lib(|| it.next()) else { break };
        n += 1;
        ensure!(n <= 70_000, "endless", "one read of {} bytes gives no end of items", data.len());
        match r {
            Ok(pk) => app.packet(now, &pk, x)?,
            Err(ParserError::InvalidChecksum { .. }) => x.count("probe.host_checksum_error", 1),
            Err(ParserError::OutOfMemory { .. }) => x.count("probe.host_out_of_memory", 1),
            Err(_) => x.count("probe.host_undecodable", 1),
        }
    }
    Ok(())
}

pub fn plan_ok(p: &NetPlan) -> bool {
    p.baud >= 4800
        && p.timeout_ms >= 200
        && !p.reads.is_empty()
        && p.reads.iter().all(|r| r.0 >= 50 && r.1 >= 1)
        && p.reads.iter().map(|r| u64::from(r.1)).sum::<u64>() * 1_000_000 / p.reads.iter().map(|r| u64::from(r.0)).sum::<u64>() > 0
        && p.fixed.map(|n| (256..100_000).contains(&n)).unwrap_or(true)
        && p.talk.iter().all(|t| t.0.iter().filter(|b| **b == 0xB5).count() <= 1 && t.0.len() < 400)
        && (p.talk_ms == 0 || p.talk_ms >= 10)
}

/// Runs the session until the host application is done.
pub fn session(plan: &NetPlan, app: &mut dyn HostApp, dev: &mut dyn Device, x: &mut Ctx) -> Result<Log, crate::engine::Viol> {
    let leg = |f: &[FrameFault]| {
        let mut m: BTreeMap<u16, Vec<FK>> = BTreeMap::new();
        for f in f {
            m.entry(f.nth).or_default().push(f.kind.clone());
        }
        Leg { busy: 0, sent: 0, last: m.keys().max().copied(), faults: m }
    };
    let mut net =
        Net { plan, now: 0, seq: 0, q: BTreeMap::new(), up: leg(&plan.up), down: leg(&plan.down), late_until: 0, seg_at: 0 };
    let mut log = Log { host_rx: vec![vec![]], ..Default::default() };
    let mut hp = HP::new(plan.fixed);
    let mut fifo: VecDeque<u8> = VecDeque::new();
    let mut rx: Vec<u8> = vec![]; // the device's unread bytes
    let mut rx_last = 0u64;
    let mut epoch = 0u32;
    let mut alive = true;
    let mut serial = 0u64;
    let mut read_at = 0usize;
    let mut quiet_from: Option<(usize, u64, u64)> = None; // resolved, host bytes, attempts at that point
    let mut host_bytes = 0u64;
    let mut talk_at = 0usize;
    let mut last_sent = None;
    for (k, r) in plan.resets.iter().enumerate() {
        net.at(u64::from(r.ms) * 1000, Ev::Reset(k));
    }
    for r in &plan.host_restarts {
        net.at(u64::from(*r) * 1000, Ev::HostRestart);
    }
    for (k, f) in plan.foreign.iter().enumerate() {
        net.at(u64::from(f.0) * 1000, Ev::Foreign(k));
    }
    if plan.talk_ms > 0 {
        net.at(1000, Ev::Talk { epoch });
    }
    net.at(0, Ev::HostRead);
    net.at(0, Ev::Timeout { serial });
    let mut events = 0u64;
    let mut seen = app.resolved();
    while let Some(((t, _), ev)) = net.q.pop_first() {
        net.now = t;
        events += 1;
        ensure!(events < 3_000_000, "harness", "too many events");
        match ev {
            Ev::ToDev(b) => {
                if alive {
                    // a pause makes the device forget an unfinished message
                    if t.saturating_sub(net.byte_us() * b.len() as u64 + rx_last) > 90_000 {
                        rx.clear();
                    }
                    rx_last = t;
                    rx.extend(b);
                    let mut at = 0;
                    loop {
                        match next_cand(&rx, at) {
                            Cand::Good { at: a, len } => {
                                let f = rx[a..a + len].to_vec();
                                at = a + len;
                                if !log.host_sent.contains(&f) {
                                    log.undetected = true;
                                    x.count("probe.undetected_corruption", 1);
                                }
                                let replies = dev.frame(f[2], f[3], &f[6..len - 2], x)?;
                                log.dev_got.push((t, f));
                                for r in replies {
                                    net.at(t + u64::from(plan.proc_us), Ev::Reply { epoch, b: r });
                                }
                            },
                            Cand::Bad { at: a, .. } => {
                                x.count("probe.device_checksum_error", 1);
                                at = a + 2;
                            },
                            Cand::Pending { at: a, need } => {
                                at = if need > 1100 { a + 2 } else { a };
                                if need <= 1100 {
                                    break;
                                }
                            },
                        }
                    }
                    rx.drain(..at.min(rx.len()));
                }
            },
            Ev::ToHost(b) => fifo.extend(b),
            Ev::Start { up, b } => {
                net.put(up, b);
            },
            Ev::Reply { epoch: e, b } => {
                if e == epoch && alive {
                    log.dev_sent.insert(b.clone());
                    net.send(false, b, x);
                } else {
                    x.count("fault.reply_lost_in_reset", 1);
                }
            },
            Ev::Talk { epoch: e } => {
                if e == epoch && alive && !plan.talk.is_empty() {
                    let b = plan.talk[talk_at % plan.talk.len()].0.clone();
                    talk_at += 1;
                    // a device with a full output buffer drops messages
                    if net.down.busy < t + 300_000 {
                        log.dev_sent.insert(b.clone());
                        net.send(false, b, x);
                    }
                    net.at(t + u64::from(plan.talk_ms) * 1000, Ev::Talk { epoch });
                }
            },
            Ev::Foreign(k) => {
                let b = plan.foreign[k].1 .0.clone();
                log.dev_sent.insert(b.clone());
                net.send(false, b, x);
                x.count("op.foreign_message", 1);
            },
            Ev::Reset(k) => {
                epoch += 1;
                alive = false;
                rx.clear();
                dev.reset(x);
                x.count("fault.device_reset", 1);
                net.at(t + u64::from(plan.resets[k].boot_ms) * 1000, Ev::Boot { epoch, k });
            },
            Ev::Boot { epoch: e, k } => {
                if e == epoch {
                    alive = true;
                    net.send(false, plan.resets[k].noise.0.clone(), x);
                    if plan.talk_ms > 0 {
                        net.at(t + 1000, Ev::Talk { epoch });
                    }
                }
            },
            Ev::HostRestart => {
                hp = HP::new(plan.fixed);
                fifo.clear();
                log.host_rx.push(vec![]);
                x.count("fault.host_restart", 1);
            },
            Ev::HostRead => {
                let (_, max) = plan.reads[read_at % plan.reads.len()];
                read_at += 1;
                let n = fifo.len().min(max as usize);
                if n > 0 {
                    let b: Vec<u8> = fifo.drain(..n).collect();
                    host_bytes += n as u64;
                    if let Some(h) = log.host_rx.last_mut() {
                        h.extend(&b);
                    }
                    match &mut hp {
                        HP::V(p) => pump(p, &b, t, app, x)?,
                        HP::F(p, _) => pump(p, &b, t, app, x)?,
                    }
                    x.count("op.host_read", 1);
                }
                let (dt, _) = plan.reads[read_at % plan.reads.len()];
                // nothing to do before the next arrival
                let mut next = t + u64::from(dt);
                if fifo.is_empty() {
                    if let Some(((nt, _), _)) = net.q.first_key_value() {
                        if *nt > next {
                            next = nt + u64::from(dt);
                        }
                    }
                }
                net.at(next, Ev::HostRead);
                if app.resolved() != seen {
                    seen = app.resolved();
                    serial += 1;
                    net.at(t, Ev::Timeout { serial });
                }
            },
            Ev::Timeout { serial: s } => {
                if s == serial {
                    let Some(b) = app.current() else { break };
                    serial += 1;
                    log.attempts += 1;
                    if last_sent == Some(app.resolved()) {
                        log.retries += 1;
                    }
                    last_sent = Some(app.resolved());
                    log.host_sent.insert(b.clone());
                    let done = net.send(true, b, x);
                    // the host looks for the answer at its own pace
                    let cycle: u64 = plan.reads.iter().map(|r| u64::from(r.0)).sum();
                    net.at(done + u64::from(plan.timeout_ms) * 1000 + cycle + u64::from(plan.proc_us), Ev::Timeout { serial });
                    if net.quiet() {
                        match quiet_from {
                            Some((n, bytes, tries)) if n == app.resolved() => {
                                // enough has been received to get past any damaged length field, and enough tried
                                let late = host_bytes - bytes > 3 * MAX_FRAME as u64 && log.attempts - tries > 6 && net.down.busy < t + 400_000;
                                // or the answers have stopped being read at all
                                let stuck = log.attempts - tries > 4000;
                                if (late && fifo.len() < 64) || stuck {
                                    bail!(
                                        "no-progress",
                                        "faults stopped, then the same command was sent {} times and {} bytes received without it being resolved",
                                        log.attempts - tries,
                                        host_bytes - bytes
                                    );
                                }
                            },
                            _ => quiet_from = Some((app.resolved(), host_bytes, log.attempts)),
                        }
                    } else {
                        quiet_from = None;
                    }
                }
            },
        }
    }
    x.sim_us += net.now;
    x.num(net.now);
    x.num(log.attempts);
    x.count("op.attempt", log.attempts);
    x.count("op.retry", log.retries);
    // frames the device never sent but the host's line carried intact
    for h in &log.host_rx {
        let mut at = 0;
        loop {
            match next_cand(h, at) {
                Cand::Good { at: a, len } => {
                    if !log.dev_sent.contains(&h[a..a + len]) {
                        log.undetected = true;
                    }
                    at = a + len;
                },
                Cand::Bad { at: a, .. } => at = a + 2,
                Cand::Pending { .. } => break,
            }
        }
        x.feed(h);
    }
    Ok(log)
}

//! The simulated serial link: a device transmits, the line damages, delays and loses, a host reads at
//! its own pace into the real parser. One `Plan` decides everything; executing it draws no randomness.
use crate::engine::{lib, Ctx, Viol, R};
use crate::gen_acc::{packet_payload, variant_name};
use crate::hex::Hex;
use crate::refdec::spec;
use crate::refparse::frame;
use crate::{bail, ensure};
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use ublox::{FixedLinearBuffer, PacketRef, Parser, ParserError, UnderlyingBuffer};

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Tx {
    /// a UBX message
    Frame { c: u8, i: u8, p: Hex },
    /// anything else, sent as is
    Raw { b: Hex },
    Idle { us: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum FaultKind {
    Flip { bit: u8 },
    Drop { n: u16 },
    Dup { n: u16 },
    Ins { b: Hex },
    /// two neighbouring runs of n bytes change places
    Swap { n: u16 },
    /// baud mismatch: n bytes arrive as something else
    Garble { n: u16, x: u8 },
    /// the device resets: the rest of the current transmission is lost, boot noise follows
    Reset { noise: Hex },
    /// the line stalls: everything from here on arrives later
    Stall { us: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault {
    /// position in the bytes the device transmits
    pub at: u32,
    pub kind: FaultKind,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
#[serde(rename_all = "snake_case")]
pub enum Mode {
    Drain,
    Take { n: u8 },
    NoPoll,
    /// the application's handler panics on its n-th item
    Panic { n: u8 },
    /// polls again after the end
    DrainTwice,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Host {
    /// waits until n bytes are there (or the line ends) and reads them
    Exact { n: u32, m: Mode },
    /// waits dt and reads what is there, at most max
    Poll { dt: u32, max: u32, m: Mode },
    /// the host program restarts: parser and driver buffer are gone
    Restart,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
#[serde(rename_all = "snake_case")]
pub enum Buf {
    Vec,
    /// a growable buffer that already holds bytes
    Prefilled { b: Hex },
    Fixed { n: u32 },
    /// a user-supplied store that checks the contract
    Strict { cap: u32, extra: u32, own_find: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub baud: u32,
    pub fifo: Option<u32>,
    pub buf: Buf,
    pub tx: Vec<Tx>,
    pub faults: Vec<Fault>,
    pub host: Vec<Host>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Pkt { c: u8, i: u8, p: Vec<u8>, name: &'static str },
    Sum { found: u16, computed: u16 },
    Oom(usize),
    Other(String),
}
impl Item {
    pub fn short(&self) -> String {
        match self {
            Item::Pkt { c, i, p, name } => {
                let h = crate::hex::enc(&p[..p.len().min(24)]);
                let dots = if p.len() > 24 { ".." } else { "" };
                format!("{}({:02x} {:02x}, {} bytes {}{})", name, c, i, p.len(), h, dots)
            },
            Item::Sum { found, computed } => format!("checksum error (stream {:04x}, computed {:04x})", found, computed),
            Item::Oom(n) => format!("out of memory ({})", n),
            Item::Other(s) => s.clone(),
        }
    }
    pub fn is_pkt(&self) -> bool {
        matches!(self, Item::Pkt { .. })
    }
    /// Same class, id and payload (whatever the type).
    pub fn frame(&self) -> Option<Vec<u8>> {
        match self {
            Item::Pkt { c, i, p, .. } => Some(frame(*c, *i, p)),
            _ => None,
        }
    }
}
pub fn show(items: &[Item]) -> String {
    let mut v: Vec<String> = items.iter().take(12).map(|i| i.short()).collect();
    if items.len() > 12 {
        v.push(format!("... {} in all", items.len()));
    }
    format!("[{}]", v.join(", "))
}

/// Bytes of one parser lifetime, cut into reads.
#[derive(Clone, Debug, Default)]
pub struct Inc {
    /// everything this parser was given, the prefilled bytes first
    pub stream: Vec<u8>,
    pub prefill: usize,
    /// which transmission each byte belongs to
    pub prov: Vec<Option<(u32, u32)>>,
    /// (end position in stream, mode) of each read
    pub reads: Vec<(usize, Mode, u64)>,
    /// position of the first byte after the last fault
    pub clean_from: usize,
}
#[derive(Clone, Debug)]
pub struct ReadOut {
    pub start: usize,
    pub end: usize,
    pub mode: Mode,
    pub items: Vec<Item>,
    /// the iterator said it was exhausted
    pub none: bool,
    pub len: usize,
    pub empty: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Hist {
    pub reads: Vec<ReadOut>,
}
impl Hist {
    pub fn items(&self) -> impl Iterator<Item = &Item> {
        self.reads.iter().flat_map(|r| r.items.iter())
    }
}

#[derive(Clone, Copy)]
enum El {
    Byte { b: u8, prov: Option<(u32, u32)>, dirty: bool },
    /// something was lost here
    Mark,
    /// later bytes arrive this much later
    Delay(u32),
}

pub fn tx_bytes(tx: &[Tx]) -> Vec<Vec<u8>> {
    tx.iter()
        .map(|t| match t {
            Tx::Frame { c, i, p } => frame(*c, *i, &p.0),
            Tx::Raw { b } => b.0.clone(),
            Tx::Idle { .. } => vec![],
        })
        .collect()
}

fn garbled(b: u8, x: u8) -> u8 {
    b.rotate_left(u32::from(x) % 7 + 1) ^ (x | 0x80)
}

/// Device and line: what arrives at the host, and when (µs).
fn arrivals(p: &Plan, x: &mut Ctx) -> Vec<(u64, El)> {
    let mut els: Vec<El> = vec![];
    for (k, t) in p.tx.iter().enumerate() {
        match t {
            Tx::Idle { us } => els.push(El::Delay(*us)),
            _ => {
                let b = &tx_bytes(std::slice::from_ref(t))[0];
                for (o, v) in b.iter().enumerate() {
                    els.push(El::Byte { b: *v, prov: Some((k as u32, o as u32)), dirty: false });
                }
            },
        }
    }
    let mut faults: Vec<&Fault> = p.faults.iter().collect();
    faults.sort_by_key(|f| std::cmp::Reverse(f.at)); // from the back, so that offsets stay valid
    for f in faults {
        // index of the f.at-th transmitted byte
        let mut left = f.at;
        let Some(ix) = els.iter().position(|e| match e {
            El::Byte { prov: Some(_), .. } => {
                if left == 0 {
                    true
                } else {
                    left -= 1;
                    false
                }
            },
            _ => false,
        }) else {
            continue;
        };
        let run = |n: u16| {
            let mut e = ix;
            while e < els.len() && e - ix < n as usize && matches!(els[e], El::Byte { .. }) {
                e += 1;
            }
            e
        };
        match &f.kind {
            FaultKind::Flip { bit } => {
                if let El::Byte { b, dirty, .. } = &mut els[ix] {
                    *b ^= 1 << (bit & 7);
                    *dirty = true;
                    x.count("fault.bit_flip", 1);
                }
            },
            FaultKind::Drop { n } => {
                let e = run((*n).max(1));
                x.count("fault.lost_byte", (e - ix) as u64);
                els.splice(ix..e, [El::Mark]);
            },
            FaultKind::Dup { n } => {
                let e = run((*n).max(1));
                let copy: Vec<El> = els[ix..e]
                    .iter()
                    .map(|v| match v {
                        El::Byte { b, .. } => El::Byte { b: *b, prov: None, dirty: true },
                        o => *o,
                    })
                    .collect();
                x.count("fault.duplicated_byte", copy.len() as u64);
                els.splice(e..e, copy);
            },
            FaultKind::Ins { b } => {
                x.count("fault.inserted_byte", b.0.len() as u64);
                let ins: Vec<El> = b.0.iter().map(|v| El::Byte { b: *v, prov: None, dirty: true }).collect();
                els.splice(ix..ix, ins);
            },
            FaultKind::Swap { n } => {
                let m = run((*n).max(1));
                let mut e = m;
                while e < els.len() && e - m < m - ix && matches!(els[e], El::Byte { .. }) {
                    e += 1;
                }
                if e > m {
                    let mut v: Vec<El> = els[m..e].to_vec();
                    v.extend_from_slice(&els[ix..m]);
                    for y in v.iter_mut() {
                        if let El::Byte { dirty, .. } = y {
                            *dirty = true;
                        }
                    }
                    els.splice(ix..e, v);
                    x.count("fault.reordered_bytes", (e - ix) as u64);
                }
            },
            FaultKind::Garble { n, x: k } => {
                let e = run((*n).max(1));
                for y in els[ix..e].iter_mut() {
                    if let El::Byte { b, dirty, .. } = y {
                        *b = garbled(*b, *k);
                        *dirty = true;
                    }
                }
                x.count("fault.baud_garbled_byte", (e - ix) as u64);
            },
            FaultKind::Reset { noise } => {
                let El::Byte { prov: Some((op, _)), .. } = els[ix] else { continue };
                let mut e = ix;
                while e < els.len() && matches!(els[e], El::Byte { prov, .. } if prov.is_none() || prov.unwrap().0 == op) {
                    e += 1;
                }
                let mut v = vec![El::Mark];
                v.extend(noise.0.iter().map(|b| El::Byte { b: *b, prov: None, dirty: true }));
                els.splice(ix..e, v);
                x.count("fault.device_reset", 1);
            },
            FaultKind::Stall { us } => {
                els.insert(ix, El::Delay(*us));
                x.count("fault.line_stall", 1);
            },
        }
    }
    let per = 10_000_000u64 / u64::from(p.baud.max(300));
    let mut t = 0u64;
    let mut out = vec![];
    for e in els {
        match e {
            El::Delay(us) => t += u64::from(us),
            El::Mark => out.push((t, e)),
            El::Byte { .. } => {
                t += per.max(1);
                out.push((t, e));
            },
        }
    }
    out
}

/// Host side of the simulation: which bytes each read of each parser lifetime gets.
pub fn deliver(p: &Plan, x: &mut Ctx) -> Vec<Inc> {
    let arr = arrivals(p, x);
    let cap = p.fifo.map(|c| c.max(1) as usize).unwrap_or(usize::MAX);
    let mut fifo: VecDeque<El> = VecDeque::new();
    let mut nbytes = 0usize; // bytes in fifo (marks are free)
    let mut next = 0usize;
    let mut now = 0u64;
    let mut incs: Vec<Inc> = vec![];
    let mut cur = Inc::default();
    if let Buf::Prefilled { b } = &p.buf {
        cur.stream = b.0.clone();
        cur.prefill = b.0.len();
        cur.prov = vec![None; b.0.len()];
        cur.clean_from = cur.stream.len();
    }
    let mut overrun = 0u64;
    macro_rules! arrive {
        ($until:expr) => {
            while next < arr.len() && arr[next].0 <= $until {
                let e = arr[next].1;
                next += 1;
                match e {
                    El::Byte { .. } if nbytes >= cap => {
                        overrun += 1;
                        if !matches!(fifo.back(), Some(El::Mark)) {
                            fifo.push_back(El::Mark);
                        }
                    },
                    El::Byte { .. } => {
                        fifo.push_back(e);
                        nbytes += 1;
                    },
                    _ => fifo.push_back(e),
                }
            }
        };
    }
    macro_rules! read {
        ($max:expr, $m:expr) => {{
            let mut k = 0usize;
            while k < $max || matches!(fifo.front(), Some(El::Mark)) {
                match fifo.pop_front() {
                    Some(El::Byte { b, prov, dirty }) => {
                        nbytes -= 1;
                        cur.stream.push(b);
                        cur.prov.push(if dirty { None } else { prov });
                        if dirty {
                            cur.clean_from = cur.stream.len();
                        }
                        k += 1;
                    },
                    Some(_) => cur.clean_from = cur.stream.len(),
                    None => break,
                }
            }
            if k == 0 {
                x.count("probe.empty_read", 1);
            }
            cur.reads.push((cur.stream.len(), $m, now));
        }};
    }
    for h in &p.host {
        match h {
            Host::Exact { n, m } => {
                let want = (*n as usize).min(cap);
                arrive!(now);
                while nbytes < want && next < arr.len() {
                    now = now.max(arr[next].0);
                    arrive!(now);
                }
                read!(want, *m);
            },
            Host::Poll { dt, max, m } => {
                now += u64::from(*dt);
                arrive!(now);
                read!(*max as usize, *m);
            },
            Host::Restart => {
                x.count("fault.host_restart", 1);
                arrive!(now);
                fifo.clear();
                nbytes = 0;
                incs.push(std::mem::take(&mut cur));
            },
        }
    }
    // the rest of the transmission, drained
    loop {
        arrive!(now);
        while nbytes < cap.min(4096) && next < arr.len() {
            now = now.max(arr[next].0);
            arrive!(now);
        }
        if fifo.is_empty() {
            break;
        }
        read!(cap.min(4096), Mode::Drain);
    }
    if cur.reads.is_empty() || !matches!(cur.reads.last(), Some((_, Mode::Drain, _))) {
        let end = cur.stream.len();
        cur.reads.push((end, Mode::Drain, now));
    }
    x.count("fault.uart_overrun_byte", overrun);
    x.sim_us += now;
    incs.push(cur);
    incs
}

/// A store that honours the documented contract and reports every use outside it.
pub struct Strict {
    data: Vec<u8>,
    cap: usize,
    real: usize,
    own_find: bool,
}
impl Strict {
    pub fn new(cap: usize, extra: usize, own_find: bool) -> Self {
        Strict { data: vec![], cap, real: cap + extra, own_find }
    }
}
impl std::ops::Index<usize> for Strict {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        if i >= self.data.len() {
            panic!("CONTRACT: read of element {} of a buffer that stores {}", i, self.data.len());
        }
        &self.data[i]
    }
}
impl std::ops::Index<std::ops::Range<usize>> for Strict {
    type Output = [u8];
    fn index(&self, r: std::ops::Range<usize>) -> &[u8] {
        if r.end > self.data.len() || r.start > r.end {
            panic!("CONTRACT: read of range {:?} of a buffer that stores {}", r, self.data.len());
        }
        &self.data[r]
    }
}
impl UnderlyingBuffer for Strict {
    fn clear(&mut self) {
        self.data.clear();
    }
    fn len(&self) -> usize {
        self.data.len()
    }
    fn max_capacity(&self) -> usize {
        self.cap
    }
    fn extend_from_slice(&mut self, other: &[u8]) -> usize {
        let n = other.len().min(self.real - self.data.len());
        self.data.extend_from_slice(&other[..n]);
        other.len() - n
    }
    fn drain(&mut self, count: usize) {
        if count > self.data.len() {
            panic!("CONTRACT: removal of {} elements from a buffer that stores {}", count, self.data.len());
        }
        self.data.drain(..count);
    }
    fn find(&self, value: u8) -> Option<usize> {
        if self.own_find {
            self.data.iter().position(|x| *x == value)
        } else {
            (0..self.len()).find(|&i| self[i] == value)
        }
    }
}

pub fn ident(p: &PacketRef<'_>) -> (u8, u8, &'static str) {
    match p {
        PacketRef::Unknown(u) => (u.class, u.msg_id, "Unknown"),
        _ => {
            let n = variant_name(p);
            match spec().packets.get(n) {
                Some(d) => (d.cls, d.id, n),
                None => (0xFF, 0xFF, "?"),
            }
        },
    }
}
/// Does the text a user gets to read name these numbers?
fn tells(e: &ParserError, n: &[usize]) -> bool {
    use std::fmt::Write;
    let mut t = String::with_capacity(96);
    let _ = write!(t, "{}", e);
    t.make_ascii_lowercase();
    let words = || t.split(|c: char| !c.is_ascii_hexdigit()).filter(|w| !w.is_empty());
    n.iter().all(|n| words().any(|w| usize::from_str_radix(w, 16) == Ok(*n) || w.parse() == Ok(*n)))
}
pub fn to_item(r: &Result<PacketRef<'_>, ParserError>) -> Item {
    match r {
        Ok(p) => {
            let (c, i, name) = ident(p);
            Item::Pkt { c, i, p: packet_payload(p).to_vec(), name }
        },
        Err(e @ ParserError::InvalidChecksum { expect, got }) if tells(e, &[usize::from(*expect), usize::from(*got)]) => {
            Item::Sum { found: *expect, computed: *got }
        },
        Err(e @ ParserError::OutOfMemory { required_size }) if tells(e, &[*required_size]) => Item::Oom(*required_size),
        Err(e @ (ParserError::InvalidChecksum { .. } | ParserError::OutOfMemory { .. })) => {
            Item::Other(format!("{:?} shown as {:?}", e, e.to_string()))
        },
        Err(e) => Item::Other(format!("{:?}", e)),
    }
}

struct HandlerPanic;
pub type Hook<'h> = &'h mut dyn FnMut(&PacketRef<'_>, &Item) -> R;

/// One read: consume, poll as the mode says, note what came out.
pub fn one_read<T: UnderlyingBuffer>(
    p: &mut Parser<T>,
    data: &[u8],
    mode: Mode,
    limit: usize,
    hook: Hook<'_>,
) -> Result<(Vec<Item>, bool), Viol> {
    let mut items = vec![];
    let mut none = false;
    let mut bad: R = Ok(());
    let stop_at = match mode {
        Mode::Take { n } | Mode::Panic { n } => n as usize,
        Mode::NoPoll => 0,
        _ => usize::MAX,
    };
    let body = AssertUnwindSafe(|| {
        let mut it = lib(|| p.consume(data));
        let mut extra = 0;
        while items.len() < stop_at {
            match lib(|| it.next()) {
                None => {
                    none = true;
                    if mode == Mode::DrainTwice && extra < 2 {
                        extra += 1;
                        continue;
                    }
                    break;
                },
                Some(r) => {
                    if none {
                        bad = crate::engine::viol("item-after-end", format!("the iterator yielded {} after it had ended", to_item(&r).short()));
                        break;
                    }
                    let item = to_item(&r);
                    if let Ok(pk) = &r {
                        if let Err(v) = hook(pk, &item) {
                            bad = Err(v);
                        }
                    }
                    items.push(item);
                    if bad.is_err() {
                        break;
                    }
                    if items.len() > limit {
                        bad = crate::engine::viol("endless", format!("{} items from {} received bytes", items.len(), limit));
                        break;
                    }
                    if matches!(mode, Mode::Panic { n } if items.len() == n as usize) {
                        resume_unwind(Box::new(HandlerPanic));
                    }
                },
            }
        }
        lib(|| drop(it));
    });
    if matches!(mode, Mode::Panic { .. }) {
        if let Err(e) = catch_unwind(body) {
            if !e.is::<HandlerPanic>() {
                resume_unwind(e);
            }
        }
    } else {
        let mut body = body;
        (body.0)();
    }
    bad?;
    Ok((items, none))
}

pub fn drive<T: UnderlyingBuffer>(p: &mut Parser<T>, inc: &Inc, x: &mut Ctx, hook: Hook<'_>) -> Result<Hist, Viol> {
    let mut h = Hist::default();
    let mut start = inc.prefill;
    let mut total = 0usize;
    for (end, mode, t) in &inc.reads {
        let (items, none) = one_read(p, &inc.stream[start..*end], *mode, *end + 1 - total, hook)?;
        total += items.len();
        if total > *end {
            bail!("endless", "{} items from {} received bytes", total, end);
        }
        let (len, empty) = lib(|| (p.buffer_len(), p.is_buffer_empty()));
        x.feed(&inc.stream[start..*end]);
        x.num(*end as u64);
        x.num(len as u64);
        for i in &items {
            match i {
                Item::Pkt { c, i, p, name } => {
                    x.feed(&[1, *c, *i]);
                    x.feed(name.as_bytes());
                    x.feed(p);
                },
                Item::Sum { found, computed } => x.num(u64::from(*found) << 16 | u64::from(*computed)),
                Item::Oom(n) => x.num(0x1_0000_0000 | *n as u64),
                Item::Other(s) => x.feed(s.as_bytes()),
            }
        }
        match mode {
            Mode::Drain | Mode::DrainTwice => {},
            Mode::Take { .. } => x.count("fault.early_stop", 1),
            Mode::NoPoll => x.count("fault.unpolled_read", 1),
            Mode::Panic { n } => x.count("fault.handler_panic", u64::from(*n > 0 && items.len() == *n as usize)),
        }
        x.say(|| {
            format!(
                "t={}us read {}..{} ({}) {:?} -> {}{} ; {} bytes kept",
                t,
                start,
                end,
                crate::hex::enc(&inc.stream[start..(*end).min(start + 48)]),
                mode,
                show(&items),
                if none { " end" } else { "" },
                len
            )
        });
        h.reads.push(ReadOut { start, end: *end, mode: *mode, items, none, len, empty });
        start = *end;
    }
    Ok(h)
}

pub const CANARY: u8 = 0xC7;
/// Runs the real parser with the planned buffer over every lifetime.
pub fn execute(p: &Plan, incs: &[Inc], x: &mut Ctx, hook: Hook<'_>) -> Result<Vec<Hist>, Viol> {
    let mut out = vec![];
    match &p.buf {
        Buf::Vec | Buf::Prefilled { .. } => {
            for (k, inc) in incs.iter().enumerate() {
                let h = if k == 0 && inc.prefill > 0 {
                    let mut ps = Parser::new(inc.stream[..inc.prefill].to_vec());
                    drive(&mut ps, inc, x, hook)?
                } else {
                    let mut ps = Parser::default();
                    drive(&mut ps, inc, x, hook)?
                };
                out.push(h);
            }
        },
        Buf::Fixed { n } => {
            let n = *n as usize;
            // the memory is not cleared between lifetimes and starts out with misleading contents
            let mut arena: Vec<u8> = (0..n + 64).map(|i| if i % 2 == 0 { 0xB5 } else { 0x62 }).collect();
            let (front, rest) = arena.split_at_mut(32);
            let (mid, back) = rest.split_at_mut(n);
            front.fill(CANARY);
            back.fill(CANARY);
            for inc in incs {
                {
                    let fb = lib(|| FixedLinearBuffer::new(&mut mid[..]));
                    let mut ps = Parser::new(fb);
                    let h = drive(&mut ps, inc, x, hook)?;
                    for r in &h.reads {
                        ensure!(r.len <= n, "overfull", "a parser on {} bytes reports {} bytes kept", n, r.len);
                    }
                    out.push(h);
                }
                ensure!(
                    front.iter().chain(back.iter()).all(|b| *b == CANARY),
                    "canary",
                    "memory outside the {}-byte region was written",
                    n
                );
            }
        },
        Buf::Strict { cap, extra, own_find } => {
            for inc in incs {
                let mut ps = Parser::new(Strict::new(*cap as usize, *extra as usize, *own_find));
                let h = drive(&mut ps, inc, x, hook)?;
                out.push(h);
            }
        },
    }
    Ok(out)
}
/// Region size and such must make sense for the plan to be one of this simulation.
pub fn plan_ok(p: &Plan) -> bool {
    match &p.buf {
        Buf::Fixed { n } => *n >= 4 && *n <= 1 << 20,
        Buf::Strict { cap, extra, .. } => *cap >= 4 && *cap <= 1 << 20 && *extra <= 1 << 20,
        _ => true,
    }
}

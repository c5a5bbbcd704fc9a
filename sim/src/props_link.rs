//! C01-C11 and C14: one parser on a simulated serial link.
use crate::engine::{lib, Ctx, Sim, Tier, R};
use crate::hex::Hex;
use crate::link::*;
use crate::linkgen::*;
use crate::refdec;
use crate::refparse::*;
use crate::rng::Rng;
use crate::{bail, ensure};
use std::collections::HashMap;
use ublox::{PacketRef, Parser, UbxPacketMeta};

pub const REAL: &[&str] = &[
    "ublox::Parser / ParserIter (parser.rs)",
    "ublox::FixedLinearBuffer and the Vec buffer",
    "packet recognition and accessors (packets.rs, ublox_derive output)",
];
pub const STUB: &[&str] = &[
    "GNSS receiver (generated transmissions)",
    "serial line (byte-level delay, loss, duplication, insertion, reordering, corruption, reset)",
    "UART receive FIFO (bounded, overruns) and host read scheduling on a simulated microsecond clock",
    "application packet handler",
];
fn nohook() -> impl FnMut(&PacketRef<'_>, &Item) -> R {
    |_, _| Ok(())
}
fn cand_item(r: &[u8], c: &Cand) -> Item {
    match *c {
        Cand::Good { at, len } => {
            Item::Pkt { c: r[at + 2], i: r[at + 3], p: r[at + 6..at + len - 2].to_vec(), name: "" }
        },
        Cand::Bad { found, computed, .. } => Item::Sum { found, computed },
        Cand::Pending { .. } => unreachable!(),
    }
}
/// Equality apart from the type name, which is C10's business.
fn eq(a: &Item, b: &Item) -> bool {
    match (a, b) {
        (Item::Pkt { c, i, p, .. }, Item::Pkt { c: c2, i: i2, p: p2, .. }) => c == c2 && i == i2 && p == p2,
        _ => a == b,
    }
}
fn eqs(a: &[Item], b: &[Item]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(x, y))
}

/// Items of one read of `data` by a fresh growable parser, drained.
fn one_shot(data: &[u8]) -> Result<Vec<Item>, crate::engine::Viol> {
    let mut p = Parser::default();
    Ok(one_read(&mut p, data, Mode::Drain, data.len(), &mut nohook())?.0)
}
fn probes(inc: &Inc, x: &mut Ctx) -> (Vec<Cand>, usize) {
    let (c, pend) = scan(&inc.stream);
    x.count("probe.valid_message", c.iter().filter(|c| matches!(c, Cand::Good { .. })).count() as u64);
    x.count("probe.wrong_checksum_candidate", c.iter().filter(|c| matches!(c, Cand::Bad { .. })).count() as u64);
    x.count("probe.unfinished_at_end", u64::from(pend < inc.stream.len()));
    // reads that end inside a message
    let mut k = 0;
    let mut cut = 0u64;
    for (e, _, _) in &inc.reads {
        while k < c.len() && end_of(&c[k]) <= *e {
            k += 1;
        }
        if k < c.len() && at_of(&c[k]) < *e {
            cut += 1;
        }
    }
    x.count("probe.read_ending_inside_a_message", cut);
    (c, pend)
}
fn at_of(c: &Cand) -> usize {
    match *c {
        Cand::Good { at, .. } | Cand::Bad { at, .. } | Cand::Pending { at, .. } => at,
    }
}
fn end_of(c: &Cand) -> usize {
    match *c {
        Cand::Good { at, len } | Cand::Bad { at, len, .. } => at + len,
        Cand::Pending { at, .. } => at,
    }
}

// ---------------------------------------------------------------- C01
pub struct C01;
impl Sim for C01 {
    type Case = Plan;
    const ID: &'static str = "C01";
    const RULE: &'static str = "A run is one byte stream from a simulated device over a faulty line, read by the host in a generated segmentation; non-trivial if at least one message is decided and at least one read ends inside a candidate message. Oracle: the same bytes in one read, byte by byte, and one-shot reads of the prefixes at read boundaries.";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 360_000 } else { 2_500_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Plan {
        gen_plan(r, &GROW)
    }
    fn run(p: &Plan, x: &mut Ctx) -> R {
        let incs = deliver(p, x);
        let hs = execute(p, &incs, x, &mut nohook())?;
        for (inc, h) in incs.iter().zip(&hs) {
            let (c, _) = probes(inc, x);
            let all = one_shot(&inc.stream)?;
            // byte by byte
            let mut bb: Vec<Item> = vec![];
            let mut cum = vec![0usize; inc.stream.len() + 1];
            {
                let mut q = Parser::default();
                for k in 0..inc.stream.len() {
                    let (v, _) = one_read(&mut q, &inc.stream[k..k + 1], Mode::Drain, k + 1, &mut nohook())?;
                    bb.extend(v);
                    cum[k + 1] = bb.len();
                }
            }
            ensure!(
                bb == all,
                "bytewise-differs",
                "byte by byte: {} ; in one read: {}",
                show(&bb),
                show(&all)
            );
            let mut got: Vec<Item> = vec![];
            let step = (h.reads.len() / 20).max(1);
            for (k, rd) in h.reads.iter().enumerate() {
                got.extend(rd.items.iter().cloned());
                let n = cum[rd.end];
                ensure!(
                    got.len() == n && got[..] == bb[..n],
                    "segmentation-differs",
                    "after the read ending at byte {} the reads have yielded {} ; byte by byte the same bytes yield {}",
                    rd.end,
                    show(&got),
                    show(&bb[..n])
                );
                if k % step == 0 && rd.end < inc.stream.len() {
                    let pre = one_shot(&inc.stream[..rd.end])?;
                    ensure!(
                        pre == got,
                        "prefix-differs",
                        "after {} bytes: reads yielded {} ; one read of these bytes yields {}",
                        rd.end,
                        show(&got),
                        show(&pre)
                    );
                }
            }
            ensure!(got == all, "total-differs", "reads: {} ; one read: {}", show(&got), show(&all));
            if !c.is_empty() && h.reads.len() > 2 {
                x.nontrivial = true;
            }
        }
        Ok(())
    }
}

/// Clean bytes after which no candidate message can be unfinished.
fn flush(p: &mut Plan) {
    p.tx.push(Tx::Raw { b: Hex(vec![0; MAX_FRAME + 8]) });
}

fn pkts(h: &Hist) -> Vec<&Item> {
    h.items().filter(|i| i.is_pkt()).collect()
}

// ---------------------------------------------------------------- C02
pub struct C02;
impl Sim for C02 {
    type Case = Plan;
    const ID: &'static str = "C02";
    const RULE: &'static str = "A run is a mix of messages, other protocols, noise, false headers and line faults, read in a generated segmentation and drained; non-trivial if it contains a valid message next to something that is not one. Oracle: reference scan of the received bytes (every valid message not overlapping an earlier valid one must come out, in order, once).";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 720_000 } else { 6_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Plan {
        let mut p = gen_plan(r, &GROW);
        if r.chance(1, 3) {
            flush(&mut p);
        }
        p
    }
    fn run(p: &Plan, x: &mut Ctx) -> R {
        let incs = deliver(p, x);
        let hs = execute(p, &incs, x, &mut nohook())?;
        for (inc, h) in incs.iter().zip(&hs) {
            let (c, _) = probes(inc, x);
            let want: Vec<Item> =
                c.iter().filter(|c| matches!(c, Cand::Good { .. })).map(|c| cand_item(&inc.stream, c)).collect();
            let got = pkts(h);
            deliver_once(&inc.stream, &want, &got)?;
            if !want.is_empty() && (c.len() > want.len() || c.windows(2).any(|w| end_of(&w[0]) < at_of(&w[1]))) {
                x.nontrivial = true;
            }
        }
        Ok(())
    }
}
/// `want` must come out in order, and nothing more often than the stream contains it.
fn deliver_once(stream: &[u8], want: &[Item], got: &[&Item]) -> R {
    let mut k = 0;
    for w in want {
        match got[k..].iter().position(|g| eq(g, w)) {
            Some(j) => k += j + 1,
            None => {
                let all: Vec<Item> = got.iter().map(|g| (*g).clone()).collect();
                bail!("lost", "intact message {} was not delivered (in order); delivered: {}", w.short(), show(&all));
            },
        }
    }
    if got.len() > want.len() {
        let mut n: HashMap<Vec<u8>, usize> = HashMap::new();
        for g in got {
            *n.entry(g.frame().unwrap()).or_insert(0) += 1;
        }
        for (f, k) in n {
            let occ = stream.windows(f.len()).filter(|w| *w == &f[..]).count();
            ensure!(
                k <= occ,
                "repeated",
                "message {} was delivered {} times but received {} times",
                crate::hex::enc(&f[..f.len().min(40)]),
                k,
                occ
            );
        }
    }
    Ok(())
}

/// Any kind of buffer and application behaviour.
fn any_plan(r: &mut Rng, restarts: bool, early: bool, max_ops: usize, max_len: usize, faults: u8) -> Plan {
    let f = Prof { restarts, early: early && r.chance(1, 2), max_ops, max_len, faults, ..GROW };
    let mut p = gen_plan(r, &f);
    match r.below(4) {
        0 | 1 => {},
        2 => p.buf = Buf::Fixed { n: fixed_size(r, &p.tx) },
        _ => {
            p.buf = Buf::Strict {
                cap: fixed_size(r, &p.tx),
                extra: if r.chance(1, 3) { 1 + r.skewed(500) as u32 } else { 0 },
                own_find: r.chance(1, 2),
            }
        },
    }
    p
}

// ---------------------------------------------------------------- C03
pub struct C03;
impl Sim for C03 {
    type Case = Plan;
    const ID: &'static str = "C03";
    const RULE: &'static str = "A run is a damaged stream read with a growable, fixed-size or user-supplied buffer, with early stops, handler panics and restarts; non-trivial if something was delivered and something damaged or left unread. Oracle: delivered messages must be assignable, in order, to disjoint checksum-correct spans of the bytes received so far.";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 900_000 } else { 7_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Plan {
        any_plan(r, true, true, 14, 300, 1)
    }
    fn run(p: &Plan, x: &mut Ctx) -> R {
        if !plan_ok(p) {
            return Ok(());
        }
        let incs = deliver(p, x);
        let hs = execute(p, &incs, x, &mut nohook())?;
        for (inc, h) in incs.iter().zip(&hs) {
            probes(inc, x);
            let mut at = 0usize;
            let mut some = false;
            let stopped = h.reads.iter().any(|r| !r.none);
            match p.buf {
                // A full buffer drops what an interrupted application left unread; what the parser
                // then works on is the kept bytes and the next read.
                Buf::Fixed { n } if stopped => {
                    accept(inc, h, n as usize, true)?;
                    x.nontrivial |= h.items().any(|i| i.is_pkt());
                    continue;
                },
                Buf::Strict { cap, extra, .. } if stopped => {
                    accept(inc, h, (cap + extra) as usize, true)?;
                    x.nontrivial |= h.items().any(|i| i.is_pkt());
                    continue;
                },
                _ => {},
            }
            for rd in &h.reads {
                for it in &rd.items {
                    let Some(f) = it.frame() else { continue };
                    some = true;
                    let seen = &inc.stream[..rd.end];
                    let pos = (at..).take_while(|s| s + f.len() <= seen.len()).find(|s| seen[*s..s + f.len()] == f[..]);
                    match pos {
                        Some(s) => at = s + f.len(),
                        None => bail!(
                            "fabricated",
                            "delivered {} does not occur in the bytes received so far after the messages delivered before (position {} of {})",
                            it.short(),
                            at,
                            rd.end
                        ),
                    }
                }
            }
            if some && (h.items().any(|i| !i.is_pkt()) || inc.reads.iter().any(|r| r.1 != Mode::Drain) || inc.clean_from > 0) {
                x.nontrivial = true;
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C04
pub struct C04;
impl Sim for C04 {
    type Case = Plan;
    const ID: &'static str = "C04";
    const RULE: &'static str = "A run is faulty traffic (line faults, UART overruns, restarts) followed by more than 8184 bytes of clean traffic, drained after each read; non-trivial if a fault fired and a message started after the last one. Oracle: each such message that no earlier valid message overlaps is delivered before 8184 bytes have arrived from its start.";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 180_000 } else { 1_500_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Plan {
        let f = Prof { max_ops: 8, max_len: 200, prefill: false, faults: 0, early: false, restarts: false, fifo: false, ..GROW };
        let mut tx = gen_tx(r, &f);
        if r.chance(1, 3) {
            tx.push(Tx::Raw { b: Hex(crate::frames::false_start(r)) });
        }
        let dirty = total_len(&tx);
        let faults = gen_faults(r, &tx, dirty, 8);
        // from here on the line is clean
        let mut len = 0;
        while len < 9_000 {
            match r.below(6) {
                0 => {
                    let b = clean_raw(r);
                    len += b.len();
                    tx.push(Tx::Raw { b: Hex(b) });
                },
                1 | 2 => {
                    let p = crate::frames::unknown_payload(r, 500);
                    len += p.len() + 8;
                    tx.push(Tx::Frame { c: r.u8(), i: r.u8(), p: Hex(p) });
                },
                3 if len > 2000 => {
                    // bulk without messages
                    let k = r.range(500, 6000);
                    len += k;
                    tx.push(Tx::Raw { b: Hex(vec![if r.chance(1, 2) { 0 } else { 0xFF }; k]) });
                },
                _ => {
                    let (_, c, i, p) = crate::frames::random_packet(r);
                    len += p.len() + 8;
                    tx.push(Tx::Frame { c, i, p: Hex(p) });
                },
            }
        }
        let baud = *r.pick(&[9600u32, 115200, 921600]);
        let fifo = if r.chance(1, 4) { Some(*r.pick(&[64u32, 256, 1024])) } else { None };
        let mut host = gen_host(r, &tx[..tx.len() / 2], baud, false, true);
        if fifo.is_some() && r.chance(1, 2) {
            let k = r.below(host.len() + 1);
            host.insert(k, Host::Poll { dt: 10_000 + r.skewed(2_000_000) as u32, max: 1 << 16, m: Mode::Drain });
        }
        let buf = match r.below(3) {
            0 | 1 => Buf::Vec,
            _ => Buf::Fixed { n: fixed_size(r, &tx) },
        };
        Plan { baud, fifo, buf, tx, faults, host }
    }
    fn run(p: &Plan, x: &mut Ctx) -> R {
        if !plan_ok(p) {
            return Ok(());
        }
        let incs = deliver(p, x);
        let hs = execute(p, &incs, x, &mut nohook())?;
        let room = match &p.buf {
            Buf::Fixed { n } => *n as usize,
            Buf::Strict { cap, .. } => *cap as usize,
            _ => usize::MAX,
        };
        let txb = tx_bytes(&p.tx);
        let (last, before) = (incs.len() - 1, !p.faults.is_empty() || incs.len() > 1);
        let (inc, h) = (&incs[last], &hs[last]);
        // Messages that arrived whole after the last fault.
        let mut want: Vec<(usize, usize)> = vec![]; // (start, len)
        let mut s = inc.clean_from;
        while s < inc.stream.len() {
            if let Some((op, 0)) = inc.prov[s] {
                let b = &txb[op as usize];
                if matches!(p.tx[op as usize], Tx::Frame { .. })
                    && s + b.len() <= inc.stream.len()
                    && inc.stream[s..s + b.len()] == b[..]
                    && b.len() <= room
                    && b.len() <= MAX_FRAME
                {
                    want.push((s, b.len()));
                }
            }
            s += 1;
        }
        // Valid messages that begin earlier and overlap: the one exception.
        let valid_spans: Vec<(usize, usize)> = {
            let r = &inc.stream;
            let lo = inc.clean_from.saturating_sub(MAX_FRAME);
            (lo..r.len().saturating_sub(7))
                .filter(|&a| r[a] == 0xB5 && r[a + 1] == 0x62)
                .filter_map(|a| {
                    let n = usize::from(r[a + 4]) | usize::from(r[a + 5]) << 8;
                    if n <= MAX_PAYLOAD && a + n + 8 <= r.len() && unframe(&r[a..a + n + 8]).is_some() {
                        Some((a, a + n + 8))
                    } else {
                        None
                    }
                })
                .collect()
        };
        let mut got: Vec<(usize, &Item)> = vec![];
        for rd in &h.reads {
            got.extend(rd.items.iter().map(|i| (rd.end, i)));
        }
        let mut k = 0;
        let mut checked = 0u64;
        for (s, len) in want {
            if valid_spans.iter().any(|(a, e)| *a < s && *e > s) {
                x.count("probe.overlapped_by_earlier_valid_message", 1);
                continue;
            }
            let item = cand_item(&inc.stream, &Cand::Good { at: s, len });
            // the first read by whose end the message is due
            let due = h.reads.iter().map(|r| r.end).find(|e| *e >= s + MAX_FRAME);
            match got[k..].iter().position(|(_, g)| eq(g, &item)) {
                Some(j) => {
                    let t = got[k + j].0;
                    if let Some(d) = due {
                        ensure!(
                            t <= d,
                            "late",
                            "message {} starting at byte {} was delivered only after {} bytes (due by {})",
                            item.short(),
                            s,
                            t,
                            d
                        );
                    }
                    k += j + 1;
                    checked += 1;
                },
                None => {
                    if due.is_some() {
                        bail!(
                            "not-recovered",
                            "message {} starting at byte {} (last fault before byte {}) was never delivered although {} bytes followed; room {}",
                            item.short(),
                            s,
                            inc.clean_from,
                            inc.stream.len() - s,
                            room
                        );
                    }
                },
            }
        }
        x.count("probe.message_after_last_fault", checked);
        x.nontrivial = checked > 0 && before;
        Ok(())
    }
}

/// Relational model of a parser on `n` bytes: follows what was observed and objects to what the
/// statement does not allow. Kept bytes may or may not include leading bytes that cannot start a
/// message, so a small set of states is carried.
pub fn accept_fixed(inc: &Inc, h: &Hist, n: usize) -> R {
    accept(inc, h, n, false)
}
/// Messages found in `base` in order, on disjoint spans?
fn in_order(base: &[u8], items: &[Item]) -> bool {
    let mut at = 0;
    for it in items {
        let Some(f) = it.frame() else { continue };
        match (at..).take_while(|s| s + f.len() <= base.len()).find(|s| base[*s..s + f.len()] == f[..]) {
            Some(s) => at = s + f.len(),
            None => return false,
        }
    }
    true
}
/// With `only_fabricated`, disagreements other than a message that was never received end the
/// comparison silently (they are the business of other properties).
fn accept(inc: &Inc, h: &Hist, n: usize, only_fabricated: bool) -> R {
    let mut states: Vec<Vec<u8>> = vec![inc.stream[..inc.prefill].to_vec()];
    for rd in &h.reads {
        let mut next: Vec<Vec<u8>> = vec![];
        let mut err = None;
        for s in &states {
            let mut base = s.clone();
            base.extend_from_slice(&inc.stream[rd.start..rd.end]);
            let fs = base.iter().position(|b| *b == 0xB5).unwrap_or(base.len());
            for st in if fs == 0 { vec![0] } else { vec![0, fs] } {
                let v = &base[st..];
                match follow(v, rd, n) {
                    Err(e) => err = err.or(Some(e)),
                    Ok(ends) => {
                        for pos in ends {
                            let kept = v[pos..].len().min(n);
                            if kept == rd.len {
                                let k = v[pos..pos + kept].to_vec();
                                if !next.contains(&k) {
                                    next.push(k);
                                }
                            } else {
                                err = err.or(Some((
                                    "kept",
                                    format!(
                                        "after the read ending at byte {} the parser keeps {} bytes instead of {} (room {})",
                                        rd.end, rd.len, kept, n
                                    ),
                                )));
                            }
                        }
                    },
                }
            }
        }
        if next.is_empty() && only_fabricated {
            let ok = states.iter().any(|s| {
                let mut base = s.clone();
                base.extend_from_slice(&inc.stream[rd.start..rd.end]);
                in_order(&base, &rd.items)
            });
            ensure!(
                ok,
                "fabricated",
                "read {}..{}: {} are not spans of the bytes kept before and just received",
                rd.start,
                rd.end,
                show(&rd.items)
            );
            return Ok(());
        }
        if next.is_empty() {
            let (c, d) = err.unwrap();
            bail!(c, "{}", d);
        }
        ensure!((rd.len == 0) == rd.empty, "empty-flag", "{} bytes kept but is_buffer_empty() = {}", rd.len, rd.empty);
        states = next;
    }
    Ok(())
}
/// Possible reading positions in `v` after the items of one read.
fn follow(v: &[u8], rd: &ReadOut, n: usize) -> Result<Vec<usize>, (&'static str, String)> {
    let mut pos = 0;
    for it in &rd.items {
        let c = next_cand(v, pos);
        // the size named is that of the message, with or without its header
        let oom_ok = |need: usize| matches!(it, Item::Oom(q) if *q + 6 == need || *q == need);
        pos = match c {
            Cand::Good { at, len } => {
                if eq(it, &cand_item(v, &c)) {
                    at + len
                } else if len > n && oom_ok(len) {
                    at + 2
                } else {
                    return Err((
                        if len > n { "big-lost" } else { "fits-lost" },
                        format!(
                            "read ending at {}: expected the intact {}-byte message {} (room {}), got {}",
                            rd.end,
                            len,
                            cand_item(v, &c).short(),
                            n,
                            it.short()
                        ),
                    ));
                }
            },
            Cand::Bad { at, len, .. } => {
                if eq(it, &cand_item(v, &c)) || (len > n && oom_ok(len)) {
                    at + 2
                } else {
                    return Err((
                        "bad-misreported",
                        format!("read ending at {}: expected {} got {}", rd.end, cand_item(v, &c).short(), it.short()),
                    ));
                }
            },
            Cand::Pending { at, need } => {
                let rem = v.len() - at;
                if rem > 0 && ((need > n && oom_ok(need)) || (need == 0 && rem > n && matches!(it, Item::Oom(_)))) {
                    at + 2
                } else {
                    return Err((
                        "unfounded",
                        format!("read ending at {}: {} reported although no message is complete and it fits {} bytes", rd.end, it.short(), n),
                    ));
                }
            },
        };
    }
    if !rd.none {
        let fs = v[pos..].iter().position(|b| *b == 0xB5).map_or(v.len(), |k| pos + k);
        return Ok(if fs == pos { vec![pos] } else { vec![pos, fs] });
    }
    match next_cand(v, pos) {
        Cand::Pending { at, .. } => {
            let rem = v.len() - at;
            if rem > n {
                return Err((
                    "silent-loss",
                    format!("read ending at {}: {} bytes of an unfinished message cannot be kept in {} bytes, yet no error was reported", rd.end, rem, n),
                ));
            }
            Ok(vec![at])
        },
        c => Err(("undelivered", format!("read ending at {}: the iterator ended before {}", rd.end, cand_item(v, &c).short()))),
    }
}

// ---------------------------------------------------------------- C05
pub struct C05;
impl Sim for C05 {
    type Case = Plan;
    const ID: &'static str = "C05";
    const RULE: &'static str = "A run is damaged or clean traffic read into a parser on N bytes (4..2000, often exactly a message's size or one off) inside guarded memory, drained after each read; non-trivial if a message was longer than N or unfinished bytes were kept. Oracle: relational model over the observed history, guard bytes, reported length <= N.";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 900_000 } else { 7_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Plan {
        let restarts = r.chance(1, 4);
        let mut p = gen_plan(r, &Prof { prefill: false, restarts, ..GROW });
        p.buf = Buf::Fixed { n: fixed_size(r, &p.tx) };
        p
    }
    fn run(p: &Plan, x: &mut Ctx) -> R {
        let Buf::Fixed { n } = p.buf else { return Ok(()) };
        if !plan_ok(p) {
            return Ok(());
        }
        let incs = deliver(p, x);
        let hs = execute(p, &incs, x, &mut nohook())?;
        for (inc, h) in incs.iter().zip(&hs) {
            let (c, _) = probes(inc, x);
            accept_fixed(inc, h, n as usize)?;
            let oom = h.items().filter(|i| matches!(i, Item::Oom(_))).count() as u64;
            x.count("probe.out_of_memory_reported", oom);
            let big = c.iter().any(|c| matches!(c, Cand::Good { len, .. } if *len > n as usize));
            x.count("probe.message_longer_than_buffer", u64::from(big));
            x.count("probe.buffer_exactly_full", h.reads.iter().filter(|r| r.len == n as usize).count() as u64);
            if oom > 0 || big || h.reads.iter().any(|r| r.len > 0) {
                x.nontrivial = true;
            }
        }
        Ok(())
    }
}

/// Exact model of a growable parser.
fn exact_growable(inc: &Inc, h: &Hist, kept_too: bool) -> R {
    let mut pos = 0usize;
    for rd in &h.reads {
        let r = &inc.stream[..rd.end];
        for it in &rd.items {
            let c = next_cand(r, pos);
            if let Cand::Pending { at, .. } = c {
                bail!(
                    "unfounded",
                    "read ending at {}: {} although nothing is decidable from byte {} on",
                    rd.end,
                    it.short(),
                    at
                );
            }
            let want = cand_item(r, &c);
            ensure!(
                eq(it, &want),
                "wrong-item",
                "read {}..{} ({:?}): got {} where {} was next",
                rd.start,
                rd.end,
                rd.mode,
                it.short(),
                want.short()
            );
            pos = match c {
                Cand::Good { at, len } => at + len,
                Cand::Bad { at, .. } => at + 2,
                Cand::Pending { at, .. } => at,
            };
        }
        let fs = r[pos..].iter().position(|b| *b == 0xB5).map_or(r.len(), |k| pos + k);
        if rd.none {
            match next_cand(r, pos) {
                Cand::Pending { at, .. } => {
                    if kept_too {
                        ensure!(
                            rd.len == r.len() - at,
                            "kept",
                            "after the drained read ending at byte {} the parser keeps {} bytes; {} belong to an unfinished message",
                            rd.end,
                            rd.len,
                            r.len() - at
                        );
                        ensure!(rd.len < MAX_FRAME, "unbounded", "{} bytes kept", rd.len);
                    }
                    pos = at;
                },
                c => bail!("undelivered", "read ending at {}: the iterator ended before {}", rd.end, cand_item(r, &c).short()),
            }
        } else if kept_too {
            ensure!(
                rd.len <= r.len() - pos && rd.len >= r.len() - fs,
                "kept",
                "after the read ending at byte {} ({:?}) the parser keeps {} bytes; {} were neither consumed nor discarded",
                rd.end,
                rd.mode,
                rd.len,
                r.len() - pos
            );
        }
        if kept_too {
            ensure!((rd.len == 0) == rd.empty, "empty-flag", "{} bytes kept but is_buffer_empty() = {}", rd.len, rd.empty);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C06
pub struct C06;
impl Sim for C06 {
    type Case = Plan;
    const ID: &'static str = "C06";
    const RULE: &'static str = "A run reads a generated stream with an application that stops after some items, does not poll, or panics in its handler, at generated reads; non-trivial if an interruption left something decidable or unfinished behind. Oracle: exact reference continuation (growable) or relational model with truncation to the capacity (fixed).";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 900_000 } else { 7_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Plan {
        let mut p = gen_plan(r, &Prof { early: true, ..GROW });
        if r.chance(1, 3) {
            p.buf = Buf::Fixed { n: fixed_size(r, &p.tx) };
        }
        p
    }
    fn run(p: &Plan, x: &mut Ctx) -> R {
        if !plan_ok(p) {
            return Ok(());
        }
        let incs = deliver(p, x);
        let hs = execute(p, &incs, x, &mut nohook())?;
        for (inc, h) in incs.iter().zip(&hs) {
            probes(inc, x);
            match p.buf {
                Buf::Fixed { n } => accept_fixed(inc, h, n as usize)?,
                _ => exact_growable(inc, h, false)?,
            }
            let left = h.reads.iter().filter(|r| !r.none && r.len > 0).count() as u64;
            x.count("probe.interrupted_with_bytes_left", left);
            x.nontrivial |= left > 0 && h.items().next().is_some();
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C07
pub struct C07;
impl Sim for C07 {
    type Case = Plan;
    const ID: &'static str = "C07";
    const RULE: &'static str = "A run reads a generated stream (often with false headers announcing up to 8176 bytes), drained or interrupted; non-trivial if bytes were kept after some read and none after another. Oracle: exact number of kept bytes from the reference scan.";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 720_000 } else { 6_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Plan {
        let early = r.chance(1, 3);
        let mut p = gen_plan(r, &Prof { early, ..GROW });
        if r.chance(1, 6) {
            p.tx.push(Tx::Raw { b: Hex(crate::frames::false_start(r)) });
            flush(&mut p);
        }
        if r.chance(1, 5) {
            p.buf = Buf::Fixed { n: fixed_size(r, &p.tx) };
        }
        p
    }
    fn run(p: &Plan, x: &mut Ctx) -> R {
        if !plan_ok(p) {
            return Ok(());
        }
        let incs = deliver(p, x);
        let hs = execute(p, &incs, x, &mut nohook())?;
        for (inc, h) in incs.iter().zip(&hs) {
            probes(inc, x);
            match p.buf {
                Buf::Fixed { n } => accept_fixed(inc, h, n as usize)?,
                _ => exact_growable(inc, h, true)?,
            }
            x.count("probe.bytes_kept_after_drained_read", h.reads.iter().filter(|r| r.none && r.len > 0).count() as u64);
            x.nontrivial |= h.reads.iter().any(|r| r.none && r.len > 0) && h.reads.iter().any(|r| r.none && r.len == 0);
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C08
pub struct C08;
impl Sim for C08 {
    type Case = Plan;
    const ID: &'static str = "C08";
    const RULE: &'static str = "A run reads damaged traffic, or entirely clean traffic, drained, in a generated segmentation; non-trivial if it has a candidate with a wrong checksum, or is clean with several messages. Oracle: the reference scan's errors, interleaved with the messages, with both checksum values.";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 900_000 } else { 7_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Plan {
        if r.chance(1, 4) {
            // clean: intact messages and other traffic free of sync characters
            let mut p = gen_plan(r, &Prof { hostile: false, faults: 0, fifo: false, prefill: false, ..GROW });
            p.tx.retain(|t| !matches!(t, Tx::Raw { b } if b.0.contains(&0xB5)));
            p
        } else {
            let mut p = gen_plan(r, &GROW);
            if r.chance(1, 5) {
                flush(&mut p);
            }
            p
        }
    }
    fn run(p: &Plan, x: &mut Ctx) -> R {
        let incs = deliver(p, x);
        let hs = execute(p, &incs, x, &mut nohook())?;
        let clean = p.faults.is_empty()
            && p.fifo.is_none()
            && p.buf == Buf::Vec
            && p.tx.iter().all(|t| !matches!(t, Tx::Raw { b } if b.0.contains(&0xB5)))
            && p.tx.iter().all(|t| !matches!(t, Tx::Frame { p, .. } if p.0.len() > MAX_PAYLOAD));
        for (inc, h) in incs.iter().zip(&hs) {
            let (c, _) = probes(inc, x);
            let got: Vec<Item> = h.items().cloned().collect();
            if clean {
                if let Some(e) = got.iter().find(|i| !i.is_pkt()) {
                    bail!("error-on-clean", "clean traffic, yet the parser reported {}", e.short());
                }
                x.count("probe.clean_run", 1);
                x.nontrivial |= c.len() > 1;
            }
            let want: Vec<Item> = c.iter().map(|c| cand_item(&inc.stream, c)).collect();
            let we: Vec<&Item> = want.iter().filter(|i| !i.is_pkt()).collect();
            let ge: Vec<&Item> = got.iter().filter(|i| !i.is_pkt()).collect();
            for g in &ge {
                ensure!(matches!(g, Item::Sum { .. }), "other-error", "reported: {}", g.short());
            }
            ensure!(
                we.len() == ge.len() && we.iter().zip(&ge).all(|(a, b)| a == b),
                "errors-differ",
                "reported {} ; true {}",
                show(&ge.iter().map(|i| (*i).clone()).collect::<Vec<_>>()),
                show(&we.iter().map(|i| (*i).clone()).collect::<Vec<_>>())
            );
            // order relative to messages: before each error, exactly the messages that precede it
            if got.iter().filter(|i| i.is_pkt()).count() == want.iter().filter(|i| i.is_pkt()).count() {
                ensure!(eqs(&got, &want), "order", "got {} ; true order {}", show(&got), show(&want));
            }
            x.nontrivial |= !we.is_empty();
        }
        Ok(())
    }
}

/// Everything an application can do with a delivered message.
pub fn touch(p: &PacketRef<'_>) {
    lib(|| {
        let mut d = crate::val::Decoded::default();
        crate::gen_acc::acc_packet(p, &mut d);
        std::hint::black_box(&d);
        let s = format!("{:?}", p);
        std::hint::black_box(s.len());
        // several lines, hexadecimal, padded and with few digits, all at once
        let s = format!("{:#06.1x?}", p);
        std::hint::black_box(s.len());
        if let Ok(s) = serde_json::to_string(p) {
            std::hint::black_box(s.len());
        }
        std::hint::black_box(&crate::gen_acc::json_alone(p));
        crate::nav::derive(p);
    });
}

// ---------------------------------------------------------------- C09
pub struct C09;
impl Sim for C09 {
    type Case = Plan;
    const ID: &'static str = "C09";
    const RULE: &'static str = "A run reads hostile bytes (messages of known types with arbitrary contents and lengths, corrupted, cut, embedded, noise) with any buffer, early stops, handler panics and restarts, and uses every accessor, nested iterator, conversion, Debug and serde output of each delivered message; non-trivial if a known type was delivered or an error reported. Streams of more than 3000 bytes are also given to an unoptimised build on a stack of 512 kB. Oracle: no library panic, no hang, at most one item per received byte.";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 900_000 } else { 6_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Plan {
        let mut p = any_plan(r, true, true, 12, 300, 1);
        // more hostile contents under known ids
        for _ in 0..r.below(4) {
            let (c, i, q) = crate::frames::near_payload(r);
            let at = r.below(p.tx.len() + 1);
            p.tx.insert(at, Tx::Frame { c, i, p: Hex(q) });
        }
        if r.chance(1, 6) {
            // arbitrary bytes, including over-long frames
            let k = r.skewed(3000);
            let b = match r.below(4) {
                0 => r.bytes(k),
                1 => (0..k).map(|_| *r.pick(&[0xB5u8, 0x62, 0, 1, 2, 0xFF])).collect(),
                2 => vec![0xB5; k],
                _ => crate::frames::unknown_payload(r, k),
            };
            let at = r.below(p.tx.len() + 1);
            p.tx.insert(at, Tx::Raw { b: Hex(b) });
        }
        if r.chance(1, 300) {
            // lengths around and beyond the maximum
            let k = r.range(8170, 8300);
            let b = crate::frames::unknown_payload(r, k);
            let mut q = b;
            q.resize(k, 0);
            p.tx.push(Tx::Frame { c: r.u8(), i: r.u8(), p: Hex(q) });
        }
        if r.chance(1, 3000) {
            // one pattern over and over, without a message in it
            let n = r.range(1, 10);
            let mut pat: Vec<u8> = match r.below(5) {
                0 => vec![0xB5],
                1 => vec![0xB5, 0x62, r.u8(), r.u8(), 0xFF, 0xFF],
                2 => vec![0xB5, 0x62],
                3 => vec![0xB5, 0x62, r.u8(), r.u8(), 0, 0, r.u8(), r.u8()],
                _ => (0..n).map(|_| *r.pick(&[0xB5u8, 0x62, 0, 1, 0x20, 0xFF])).collect(),
            };
            let n = r.below(3);
            pat.extend(r.bytes(n));
            let n = r.range(3_000, 40_000);
            let b = pat.iter().cycle().take(n).copied().collect();
            let at = r.below(p.tx.len() + 1);
            p.tx.insert(at, Tx::Raw { b: Hex(b) });
            p.host.push(Host::Exact { n: n as u32, m: Mode::Drain });
        }
        p
    }
    fn run(p: &Plan, x: &mut Ctx) -> R {
        if !plan_ok(p) {
            return Ok(());
        }
        let incs = deliver(p, x);
        let mut typed = 0u64;
        let hs = execute(p, &incs, x, &mut |pk, it| {
            touch(pk);
            if matches!(it, Item::Pkt { name, .. } if *name != "Unknown") {
                typed += 1;
            }
            Ok(())
        })?;
        if incs.iter().any(|i| i.stream.len() > 3000) {
            crate::props_lite::survives(p, &incs, x)?;
        }
        for (inc, h) in incs.iter().zip(&hs) {
            probes(inc, x);
            ensure!(
                h.items().count() <= inc.stream.len(),
                "too-many-items",
                "{} items from {} bytes",
                h.items().count(),
                inc.stream.len()
            );
            x.nontrivial |= h.items().any(|i| !i.is_pkt());
        }
        x.count("probe.typed_message_fully_accessed", typed);
        x.nontrivial |= typed > 0;
        Ok(())
    }
}

/// Streams made of messages of known types and near misses.
fn typed_plan(r: &mut Rng, near: bool) -> Plan {
    let mut p = gen_plan(r, &Prof { typed: true, big: false, max_ops: 10, ..GROW });
    if near {
        for _ in 0..r.range(1, 6) {
            let (c, i, q) = crate::frames::near_payload(r);
            let at = r.below(p.tx.len() + 1);
            p.tx.insert(at, Tx::Frame { c, i, p: Hex(q) });
        }
    }
    if r.chance(1, 4) {
        p.buf = Buf::Fixed { n: 64 + r.skewed(2000) as u32 };
    }
    p
}

// ---------------------------------------------------------------- C10
pub struct C10;
impl Sim for C10 {
    type Case = Plan;
    const ID: &'static str = "C10";
    const RULE: &'static str = "A run sends messages that fit their description, miss it by length or by a restricted value, or carry another message's contents, over the simulated link; non-trivial if both a typed and an unknown message came out. Oracle: independent frozen table of all 55 received types (class, id, length, restricted fields).";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    const ASSUME: &'static [&'static str] = &["the frozen table of message descriptions (sim/spec/packets.json) is right; it was taken from the documentation in the code and corrected by hand"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 900_000 } else { 7_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Plan {
        typed_plan(r, true)
    }
    fn run(p: &Plan, x: &mut Ctx) -> R {
        if !plan_ok(p) {
            return Ok(());
        }
        let incs = deliver(p, x);
        let (mut ty, mut unk) = (0u64, 0u64);
        let hs = execute(p, &incs, x, &mut |pk, it| {
            let Item::Pkt { c, i, p, name } = it else { return Ok(()) };
            if *name == "Unknown" {
                unk += 1;
                if p.len() <= 200 {
                    let j = lib(|| serde_json::to_value(pk)).ok();
                    ensure!(
                        j.as_ref() == Some(&refdec::to_json(name, *c, *i, p)),
                        "unknown-serialised",
                        "class {:02x} id {:02x}, payload {}: serialised as {:?}",
                        c,
                        i,
                        crate::hex::enc(p),
                        j
                    );
                }
            } else {
                ty += 1;
                // what the type says of itself
                let said = lib(|| crate::with_meta!(*name, T => Some((T::CLASS, T::ID, T::FIXED_PAYLOAD_LEN)), None));
                let fixed = refdec::spec().packets[*name].fixed.map(|n| n as u16);
                ensure!(
                    said.is_none_or(|s| s == (*c, *i, fixed)),
                    "wrong-identity",
                    "class {:02x} id {:02x}: the type {} says of itself {:x?}, its description {:?}",
                    c,
                    i,
                    name,
                    said,
                    fixed
                );
            }
            let told = lib(|| pk.class_and_msg_id());
            ensure!(told == (*c, *i), "wrong-identity", "a {} of class {:02x} id {:02x} calls itself {:02x?}", name, c, i, told);
            let want = refdec::type_of(*c, *i, p);
            ensure!(
                *name == want,
                "mistyped",
                "class {:02x} id {:02x}, {} payload bytes {}: delivered as {}, should be {}",
                c,
                i,
                p.len(),
                crate::hex::enc(&p[..p.len().min(80)]),
                name,
                want
            );
            Ok(())
        })?;
        x.count("probe.typed", ty);
        x.count("probe.unknown", unk);
        x.nontrivial = ty > 0 && unk > 0;
        if matches!(p.buf, Buf::Fixed { .. } | Buf::Strict { .. }) {
            return Ok(());
        }
        for (inc, h) in incs.iter().zip(&hs) {
            let (c, _) = probes(inc, x);
            let want: Vec<Item> =
                c.iter().filter(|c| matches!(c, Cand::Good { .. })).map(|c| cand_item(&inc.stream, c)).collect();
            deliver_once(&inc.stream, &want, &pkts(h))?;
            for i in h.items() {
                if let Item::Other(s) = i {
                    bail!("turned-into-error", "a checksum-correct message became the error {}", s);
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C11
pub struct C11;
impl Sim for C11 {
    type Case = Plan;
    const ID: &'static str = "C11";
    const RULE: &'static str = "A run sends messages of known types with edge and random field values over the simulated link; every accessor (scaled, raw, flags, enumerations, strings, blocks walked in several ways) and the serialised form are compared with an independent table-driven decoder; non-trivial if a typed message was compared. Counts per type are in the probes.";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    const ASSUME: &'static [&'static str] = &["the frozen table of field positions, types and scales is right (taken from the descriptions in the code, corrected by hand against the documented u-blox format)"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 720_000 } else { 5_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Plan {
        typed_plan(r, false)
    }
    fn run(p: &Plan, x: &mut Ctx) -> R {
        if !plan_ok(p) {
            return Ok(());
        }
        let incs = deliver(p, x);
        let mut seen: HashMap<&'static str, u64> = HashMap::new();
        execute(p, &incs, x, &mut |pk, it| {
            let Item::Pkt { c, i, p, name } = it else { return Ok(()) };
            if *name == "Unknown" || refdec::type_of(*c, *i, p) != *name {
                return Ok(()); // typing is C10's business
            }
            compare_fields(pk, name, *c, *i, p)?;
            *seen.entry(name).or_insert(0) += 1;
            Ok(())
        })?;
        for (k, v) in seen {
            x.count(k, v);
            x.nontrivial = true;
        }
        Ok(())
    }
}
pub fn compare_fields(pk: &PacketRef<'_>, name: &str, c: u8, i: u8, p: &[u8]) -> R {
    let mut d = crate::val::Decoded::default();
    lib(|| crate::gen_acc::acc_packet(pk, &mut d));
    let want = refdec::decode(name, p);
    let idx: HashMap<&str, &crate::val::Val> = want.iter().map(|(k, v)| (k.as_str(), v)).collect();
    for (k, v) in &d.vals {
        let Some(w) = idx.get(k) else {
            bail!("harness-field", "no reference for {}.{}", name, k)
        };
        ensure!(
            crate::val::same(v, w),
            "field",
            "{}.{}() = {:?}, the device sent {:?} (payload {})",
            name,
            k,
            v,
            w,
            crate::hex::enc(&p[..p.len().min(100)])
        );
    }
    let got = lib(|| serde_json::to_value(pk));
    match got {
        Err(e) => bail!("serialise", "{} does not serialise: {}", name, e),
        Ok(j) => {
            if let Err(e) = refdec::json_matches(name, &j, &refdec::to_json(name, c, i, p)) {
                bail!("serialised", "{}: {} (payload {})", name, e, crate::hex::enc(&p[..p.len().min(100)]));
            }
        },
    }
    if p.len() <= 400 {
        match lib(|| crate::gen_acc::json_alone(pk)) {
            Err(e) => bail!("serialise", "{} by itself does not serialise: {}", name, e),
            Ok(j) => {
                if let Err(e) = refdec::json_matches(name, &j, &refdec::sub_json(name, p)) {
                    bail!("serialised", "{} by itself: {} (payload {})", name, e, crate::hex::enc(&p[..p.len().min(100)]));
                }
            },
        }
        let mut texts = vec![(name, lib(|| format!("{:?}", pk)), p)];
        match pk {
            PacketRef::NavSat(l) => {
                texts.extend(lib(|| l.svs().map(|v| format!("{:?}", v)).collect::<Vec<_>>()).into_iter().zip(p[8..].chunks(12)).map(|(t, c)| ("NavSatSvInfo", t, c)));
            },
            PacketRef::RxmRawx(l) => {
                texts.extend(
                    lib(|| l.measurements().map(|v| format!("{:?}", v)).collect::<Vec<_>>()).into_iter().zip(p[16..].chunks(32)).map(|(t, c)| ("RxmRawxInfo", t, c)),
                );
            },
            _ => {},
        }
        for (n, text, p) in texts {
            if let Err(e) = refdec::debug_matches(n, &text, p) {
                bail!("debug-text", "{}: {} (payload {})", n, e, crate::hex::enc(&p[..p.len().min(100)]));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14
pub struct C14;
impl Sim for C14 {
    type Case = Plan;
    const ID: &'static str = "C14";
    const RULE: &'static str = "A run reads generated traffic into a parser on a user-supplied store that honours the contract (exact capacity, or able to take more than it promises; own or default find) and objects to any use outside it; non-trivial if the store was written to more than once. Oracle: contract assertions, and equality with the built-in fixed buffer of that capacity (or the growable one if the capacity is never reached).";
    const REAL: &'static [&'static str] = REAL;
    const STUB: &'static [&'static str] = STUB;
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 600_000 } else { 5_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Plan {
        let early = r.chance(1, 2);
        let restarts = r.chance(1, 5);
        let mut p = gen_plan(r, &Prof { prefill: false, early, restarts, ..GROW });
        let cap = if r.chance(1, 5) { total_len(&p.tx) as u32 + 64 } else { fixed_size(r, &p.tx) };
        p.buf = Buf::Strict {
            cap: cap.max(4),
            extra: if r.chance(1, 2) { 0 } else { 1 + r.skewed(3000) as u32 },
            own_find: r.chance(1, 2),
        };
        p
    }
    fn run(p: &Plan, x: &mut Ctx) -> R {
        let Buf::Strict { cap, extra, .. } = p.buf else { return Ok(()) };
        if !plan_ok(p) {
            return Ok(());
        }
        let incs = deliver(p, x);
        let hs = execute(p, &incs, x, &mut nohook())?;
        let drained = incs.iter().all(|i| i.reads.iter().all(|r| matches!(r.1, Mode::Drain | Mode::DrainTwice)));
        let mut quiet = Ctx::new(false);
        let q = Plan { buf: Buf::Fixed { n: cap }, ..p.clone() };
        if extra == 0 {
            let fs = execute(&q, &incs, &mut quiet, &mut nohook())?;
            same_hist(&hs, &fs, "differs-from-fixed", "the built-in buffer of that capacity")?;
        } else {
            x.count("probe.store_takes_more_than_promised", 1);
            if drained {
                // messages longer than the promised capacity may come out or be reported
                for (inc, h) in incs.iter().zip(&hs) {
                    accept_fixed(inc, h, cap as usize)?;
                }
            }
        }
        if incs.iter().all(|i| i.stream.len() <= cap as usize) {
            let q = Plan { buf: Buf::Vec, ..p.clone() };
            let fs = execute(&q, &incs, &mut quiet, &mut nohook())?;
            same_hist(&hs, &fs, "differs-from-growable", "a growable buffer")?;
            x.count("probe.capacity_never_reached", 1);
        }
        x.nontrivial = hs.iter().any(|h| h.reads.iter().filter(|r| r.len > 0).count() > 1);
        Ok(())
    }
}
fn same_hist(a: &[Hist], b: &[Hist], class: &str, what: &str) -> R {
    for (x, y) in a.iter().zip(b) {
        for (r, s) in x.reads.iter().zip(&y.reads) {
            ensure!(
                r.items == s.items && r.len == s.len && r.empty == s.empty && r.none == s.none,
                class,
                "read {}..{} ({:?}): {} with {} bytes kept; {} gives {} with {} bytes kept",
                r.start,
                r.end,
                r.mode,
                show(&r.items),
                r.len,
                what,
                show(&s.items),
                s.len
            );
        }
    }
    Ok(())
}

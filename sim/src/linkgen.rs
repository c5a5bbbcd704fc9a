//! Swarm-style generation of link plans: every run draws its own mix of traffic, faults and host
//! behaviour.
use crate::frames::*;
use crate::hex::Hex;
use crate::link::*;
use crate::refparse::frame;
use crate::rng::Rng;

#[derive(Clone, Copy)]
pub struct Prof {
    /// 0 none, 1 some runs, 2 every run
    pub faults: u8,
    pub restarts: bool,
    pub early: bool,
    pub fifo: bool,
    pub prefill: bool,
    /// allow noise, bad frames, false starts (otherwise only clean traffic)
    pub hostile: bool,
    /// mostly typed messages
    pub typed: bool,
    /// now and then messages of thousands of bytes
    pub big: bool,
    pub max_ops: usize,
    pub max_len: usize,
}
pub const GROW: Prof = Prof {
    faults: 1,
    restarts: false,
    early: false,
    fifo: true,
    prefill: true,
    hostile: true,
    typed: false,
    big: true,
    max_ops: 14,
    max_len: 400,
};

pub fn clean_raw(r: &mut Rng) -> Vec<u8> {
    match r.below(3) {
        0 => nmea(r),
        1 => rtcm3(r, true),
        _ => noise(r, true),
    }
}

fn big_len(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => 8176,
        1 => r.range(8168, 8176),
        2 => r.range(4000, 8176),
        _ => r.range(1000, 5000),
    }
}

pub fn gen_tx(r: &mut Rng, f: &Prof) -> Vec<Tx> {
    let n = r.range(1, f.max_ops);
    let hostile = f.hostile && r.chance(3, 4);
    let mut big_left = usize::from(f.big && r.chance(1, 12));
    // class weights of this run
    let wt = [
        if f.typed { 12 } else { r.range(1, 6) },
        r.range(0, 6),
        r.range(0, 3),
        r.range(0, 3),
        if hostile { r.range(0, 4) } else { 0 },
        if hostile { r.range(0, 4) } else { 0 },
        if hostile { r.range(0, 3) } else { 0 },
        if hostile { r.range(0, 2) } else { 0 },
        if hostile { r.range(0, 2) } else { 0 },
        1,
    ];
    let mut v: Vec<Tx> = vec![];
    for _ in 0..n {
        let raw = |b: Vec<u8>| Tx::Raw { b: Hex(b) };
        let t = match r.weighted(&wt) {
            0 => {
                let (_, c, i, p) = random_packet(r);
                Tx::Frame { c, i, p: Hex(p) }
            },
            1 => {
                if big_left > 0 {
                    big_left -= 1;
                    let k = big_len(r);
                    let p = match r.below(3) {
                        0 => vec![0; k],
                        1 => r.bytes(k),
                        _ => {
                            let mut p = vec![];
                            while p.len() < k {
                                p.extend(unknown_payload(r, k - p.len()));
                            }
                            p
                        },
                    };
                    Tx::Frame { c: r.u8(), i: r.u8(), p: Hex(p) }
                } else {
                    let p = unknown_payload(r, f.max_len);
                    let (c, i) = match r.below(6) {
                        0 => (0xB5, 0x62),
                        1 => (0x62, 0xB5),
                        2 => *r.pick(&known_ids()),
                        _ => (r.u8(), r.u8()),
                    };
                    Tx::Frame { c, i, p: Hex(p) }
                }
            },
            2 => {
                let (c, i, p) = near_payload(r);
                Tx::Frame { c, i, p: Hex(p) }
            },
            3 => raw(clean_raw(r)),
            4 => raw(noise(r, false)),
            5 => raw(bad_frame(r)),
            6 => raw(false_start(r)),
            7 => {
                // a frame cut short
                let p = unknown_payload(r, 100);
                let mut b = frame(r.u8(), r.u8(), &p);
                let k = r.range(1, b.len() - 1);
                b.truncate(k);
                raw(b)
            },
            8 => {
                // a message inside a damaged message, or right behind a sync character
                let p = unknown_payload(r, 60);
                let inner = frame(r.u8(), r.u8(), &p);
                let mut outer = vec![0xB5, 0x62, r.u8(), r.u8()];
                let total = inner.len() + r.below(20);
                outer.extend([(total & 255) as u8, (total >> 8) as u8]);
                match r.below(3) {
                    0 => outer.truncate(1),
                    1 => outer.truncate(2),
                    _ => {},
                }
                outer.extend(inner);
                raw(outer)
            },
            _ => Tx::Idle { us: r.skewed(2_000_000) as u32 },
        };
        v.push(t);
    }
    if r.chance(1, 3) {
        again(r, &mut v);
    }
    v
}
/// A receiver repeats itself: some messages become another of the kind and length of one before.
fn again(r: &mut Rng, v: &mut [Tx]) {
    for k in 1..v.len() {
        let (a, b) = v.split_at_mut(k);
        let Tx::Frame { c, i, p } = &mut b[0] else { continue };
        let before: Vec<&Tx> = a.iter().filter(|t| matches!(t, Tx::Frame { p, .. } if p.0.len() <= 400)).collect();
        if before.is_empty() || p.0.len() > 400 || !r.chance(1, 2) {
            continue;
        }
        let Tx::Frame { c: c0, i: i0, p: p0 } = *r.pick(&before) else { continue };
        (*c, *i) = (*c0, *i0);
        let old = std::mem::replace(&mut p.0, p0.0.clone());
        match r.below(4) {
            0 => {},
            1 => p.0.iter_mut().zip(old).for_each(|(x, y)| *x = y),
            _ => {
                for _ in 0..r.range(1, 4).min(p.0.len()) {
                    let at = r.below(p.0.len());
                    p.0[at] = r.u8();
                }
            },
        }
    }
}

pub fn total_len(tx: &[Tx]) -> usize {
    tx_bytes(tx).iter().map(|b| b.len()).sum()
}
/// Positions of interest in the transmitted bytes: around starts, lengths and ends of messages.
pub fn spots(tx: &[Tx]) -> Vec<usize> {
    let mut v = vec![];
    let mut at = 0;
    for b in tx_bytes(tx) {
        if !b.is_empty() {
            for k in 0..7 {
                v.push(at + k);
            }
            let e = at + b.len();
            for k in 0..4 {
                v.push(e.saturating_sub(k));
            }
            v.push(at + b.len() / 2);
            at = e;
        }
    }
    v.sort_unstable();
    v.dedup();
    v.retain(|x| *x <= at);
    v
}

pub fn gen_faults(r: &mut Rng, tx: &[Tx], upto: usize, max: usize) -> Vec<Fault> {
    let sp: Vec<usize> = spots(tx).into_iter().filter(|x| *x < upto).collect();
    if upto == 0 {
        return vec![];
    }
    // which kinds this run uses
    let mut w: Vec<usize> = (0..9).map(|_| if r.chance(1, 2) { r.range(1, 4) } else { 0 }).collect();
    if w.iter().all(|x| *x == 0) {
        w[r.below(9)] = 1;
    }
    let n = 1 + r.skewed(max - 1);
    (0..n)
        .map(|_| {
            let at = if !sp.is_empty() && r.chance(2, 3) { *r.pick(&sp) } else { r.below(upto) } as u32;
            let few = |r: &mut Rng| 1 + r.skewed(6) as u16;
            let kind = match r.weighted(&w) {
                0 => FaultKind::Flip { bit: r.below(8) as u8 },
                1 => FaultKind::Drop { n: if r.chance(3, 4) { few(r) } else { 1 + r.skewed(200) as u16 } },
                2 => FaultKind::Dup { n: few(r) + r.skewed(20) as u16 },
                3 => {
                    let b = match r.below(4) {
                        0 => vec![0xB5],
                        1 => vec![0xB5, 0x62],
                        2 => false_start(r),
                        _ => noise(r, false),
                    };
                    FaultKind::Ins { b: Hex(b) }
                },
                4 => FaultKind::Swap { n: few(r) },
                5 => FaultKind::Garble { n: 1 + r.skewed(80) as u16, x: r.u8() },
                6 => FaultKind::Reset { noise: Hex(if r.chance(1, 2) { vec![] } else { noise(r, false) }) },
                7 => FaultKind::Stall { us: r.skewed(3_000_000) as u32 },
                _ => FaultKind::Flip { bit: r.below(8) as u8 },
            };
            Fault { at, kind }
        })
        .collect()
}

fn early_mode(r: &mut Rng) -> Mode {
    match r.below(10) {
        0..=2 => Mode::Take { n: r.range(1, 3) as u8 },
        3..=4 => Mode::NoPoll,
        5..=6 => Mode::Panic { n: r.range(1, 3) as u8 },
        7 => Mode::DrainTwice,
        _ => Mode::Drain,
    }
}

/// How the host reads: cut positions near message boundaries, single bytes, chunks, polling, bursts.
pub fn gen_host(r: &mut Rng, tx: &[Tx], baud: u32, early: bool, restarts: bool) -> Vec<Host> {
    let total = total_len(tx);
    let mut v = vec![];
    let style = r.below(8);
    let per = 10_000_000 / u64::from(baud.max(300));
    let sp = spots(tx);
    let mut at = 0usize;
    let early_rate = if early { *r.pick(&[1usize, 2, 4, 8]) } else { 0 };
    let chunk = 1 + r.skewed(600);
    let mut guard = 0;
    while at < total && guard < 5000 {
        guard += 1;
        let m = if early && r.chance(early_rate, 8) {
            early_mode(r)
        } else if r.chance(1, 12) {
            Mode::DrainTwice
        } else {
            Mode::Drain
        };
        let n = match style {
            0 => 1,
            1 => r.range(1, 4),
            2 | 3 | 4 => {
                // next few spots
                let next: Vec<usize> = sp.iter().copied().filter(|s| *s > at).take(24).collect();
                if next.is_empty() {
                    total - at
                } else {
                    *r.pick(&next) - at
                }
            },
            5 => chunk,
            6 => 1 + r.skewed(total.max(2) - 1),
            _ => {
                // polling in time
                let dt = r.skewed((per as usize * 400).max(10)) as u32;
                let max = if r.chance(1, 4) { 1 + r.skewed(64) } else { 4096 } as u32;
                v.push(Host::Poll { dt, max, m });
                at += (u64::from(dt) / per.max(1)) as usize;
                if guard > 400 {
                    break;
                }
                continue;
            },
        };
        if r.chance(1, 25) {
            v.push(Host::Exact { n: 0, m });
        }
        if restarts && r.chance(1, 30) {
            v.push(Host::Restart);
        }
        if r.chance(1, 40) {
            v.push(Host::Poll { dt: r.skewed(500_000) as u32, max: 1 << 16, m: Mode::Drain });
        }
        v.push(Host::Exact { n: n as u32, m });
        at += n;
    }
    if style == 6 && r.chance(1, 2) {
        v.clear(); // one huge read
        v.push(Host::Exact { n: total as u32, m: Mode::Drain });
    }
    v
}

/// One run in this many carries a stream of 65 to 150 kB, taken in few large reads.
pub const LONG: usize = 4000;
fn long_host(r: &mut Rng, total: usize, early: bool) -> Vec<Host> {
    let mut v = vec![];
    let mut at = 0;
    let unpolled = early && r.chance(2, 3);
    while at < total {
        let n = match r.below(4) {
            0 => total - at,
            1 => r.range(65_530, 65_542),
            2 => r.range(1, 100_000),
            _ => r.range(1, 9000),
        }
        .min(total - at);
        at += n;
        // the application is busy elsewhere for most of the stream
        let m = if unpolled && at < total - total / 8 {
            Mode::NoPoll
        } else if early && r.chance(1, 3) {
            early_mode(r)
        } else {
            Mode::Drain
        };
        v.push(Host::Exact { n: n as u32, m });
    }
    v
}

pub fn gen_plan(r: &mut Rng, f: &Prof) -> Plan {
    let mut tx = gen_tx(r, f);
    let long = r.chance(1, LONG);
    if long {
        // more than any 16-bit offset can name
        let goal = r.range(65_000, 150_000);
        while total_len(&tx) < goal {
            tx.extend(gen_tx(r, &Prof { max_ops: 60, max_len: 3000, ..*f }));
            let k = r.below(tx.len());
            let again: Vec<Tx> = tx[k..].iter().take(200).cloned().collect();
            tx.extend(again);
        }
        tx.retain(|t| !matches!(t, Tx::Idle { .. }));
    }
    let total = total_len(&tx);
    let with_faults = f.faults == 2 || (f.faults == 1 && r.chance(1, 2));
    let faults = if with_faults { gen_faults(r, &tx, total, 6) } else { vec![] };
    let baud = *r.pick(&[4800u32, 9600, 38400, 115200, 460800, 921600]);
    let host = if long { long_host(r, total, f.early) } else { gen_host(r, &tx, baud, f.early, f.restarts) };
    let fifo = if long {
        None
    } else if f.fifo && r.chance(1, 5) { Some(*r.pick(&[16u32, 64, 128, 256, 4096])) } else { None };
    let buf = if f.prefill && r.chance(1, 12) {
        let b = match r.below(3) {
            0 => unknown_payload(r, 40),
            1 => false_start(r),
            _ => {
                let (_, c, i, p) = random_packet(r);
                let mut b = frame(c, i, &p);
                let k = r.range(0, b.len());
                b.truncate(k);
                b
            },
        };
        Buf::Prefilled { b: Hex(b) }
    } else {
        Buf::Vec
    };
    Plan { baud, fifo, buf, tx, faults, host }
}
pub fn fixed_size(r: &mut Rng, tx: &[Tx]) -> u32 {
    let lens: Vec<usize> = tx_bytes(tx).iter().map(|b| b.len()).filter(|l| *l > 0).collect();
    if lens.iter().sum::<usize>() > 60_000 && r.chance(2, 3) {
        return r.range(65_000, 140_000) as u32;
    }
    let n = match r.below(6) {
        0 => r.range(4, 12),
        1 => r.range(4, 64),
        2 if !lens.is_empty() => {
            // exactly the size of some message, or one off
            let l = *r.pick(&lens);
            (l + r.below(3)).saturating_sub(1)
        },
        3 => *r.pick(&[36usize, 64, 100, 128, 256]),
        4 => r.range(64, 600),
        _ => r.skewed(2000),
    };
    n.max(4) as u32
}

//! C12: positions, velocity and time derived from messages.
use crate::engine::{lib, Ctx, Sim, Tier, R};
use crate::ensure;
use crate::hex::Hex;
use crate::link::*;
use crate::linkgen;
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::convert::TryFrom;
use ublox::{CfgMsgSinglePort, CfgRate, DateTimeError, PacketRef, Position, PositionECEF, Velocity};

/// Every conversion an application can apply to a message.
pub fn derive(p: &PacketRef<'_>) {
    match p {
        PacketRef::NavPosLlh(x) => {
            std::hint::black_box(Position::from(x));
        },
        PacketRef::NavHpPosLlh(x) => {
            std::hint::black_box(Position::from(x));
        },
        PacketRef::NavHpPosEcef(x) => {
            std::hint::black_box(PositionECEF::from(x));
        },
        PacketRef::NavVelNed(x) => {
            std::hint::black_box(Velocity::from(x));
        },
        PacketRef::NavPvt(x) => {
            std::hint::black_box(Position::from(x));
            std::hint::black_box(Velocity::from(x));
            let _ = std::hint::black_box(chrono::DateTime::<chrono::Utc>::try_from(x));
        },
        PacketRef::AckAck(x) => {
            std::hint::black_box((x.is_ack_for::<CfgRate>(), x.is_ack_for::<CfgMsgSinglePort>()));
        },
        PacketRef::AckNak(x) => {
            std::hint::black_box((x.is_nak_for::<CfgRate>(), x.is_nak_for::<CfgMsgSinglePort>()));
        },
        _ => {},
    }
}

// ------------------------------------------------------------------ reference calendar
pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn month_len(y: i64, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => 28 + u32::from(leap(y)),
        _ => 0,
    }
}
/// Days from 1970-01-01.
pub fn days(y: i64, m: u32, d: u32) -> i64 {
    let before = |y: i64| 365 * y + (y + 3).div_euclid(4) - (y + 99).div_euclid(100) + (y + 399).div_euclid(400);
    let mut n = before(y) - before(1970);
    for k in 1..m {
        n += i64::from(month_len(y, k));
    }
    n + i64::from(d) - 1
}
/// (year, month, day, hour, minute, second) of a count of seconds from 1970.
pub fn civil(secs: i64) -> (i64, u32, u32, u32, u32, u32) {
    let mut dd = secs.div_euclid(86400);
    let s = secs.rem_euclid(86400) as u32;
    let mut y = 1970 + dd / 366 - 2;
    while days(y + 1, 1, 1) <= dd {
        y += 1;
    }
    dd -= days(y, 1, 1);
    let mut m = 1;
    while dd >= i64::from(month_len(y, m)) {
        dd -= i64::from(month_len(y, m));
        m += 1;
    }
    (y, m, dd as u32 + 1, s / 3600, s / 60 % 60, s % 60)
}

fn i8at(p: &[u8], o: usize) -> i64 {
    i64::from(p[o] as i8)
}
fn i32at(p: &[u8], o: usize) -> i64 {
    i64::from(i32::from_le_bytes([p[o], p[o + 1], p[o + 2], p[o + 3]]))
}
fn u32at(p: &[u8], o: usize) -> i64 {
    i64::from(u32::from_le_bytes([p[o], p[o + 1], p[o + 2], p[o + 3]]))
}

/// `v` counted in units of `unit` is what the receiver said; `got` may differ by a small part of a unit.
fn near(what: &str, got: f64, v: i64, per: f64, p: &[u8]) -> R {
    let want = v as f64 / per;
    let tol = 0.02 / per + want.abs() * 1e-14;
    ensure!(
        (got - want).abs() <= tol,
        "derived",
        "{} = {:?}, the receiver said {:?} (payload {})",
        what,
        got,
        want,
        crate::hex::enc(p)
    );
    Ok(())
}

/// What the library derives from a delivered message must be what its receiver meant.
pub fn check_derived(pk: &PacketRef<'_>, p: &[u8], x: &mut BTreeMap<&'static str, u64>) -> R {
    let mut hit = |k: &'static str| *x.entry(k).or_insert(0) += 1;
    match pk {
        PacketRef::NavPosLlh(m) => {
            let g = lib(|| Position::from(m));
            near("longitude", g.lon, i32at(p, 4), 1e7, p)?;
            near("latitude", g.lat, i32at(p, 8), 1e7, p)?;
            near("altitude", g.alt, i32at(p, 16), 1e3, p)?;
            hit("probe.position");
        },
        PacketRef::NavHpPosLlh(m) => {
            let g = lib(|| Position::from(m));
            near("longitude", g.lon, i32at(p, 8) * 100 + i8at(p, 24), 1e9, p)?;
            near("latitude", g.lat, i32at(p, 12) * 100 + i8at(p, 25), 1e9, p)?;
            near("altitude", g.alt, i32at(p, 20) * 10 + i8at(p, 27), 1e4, p)?;
            hit("probe.hp_position");
        },
        PacketRef::NavHpPosEcef(m) => {
            let g = lib(|| PositionECEF::from(m));
            near("x", g.x, i32at(p, 8) * 100 + i8at(p, 20), 1e4, p)?;
            near("y", g.y, i32at(p, 12) * 100 + i8at(p, 21), 1e4, p)?;
            near("z", g.z, i32at(p, 16) * 100 + i8at(p, 22), 1e4, p)?;
            hit("probe.hp_ecef");
        },
        PacketRef::NavVelNed(m) => {
            let g = lib(|| Velocity::from(m));
            near("speed", g.speed, u32at(p, 20), 1e2, p)?;
            near("heading", g.heading, i32at(p, 24), 1e5, p)?;
            hit("probe.velocity");
        },
        PacketRef::NavPvt(m) => {
            let g = lib(|| Position::from(m));
            near("longitude", g.lon, i32at(p, 24), 1e7, p)?;
            near("latitude", g.lat, i32at(p, 28), 1e7, p)?;
            near("altitude", g.alt, i32at(p, 36), 1e3, p)?;
            let g = lib(|| Velocity::from(m));
            near("speed", g.speed, i32at(p, 60), 1e3, p)?;
            near("heading", g.heading, i32at(p, 64), 1e5, p)?;
            let (y, mo, d) = (i64::from(p[4]) | i64::from(p[5]) << 8, u32::from(p[6]), u32::from(p[7]));
            let (h, mi, s) = (u32::from(p[8]), u32::from(p[9]), u32::from(p[10]));
            let ns = i32at(p, 16);
            let date_ok = d >= 1 && d <= month_len(y, mo);
            let time_ok = h < 24 && mi < 60 && s < 60;
            let leap_second = h == 23 && mi == 59 && s == 60;
            let ns_ok = ns.abs() < 1_000_000_000;
            let got = lib(|| chrono::DateTime::<chrono::Utc>::try_from(m));
            let show = || format!("{}-{}-{} {}:{}:{} {:+} ns", y, mo, d, h, mi, s, ns);
            match got {
                Ok(t) => {
                    ensure!(
                        date_ok && (time_ok || leap_second) && ns_ok,
                        "time-invented",
                        "{} does not exist and became {:?}",
                        show(),
                        t
                    );
                    let total = i128::from(days(y, mo, d) * 86400 + i64::from(h * 3600 + mi * 60 + s)) * 1_000_000_000
                        + i128::from(ns);
                    let g = i128::from(t.timestamp()) * 1_000_000_000 + i128::from(t.timestamp_subsec_nanos());
                    ensure!(
                        g == total || (leap_second && (g - total).abs() <= 1_000_000_000),
                        "time",
                        "{} became {:?}, {} ns off",
                        show(),
                        t,
                        g - total
                    );
                    hit("probe.time");
                    if ns < 0 {
                        hit("probe.time_negative_ns");
                        if s == 0 && mi == 0 && h == 0 {
                            hit("probe.time_crosses_day");
                            if d == 1 && mo == 1 {
                                hit("probe.time_crosses_year");
                            }
                        }
                    }
                },
                Err(e) => {
                    let truthful = match e {
                        DateTimeError::InvalidDate => !date_ok,
                        DateTimeError::InvalidTime => !time_ok,
                        DateTimeError::InvalidNanoseconds => !ns_ok,
                    };
                    ensure!(truthful, "time-error", "{} was reported as {:?}", show(), e);
                    let text = lib(|| e.to_string());
                    let names = match e {
                        DateTimeError::InvalidDate => "date",
                        DateTimeError::InvalidTime => "time",
                        DateTimeError::InvalidNanoseconds => "nano",
                    };
                    ensure!(text.to_lowercase().contains(names), "time-error", "{:?} is shown as {:?}", e, text);
                    hit("probe.time_rejected");
                },
            }
        },
        _ => {},
    }
    Ok(())
}

// ------------------------------------------------------------------ the receiver
/// State of a moving receiver: finest units of the protocol.
struct Truth {
    lon: i64, // 1e-9 degrees
    lat: i64,
    alt: i64,  // 0.1 mm above mean sea level
    sep: i64,  // 0.1 mm from there to the ellipsoid
    ecef: [i64; 3], // 0.1 mm
    speed: i64, // mm/s
    head: i64,  // 1e-5 degrees
    sec: i64,
    ns: i64,
}
/// v = coarse * 100 + fine, rounded the way a receiver might.
fn split(v: i64, k: i64, how: usize) -> (i64, i64) {
    match how {
        0 => (v / k, v % k),                     // towards zero
        1 => (v.div_euclid(k), v.rem_euclid(k)), // downwards
        _ => {
            let c = (v + k / 2).div_euclid(k);
            (c, v - c * k)
        },
    }
}
fn put(p: &mut [u8], o: usize, v: i64, w: usize) {
    p[o..o + w].copy_from_slice(&v.to_le_bytes()[..w]);
}
fn fit32(v: i64) -> i64 {
    v.clamp(i64::from(i32::MIN), i64::from(i32::MAX))
}
fn report(r: &mut Rng, t: &Truth, kind: usize) -> Tx {
    let how = r.below(3);
    let n = ["NavPosLlh", "NavHpPosLlh", "NavHpPosEcef", "NavVelNed", "NavPvt"][kind];
    let mut p = crate::frames::valid_payload(r, n);
    let (lo, la) = (split(t.lon, 100, how), split(t.lat, 100, how));
    let (hm, he) = (split(t.alt, 10, how), split(t.alt + t.sep, 10, how));
    match kind {
        0 => {
            put(&mut p, 4, lo.0, 4);
            put(&mut p, 8, la.0, 4);
            put(&mut p, 12, fit32(he.0), 4);
            put(&mut p, 16, fit32(hm.0), 4);
        },
        1 => {
            put(&mut p, 8, lo.0, 4);
            put(&mut p, 12, la.0, 4);
            put(&mut p, 16, fit32(he.0), 4);
            put(&mut p, 20, fit32(hm.0), 4);
            for (o, v) in [(24, lo.1), (25, la.1), (26, he.1), (27, hm.1)] {
                put(&mut p, o, v, 1);
            }
        },
        2 => {
            for k in 0..3 {
                let e = split(t.ecef[k], 100, how);
                put(&mut p, 8 + 4 * k, fit32(e.0), 4);
                put(&mut p, 20 + k, e.1, 1);
            }
        },
        3 => {
            put(&mut p, 20, t.speed / 10, 4);
            put(&mut p, 24, t.head, 4);
        },
        _ => {
            put(&mut p, 24, lo.0, 4);
            put(&mut p, 28, la.0, 4);
            put(&mut p, 32, fit32(he.0), 4);
            put(&mut p, 36, fit32(hm.0), 4);
            put(&mut p, 60, t.speed, 4);
            put(&mut p, 64, t.head, 4);
            // the receiver gives the second (rounded down, to the nearest, to 10 ms, up) and the rest
            let (mut s, mut ns) = (t.sec, t.ns);
            let up = match r.below(4) {
                0 => false,
                1 => ns >= 500_000_000,
                2 => ns >= 995_000_000,
                _ => ns > 0,
            };
            if up {
                s += 1;
                ns -= 1_000_000_000;
            }
            let (y, mo, d, h, mi, se) = civil(s);
            put(&mut p, 4, y, 2);
            for (o, v) in [(6, mo), (7, d), (8, h), (9, mi), (10, se)] {
                put(&mut p, o, i64::from(v), 1);
            }
            put(&mut p, 16, ns, 4);
            if r.chance(1, 6) {
                // the clock is not set yet: a part that does not exist, or just about does
                match r.below(9) {
                    0 => p[6] = *r.pick(&[0, 13, 255, 2]),
                    1 => p[7] = *r.pick(&[0, 29, 30, 31, 32, 255]),
                    2 => p[8] = *r.pick(&[24, 25, 255, 23]),
                    3 => p[9] = *r.pick(&[60, 61, 255, 59]),
                    4 => p[10] = *r.pick(&[60, 61, 62, 255, 59]),
                    5 => put(
                        &mut p,
                        16,
                        *r.pick(&[1_000_000_000, -1_000_000_000, 999_999_999, -999_999_999, i64::from(i32::MIN), i64::from(i32::MAX), -1, 0]),
                        4,
                    ),
                    6 => {
                        let v = i64::from(*r.pick(&[0u16, 1, 4, 100, 400, 1900, 2000, 2100, 9999, 65535]));
                        put(&mut p, 4, v, 2);
                        p[6] = 2;
                        p[7] = 29;
                    },
                    7 => {
                        p[8] = 23;
                        p[9] = 59;
                        p[10] = 60;
                    },
                    _ => {
                        let b = r.bytes(7);
                        p[4..11].copy_from_slice(&b);
                    },
                }
            }
        },
    }
    let d = &crate::refdec::spec().packets[n];
    Tx::Frame { c: d.cls, i: d.id, p: Hex(p) }
}

pub struct C12;
impl Sim for C12 {
    type Case = Plan;
    const ID: &'static str = "C12";
    const RULE: &'static str = "A run moves a receiver along a trajectory (across the equator, the meridians, the poles, sea level) with a clock that runs, jumps and drifts across second, minute, day, month and year boundaries and is now and then unset, and reports it over the simulated (sometimes faulty) link; non-trivial if at least one position, velocity or time was derived and compared. Oracle: integer arithmetic and an independent calendar.";
    const REAL: &'static [&'static str] = &["ublox::Parser", "Position, PositionECEF, Velocity and DateTime<Utc> conversions", "NavPosLlh, NavHpPosLlh, NavHpPosEcef, NavVelNed, NavPvt"];
    const STUB: &'static [&'static str] = &["receiver (trajectory and clock)", "serial line", "UART FIFO", "host read loop"];
    const ASSUME: &'static [&'static str] = &["a leap second (23:59:60) may be rejected or given as the neighbouring second"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 800_000 } else { 6_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Plan {
        let n = r.range(1, 12);
        let edge = |r: &mut Rng, vals: &[i64], span: i64| {
            if r.chance(1, 2) {
                *r.pick(vals) + r.below(400) as i64 - 200
            } else {
                (r.u64() % (2 * span as u64)) as i64 - span
            }
        };
        let secs = {
            let y = match r.below(6) {
                0 => *r.pick(&[0i64, 1, 1999, 2000, 2099, 2100, 9999, 65534]),
                1 => r.range(1, 65534) as i64,
                _ => r.range(1980, 2100) as i64,
            };
            let mo = r.range(1, 12) as u32;
            let at = match r.below(4) {
                0 => days(y, 1, 1) * 86400,
                1 => days(y, mo, 1) * 86400,
                2 => days(y, mo, 28) * 86400 + 86399,
                _ => days(y, mo, 1) * 86400 + r.below(28 * 86400) as i64,
            };
            at.max(days(0, 1, 1) * 86400)
        };
        let mut t = Truth {
            lon: edge(r, &[0, 179_999_999_900, -179_999_999_900, 7_000_000_000, -90_000_000_000], 180_000_000_000),
            lat: edge(r, &[0, 89_999_999_900, -89_999_999_900, 46_000_000_000], 90_000_000_000),
            alt: edge(r, &[0, 88_000_000, -4_000_000], 500_000_000),
            sep: (r.below(2_000_000)) as i64 - 1_000_000,
            ecef: [0; 3],
            speed: if r.chance(1, 8) { i64::from(i32::MAX) - 5000 } else { r.skewed(600_000) as i64 },
            head: edge(r, &[0, 35_999_900, 18_000_000], 36_000_000),
            sec: secs,
            ns: 0,
        };
        for k in 0..3 {
            t.ecef[k] = edge(r, &[0, 63_781_370_000, -63_781_370_000], 70_000_000_000);
        }
        t.ns = match r.below(5) {
            0 => 0,
            1 => r.below(6_000_000) as i64,
            2 => 999_999_999 - r.below(6_000_000) as i64,
            3 => *r.pick(&[1, 999_999_999, 500_000_000, 499_999_999]),
            _ => r.below(1_000_000_000) as i64,
        };
        let kinds: Vec<usize> = (0..5).map(|_| r.range(0, 4)).collect();
        let mut tx = vec![];
        let dt = *r.pick(&[0i64, 1, 50_000_000, 100_000_000, 1_000_000_000, 999_999_999]);
        for _ in 0..n {
            let k = if kinds.iter().sum::<usize>() == 0 { 4 } else { r.weighted(&kinds) };
            tx.push(report(r, &t, k));
            if r.chance(1, 8) {
                tx.push(Tx::Raw { b: Hex(linkgen::clean_raw(r)) });
            }
            // motion and clock
            let v = r.skewed(2000) as i64 - 1000;
            t.lon = (t.lon + v).clamp(-180_000_000_000, 180_000_000_000);
            t.lat = (t.lat - v * 2).clamp(-90_000_000_000, 90_000_000_000);
            t.alt += v % 50;
            for e in t.ecef.iter_mut() {
                *e -= v;
            }
            t.speed = (t.speed + v % 7).clamp(0, i64::from(i32::MAX));
            t.head = (t.head + v).rem_euclid(36_000_000);
            t.ns += dt + r.skewed(40) as i64;
            if r.chance(1, 12) {
                t.sec += r.skewed(40_000_000) as i64; // the clock is stepped
            }
            t.sec += t.ns.div_euclid(1_000_000_000);
            t.ns = t.ns.rem_euclid(1_000_000_000);
            t.sec = t.sec.clamp(days(0, 1, 1) * 86400, days(65535, 12, 30) * 86400);
        }
        let baud = *r.pick(&[9600u32, 115200]);
        let faults = if r.chance(1, 5) { linkgen::gen_faults(r, &tx, linkgen::total_len(&tx), 3) } else { vec![] };
        let host = linkgen::gen_host(r, &tx, baud, false, false);
        Plan { baud, fifo: None, buf: Buf::Vec, tx, faults, host }
    }
    fn run(p: &Plan, x: &mut Ctx) -> R {
        if !plan_ok(p) {
            return Ok(());
        }
        let incs = deliver(p, x);
        let mut seen = BTreeMap::new();
        execute(p, &incs, x, &mut |pk, it| match it {
            Item::Pkt { p, name, .. } if *name != "Unknown" => check_derived(pk, p, &mut seen),
            _ => Ok(()),
        })?;
        x.nontrivial = !seen.is_empty();
        for (k, v) in seen {
            x.count(k, v);
        }
        Ok(())
    }
}

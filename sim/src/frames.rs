//! Traffic generation: UBX messages (typed, near-typed, unknown), other protocols, noise.
use crate::refdec::{spec, Packet};
use crate::refparse::{fletcher, frame};
use crate::rng::Rng;

pub fn known_ids() -> Vec<(u8, u8)> {
    let s = spec();
    let mut v: Vec<(u8, u8)> = s.order.iter().map(|n| (s.packets[n].cls, s.packets[n].id)).collect();
    v.dedup();
    v
}

fn put(p: &mut [u8], off: usize, v: u64, w: usize) {
    for i in 0..w {
        p[off + i] = (v >> (8 * i)) as u8;
    }
}
pub fn text(r: &mut Rng, n: usize) -> Vec<u8> {
    let c: Vec<char> = "ABCXYZ0189 .;=-_()/äµ°Ж".chars().collect();
    let mut s = Vec::new();
    while s.len() < n {
        let mut b = [0u8; 4];
        let e = r.pick(&c).encode_utf8(&mut b).as_bytes().to_vec();
        if s.len() + e.len() > n {
            s.push(b'x');
        } else {
            s.extend(e);
        }
    }
    s
}
fn cstr(r: &mut Rng, n: usize) -> Vec<u8> {
    let k = r.range(0, n - 1);
    let mut s = text(r, k);
    s.push(0);
    while s.len() < n {
        s.push(if r.chance(1, 4) { r.u8() } else { 0 });
    }
    s
}

/// A payload that fits the description of packet `name` (restricted fields hold allowed values).
pub fn valid_payload(r: &mut Rng, name: &str) -> Vec<u8> {
    let s = spec();
    let d: &Packet = &s.packets[name];
    let mut p = vec![0u8; d.size];
    for f in &d.fields {
        if f.size == 0 {
            continue;
        }
        match f.map.as_deref() {
            Some("&str") => {
                let c = cstr(r, f.size);
                p[f.off..f.off + f.size].copy_from_slice(&c);
            },
            Some("UartMode") => {
                let db = r.range(2, 3) as u64;
                let par = *r.pick(&[0u64, 1, 4, 5]);
                let st = r.below(4) as u64;
                let other = r.edgy(4) & !((3 << 6) | (7 << 9) | (3 << 12));
                put(&mut p, f.off, other | db << 6 | par << 9 | st << 12, 4);
            },
            Some(m) if f.may_fail && s.enums.contains_key(m) => {
                let e = &s.enums[m];
                let v = r.pick(&e.vals).1;
                put(&mut p, f.off, v, f.size);
            },
            Some(m) if s.enums.contains_key(m) => {
                let e = &s.enums[m];
                let v = if r.chance(2, 3) { r.pick(&e.vals).1 } else { u64::from(r.u8()) };
                put(&mut p, f.off, v, f.size);
            },
            _ if f.ty == "bytes" => {
                let x = if r.chance(1, 2) { vec![0; f.size] } else { r.bytes(f.size) };
                p[f.off..f.off + f.size].copy_from_slice(&x);
            },
            _ if f.ty == "f64" => {
                let v = match r.below(4) {
                    0 => r.u64(),
                    1 => (r.below(604_800_000) as f64 / 1000.0).to_bits(),
                    2 => (-(r.below(1_000_000) as f64) * 1.25).to_bits(),
                    _ => *r.pick(&[0, 1u64 << 63, f64::NAN.to_bits(), f64::INFINITY.to_bits(), 1]),
                };
                put(&mut p, f.off, v, 8);
            },
            _ => {
                let v = r.edgy(f.size);
                put(&mut p, f.off, v, f.size);
            },
        }
    }
    let many = r.chance(1, 30);
    let blocks = |r: &mut Rng| match r.below(5) {
        _ if many => r.range(15, 255),
        0 => 0,
        1 => 1,
        _ => r.skewed(14),
    };
    match name {
        "NavSat" => {
            let n = blocks(r);
            p[5] = n as u8;
            p.extend(r.bytes(12 * n));
        },
        "RxmRawx" => {
            let n = if r.chance(1, 40) { 255 } else { blocks(r) };
            p[11] = n as u8;
            for _ in 0..n {
                let b = valid_payload(r, "RxmRawxInfo");
                p.extend(b);
            }
        },
        "MonVer" => {
            let n = if many { r.range(9, 272) } else { r.skewed(8) };
            for _ in 0..n {
                let c = cstr(r, 30);
                p.extend(c);
            }
        },
        "EsfMeas" => {
            let n = r.skewed(31) as u64;
            let calib = r.chance(1, 2);
            let fl = (r.u64() & 0x07F7) | n << 11 | if calib { 8 } else { 0 };
            put(&mut p, 4, fl, 2);
            let mut len = n as usize * 4 + if calib { 4 } else { 0 };
            if r.chance(1, 8) {
                len += 4 * r.range(1, 3); // more bytes than announced: still a message of that type
            }
            p.extend(r.bytes(len));
        },
        "EsfRaw" => {
            let n = blocks(r);
            p.extend(r.bytes(8 * n));
        },
        "RxmSfrbx" => {
            let n = if many { r.range(17, 255) } else { r.skewed(16) };
            p[4] = n as u8;
            p.extend(r.bytes(4 * n));
        },
        x if x.starts_with("Inf") => {
            let n = if many { r.range(121, 8176) } else { r.skewed(120) };
            p = if r.chance(3, 4) { text(r, n) } else { r.bytes(n) };
        },
        _ => {},
    }
    p
}

pub fn random_packet(r: &mut Rng) -> (String, u8, u8, Vec<u8>) {
    let s = spec();
    let n = r.pick(&s.order).clone();
    let p = valid_payload(r, &n);
    let d = &s.packets[&n];
    (n, d.cls, d.id, p)
}

/// A payload for a known class/id that misses its description (length or restricted value) or hits it by luck.
pub fn near_payload(r: &mut Rng) -> (u8, u8, Vec<u8>) {
    let s = spec();
    let n = r.pick(&s.order).clone();
    let d = &s.packets[&n];
    let mut p = valid_payload(r, &n);
    match r.below(8) {
        7 if !p.is_empty() => {
            // a stretch of one value, in a list of strings one whole string
            let strings = n == "MonVer" && p.len() > 40;
            let (at, k) = if strings && r.chance(3, 4) {
                (40 + 30 * r.below((p.len() - 40) / 30), 30)
            } else {
                (r.below(p.len()), r.range(1, 40))
            };
            let k = if r.chance(1, 3) { 1 } else { k.min(p.len() - at) };
            let v = *r.pick(&[b'A', 0xFF, 0x80, 0xC3, 0]);
            p[at..at + k].fill(v);
        },
        0 => {
            p.pop();
        },
        1 => p.push(r.u8()),
        2 => {
            let k = r.range(0, p.len());
            p.truncate(k);
        },
        3 => {
            let k = r.skewed(64);
            p.extend(r.bytes(k));
        },
        4 => {
            // arbitrary contents of the right length
            let k = p.len();
            p = r.bytes(k);
        },
        5 => {
            // one restricted field gets a random value
            let fs: Vec<_> =
                d.fields.iter().filter(|f| f.size > 0 && (f.may_fail || f.map.as_deref() == Some("UartMode"))).collect();
            if !fs.is_empty() {
                let f = *r.pick(&fs);
                match r.below(3) {
                    0 => {
                        for i in 0..f.size {
                            p[f.off + i] = r.u8();
                        }
                    },
                    1 => p[f.off] = p[f.off].wrapping_add(1),
                    _ => {
                        for i in 0..f.size {
                            p[f.off + i] = b'A';
                        }
                    },
                }
            }
        },
        _ => {
            // the payload of another message under this class and id
            let (_, _, _, q) = random_packet(r);
            p = q;
        },
    }
    (d.cls, d.id, p)
}

/// Payload of an unknown message, with bodies that are hostile to resynchronisation.
pub fn unknown_payload(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(10) {
        0 => 0,
        1..=5 => r.skewed(40),
        6..=8 => r.skewed(300),
        _ => r.skewed(2000),
    }
    .min(max);
    match r.below(6) {
        0 => vec![0xB5; n],
        1 => (0..n).map(|i| if i % 2 == 0 { 0xB5 } else { 0x62 }).collect(),
        2 => (0..n).map(|_| *r.pick(&[0xB5u8, 0x62, 0, 1, 0xFF, 5])).collect(),
        3 => {
            // contains complete frames
            let mut p = Vec::new();
            while p.len() < n {
                let k = r.skewed(12);
                let (a, b) = (r.u8(), r.u8());
                let q = r.bytes(k);
                p.extend(frame(a, b, &q));
            }
            p.truncate(n);
            p
        },
        _ => r.bytes(n),
    }
}

pub fn nmea(r: &mut Rng) -> Vec<u8> {
    let body = format!(
        "GNGGA,{:02}{:02}{:02}.{:02},{:09.4},N,{:010.4},E,{},{:02},1.0,{}.{},M,46.9,M,,",
        r.below(24),
        r.below(60),
        r.below(60),
        r.below(100),
        r.below(9_000_0000) as f64 / 1e4,
        r.below(18_000_0000) as f64 / 1e4,
        r.below(6),
        r.below(20),
        r.below(3000),
        r.below(10)
    );
    let ck = body.bytes().fold(0u8, |a, b| a ^ b);
    format!("${}*{:02X}\r\n", body, ck).into_bytes()
}
pub fn rtcm3(r: &mut Rng, clean: bool) -> Vec<u8> {
    let n = r.skewed(120);
    let mut b = vec![0xD3, (n >> 8) as u8, n as u8];
    b.extend(r.bytes(n + 3));
    if clean {
        for x in b.iter_mut() {
            if *x == 0xB5 {
                *x = 0x35;
            }
        }
    }
    b
}
/// Noise; `clean` noise contains no first sync character.
pub fn noise(r: &mut Rng, clean: bool) -> Vec<u8> {
    let n = r.skewed(60).max(1);
    let mut v: Vec<u8> = match r.below(5) {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        2 if !clean => (0..n).map(|_| *r.pick(&[0xB5u8, 0x62, 0xB5, 0, 4])).collect(),
        _ => r.bytes(n),
    };
    if clean {
        for x in v.iter_mut() {
            if *x == 0xB5 {
                *x = 0x62;
            }
        }
    }
    v
}
/// Beginnings of messages that never come: headers announcing `0..=65535` bytes, cut anywhere.
pub fn false_start(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(5) {
        0 => r.range(0, 20),
        1 => r.skewed(8176),
        2 => r.range(8170, 8184),
        3 => r.range(8177, 65535),
        _ => r.skewed(600),
    };
    let mut v = vec![0xB5, 0x62, r.u8(), r.u8(), n as u8, (n >> 8) as u8];
    if r.chance(1, 3) {
        let k = r.range(1, 5);
        v.truncate(k);
    } else {
        let k = r.skewed(n.min(60));
        v.extend(r.bytes(k));
    }
    v
}
/// A frame with its checksum (or some content) wrong.
pub fn bad_frame(r: &mut Rng) -> Vec<u8> {
    let p = unknown_payload(r, 300);
    let mut f = frame(r.u8(), r.u8(), &p);
    let n = f.len();
    match r.below(6) {
        0 => f[n - 1] ^= 1 << r.below(8),
        1 => f[n - 2] ^= 1 << r.below(8),
        2 => {
            // checksum bytes exchanged
            f.swap(n - 1, n - 2);
        },
        3 => {
            f[n - 2] = 0xB5;
            f[n - 1] = 0x62;
        },
        4 if n > 8 => {
            let k = r.range(6, n - 3);
            f[k] ^= 1 << r.below(8);
        },
        _ => {
            let (a, b) = fletcher(&f[2..n - 2]);
            f[n - 2] = !a;
            f[n - 1] = b;
        },
    }
    f
}

//! Commands as plain data: how an application builds them with the library, and what must be on the wire.
use crate::engine::{lib, R};
use crate::gen_cmd::*;
use crate::hex::Hex;
use crate::refdec::{spec, Field};
use crate::refparse::unframe;
use crate::rng::Rng;
use crate::{bail, ensure, with_builder, with_default, with_meta};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use ublox::cfg_val::CfgVal;
use ublox::*;

/// A value an application gives to one field.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum V {
    /// integers, flag bits, enumerations by their documented number
    N(i64),
    F(f64),
    B(Hex),
}
pub type Vals = BTreeMap<String, Option<V>>;

pub fn num(v: &Option<V>) -> i64 {
    match v {
        Some(V::N(n)) => *n,
        Some(V::F(f)) => *f as i64,
        _ => 0,
    }
}
/// Values beyond 1e300 stand for infinity (which JSON cannot hold).
pub fn flt(v: &Option<V>) -> f64 {
    match v {
        Some(V::F(f)) if *f > 1e300 => f64::INFINITY,
        Some(V::F(f)) if *f < -1e300 => f64::NEG_INFINITY,
        Some(V::F(f)) => *f,
        Some(V::N(n)) => *n as f64,
        _ => 0.0,
    }
}
pub fn bytes_of<const N: usize>(v: &Option<V>) -> [u8; N] {
    let mut a = [0u8; N];
    if let Some(V::B(h)) = v {
        for (d, s) in a.iter_mut().zip(&h.0) {
            *d = *s;
        }
    }
    a
}
/// Nearest thing the command can express to the wire word `w`.
pub fn canon_uart(w: i64) -> u32 {
    let w = w as u32;
    let db = if (w >> 6) & 3 == 3 { 3 } else { 2 };
    let par = match (w >> 9) & 7 {
        0 => 0,
        1 => 1,
        _ => 4,
    };
    db << 6 | par << 9 | ((w >> 12) & 3) << 12
}
pub fn uart_mode(w: i64) -> UartMode {
    let w = canon_uart(w);
    UartMode::new(
        if (w >> 6) & 3 == 3 { DataBits::Eight } else { DataBits::Seven },
        match (w >> 9) & 7 {
            0 => Parity::Even,
            1 => Parity::Odd,
            _ => Parity::None,
        },
        match (w >> 12) & 3 {
            0 => StopBits::One,
            1 => StopBits::OneHalf,
            2 => StopBits::Two,
            _ => StopBits::Half,
        },
    )
}
const ALGO: u32 = 0x16B156;
const GENERAL: u32 = 0x31E;
pub fn itfm(w: i64) -> CfgItfmConfig {
    let w = w as u32;
    let (en, bb, cw, al) = (w >> 31 == 1, w & 15, (w >> 4) & 31, (w >> 9) & 0x3F_FFFF);
    if al == ALGO {
        return CfgItfmConfig::new(en, bb, cw);
    }
    #[cfg(feature = "lite")]
    return CfgItfmConfig::default();
    #[cfg(not(feature = "lite"))]
    serde_json::from_value(serde_json::json!({"enable": en, "bb_threshold": bb, "cw_threshold": cw, "algorithm_bits": al}))
        .unwrap_or_default()
}
pub fn canon_itfm2(w: i64) -> u32 {
    let w = w as u32;
    let ant = if (w >> 12) & 3 == 3 { 0 } else { (w >> 12) & 3 };
    w & 0xFFF | ant << 12 | w & 0x4000
}
pub fn itfm2(w: i64) -> CfgItfmConfig2 {
    let w = canon_itfm2(w);
    let (ge, an, aux) = (w & 0xFFF, (w >> 12) & 3, w & 0x4000 != 0);
    if ge == GENERAL {
        return CfgItfmConfig2::new(en_CfgItfmAntennaSettings(i64::from(an)), aux);
    }
    let name = ["Unknown", "Active", "Passive"][an as usize % 3];
    #[cfg(feature = "lite")]
    return {
        let _ = name;
        CfgItfmConfig2::new(en_CfgItfmAntennaSettings(i64::from(an)), aux)
    };
    #[cfg(not(feature = "lite"))]
    serde_json::from_value(serde_json::json!({"general": ge, "antenna": name, "scan_aux_bands": aux}))
        .unwrap_or_else(|_| CfgItfmConfig2::new(en_CfgItfmAntennaSettings(i64::from(an)), aux))
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct KV {
    pub key: u32,
    pub raw: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Cmd {
    Msg { k: String, v: Vals },
    /// the builder's defaults with some fields set
    Dflt { k: String, v: Vals },
    ValSet { version: u8, layers: u8, reserved: u16, items: Vec<KV> },
    /// poll request by type
    Poll { k: String },
    PollId { c: u8, i: u8 },
    /// message rate by type, on this port or on all six
    Rate { k: String, rates: Hex },
    /// reset with one of the predefined masks
    Rst { mask: u8, mode: u8 },
}

// ------------------------------------------------------------------ reference encoding
/// Bytes of a configuration value by what its key prescribes.
pub fn key_size(key: u32) -> usize {
    match key >> 28 {
        1 | 2 => 1,
        3 => 2,
        4 => 4,
        5 => 8,
        _ => 0,
    }
}
pub fn key_kind(key: u32) -> &'static str {
    KEYS.iter().find(|k| k.0 == key).map(|k| k.1).unwrap_or("")
}
/// The value an application can actually ask for.
pub fn canon(key: u32, raw: u64) -> u64 {
    match key_kind(key) {
        "bool" | "DataBits" | "TpPulse" | "TpPulseLength" => raw & 1,
        "Parity" => raw % 3,
        "StopBits" => raw & 3,
        "AlignmentToReferenceTime" => raw % 5,
        _ if key_size(key) >= 8 => raw,
        _ => raw & ((1u64 << (8 * key_size(key))) - 1),
    }
}
pub fn item_bytes(kv: &KV) -> Vec<u8> {
    let mut b = kv.key.to_le_bytes().to_vec();
    b.extend(&canon(kv.key, kv.raw).to_le_bytes()[..key_size(kv.key)]);
    b
}
pub fn known(items: &[KV]) -> Vec<KV> {
    items.iter().filter(|i| !key_kind(i.key).is_empty()).cloned().collect()
}

enum Want {
    Bytes(Vec<u8>),
    /// value, size of a wire unit, whether the wire is signed, single precision
    Near(f64, f64, bool),
}
fn want(f: &Field, v: &Option<V>) -> Want {
    let s = spec();
    let le = |n: u64| Want::Bytes(n.to_le_bytes()[..f.size].to_vec());
    match f.map.as_deref() {
        Some("f32") => Want::Near(f64::from(flt(v) as f32), f.scale.unwrap_or(1.0), f.ty.starts_with('i')),
        Some("f64") => Want::Near(flt(v), f.scale.unwrap_or(1.0), f.ty.starts_with('i')),
        Some("UartMode") => le(u64::from(canon_uart(num(v)))),
        Some("CfgItfmConfig2") => le(u64::from(canon_itfm2(num(v)))),
        Some(m) if s.enums.contains_key(m) => {
            let e = &s.enums[m];
            let n = num(v) as u64;
            le(if e.vals.iter().any(|x| x.1 == n) { n } else { e.vals[0].1 })
        },
        _ if f.ty == "bytes" => {
            let mut b = match v {
                Some(V::B(h)) => h.0.clone(),
                _ => vec![],
            };
            b.resize(f.size, 0);
            Want::Bytes(b)
        },
        _ => le(num(v) as u64),
    }
}
fn wire(p: &[u8], signed: bool) -> i64 {
    let mut n = 0i64;
    for (i, b) in p.iter().enumerate() {
        n |= i64::from(*b) << (8 * i);
    }
    let bits = 8 * p.len() as u32;
    if signed && bits < 64 && n >> (bits - 1) == 1 {
        n -= 1 << bits;
    }
    n
}
/// Nearest wire unit, clamped to the field's range.
pub fn near_unit(p: &[u8], x: f64, unit: f64, signed: bool) -> Result<(), String> {
    let bits = 8 * p.len() as i32;
    let (lo, hi) = if signed {
        (-(2f64.powi(bits - 1)), 2f64.powi(bits - 1) - 1.0)
    } else {
        (0.0, 2f64.powi(bits) - 1.0)
    };
    let w = wire(p, signed) as f64;
    let t = x / unit;
    let ok = if t <= lo - 0.51 {
        w == lo
    } else if t >= hi + 0.51 {
        w == hi
    } else {
        (w - t).abs() <= 0.51
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{} wire units for {:?} (a unit is {})", w, x, unit))
    }
}

/// Does the wire word `got` carry the setting `x`?
pub fn check_field(f: &Field, x: &Option<V>, got: &[u8]) -> Result<(), String> {
    match want(f, x) {
        Want::Bytes(w) if got == &w[..] => Ok(()),
        Want::Bytes(w) => Err(format!("{} instead of {}", crate::hex::enc(got), crate::hex::enc(&w))),
        Want::Near(t, unit, signed) => near_unit(got, t, unit, signed),
    }
}

impl Cmd {
    pub fn class_id(&self) -> (u8, u8) {
        match self {
            Cmd::Msg { k, .. } | Cmd::Dflt { k, .. } | Cmd::Poll { k } => match spec().packets.get(k) {
                Some(p) => (p.cls, p.id),
                None => (0, 0),
            },
            Cmd::ValSet { .. } => (0x06, 0x8A),
            Cmd::PollId { c, i } => (*c, *i),
            Cmd::Rate { .. } => (0x06, 0x01),
            Cmd::Rst { .. } => (0x06, 0x04),
        }
    }
    /// Whether the command makes sense (a minimised case may not).
    pub fn ok(&self) -> bool {
        match self {
            Cmd::Msg { k, .. } => COMMANDS.contains(&k.as_str()),
            Cmd::Dflt { k, .. } => DEFAULTED.contains(&k.as_str()),
            Cmd::Poll { k } => META.contains(&k.as_str()),
            Cmd::Rate { k, rates } => META.contains(&k.as_str()) && matches!(rates.0.len(), 1 | 6),
            Cmd::ValSet { items, .. } => items.len() <= 64,
            _ => true,
        }
    }
    pub fn name(&self) -> String {
        match self {
            Cmd::Msg { k, .. } => k.clone(),
            Cmd::Dflt { k, .. } => format!("default {}", k),
            Cmd::ValSet { items, .. } => format!("CfgValSet of {} items", items.len()),
            Cmd::Poll { k } => format!("poll {}", k),
            Cmd::PollId { c, i } => format!("poll {:02x} {:02x}", c, i),
            Cmd::Rate { k, rates } => format!("rates {:?} for {}", rates, k),
            Cmd::Rst { mask, mode } => format!("CfgRst {} {}", mask, mode),
        }
    }

    /// Is `f` the one frame a receiver must get for this command?
    pub fn check_frame(&self, f: &[u8]) -> R {
        let Some((c, i, p)) = unframe(f) else {
            bail!("malformed", "{} gave {}, which is not a well-formed frame", self.name(), crate::hex::enc(&f[..f.len().min(120)]))
        };
        let (wc, wi) = self.class_id();
        ensure!((c, i) == (wc, wi), "wrong-id", "{} has class {:02x} id {:02x} instead of {:02x} {:02x}", self.name(), c, i, wc, wi);
        let exact = |w: &[u8]| -> R {
            ensure!(p == w, "wrong-payload", "{} has payload {} instead of {}", self.name(), crate::hex::enc(p), crate::hex::enc(w));
            Ok(())
        };
        match self {
            Cmd::Poll { .. } | Cmd::PollId { .. } => exact(&[]),
            Cmd::ValSet { version, layers, reserved, items } => {
                let mut w = vec![*version, *layers, *reserved as u8, (*reserved >> 8) as u8];
                for it in known(items) {
                    w.extend(item_bytes(&it));
                }
                exact(&w)
            },
            Cmd::Rate { k, rates } => {
                let d = &spec().packets[k];
                let mut w = vec![d.cls, d.id];
                w.extend(&rates.0);
                exact(&w)
            },
            Cmd::Rst { mask, mode } => {
                let m: u16 = [0, 1, 0xFFFF][*mask as usize % 3];
                let e = &spec().enums["ResetMode"].vals;
                exact(&[m as u8, (m >> 8) as u8, e[*mode as usize % e.len()].1 as u8, 0])
            },
            Cmd::Msg { k, v } | Cmd::Dflt { k, v } => {
                let d = &spec().packets[k];
                ensure!(
                    Some(p.len()) == d.fixed,
                    "wrong-length",
                    "{} has {} payload bytes instead of {:?}",
                    k,
                    p.len(),
                    d.fixed
                );
                for f in &d.fields {
                    let got = &p[f.off..f.off + f.size];
                    let mut x = v.get(f.acc()).cloned().flatten();
                    if x.is_none() && matches!(self, Cmd::Dflt { .. }) {
                        x = DEFAULTS.iter().find(|d| d.0 == k && d.1 == f.acc()).map(|d| V::N(d.2));
                    }
                    if let Err(e) = check_field(f, &x, got) {
                        bail!("wrong-value", "{}.{} set to {:?} is on the wire as {}", k, f.acc(), x, e);
                    }
                }
                Ok(())
            },
        }
    }

    pub fn cfg_vals(items: &[KV]) -> Vec<CfgVal> {
        items.iter().filter_map(|kv| cv_make(kv.key, canon(kv.key, kv.raw))).collect()
    }

    /// The frame as a fixed-size array or vector, through every offered conversion.
    pub fn forms(&self) -> Vec<(&'static str, Vec<u8>)> {
        let mut out: Vec<(&'static str, Vec<u8>)> = vec![];
        match self {
            Cmd::Msg { k, v } => {
                let get = |n: &str| v.get(n).cloned().flatten();
                with_builder!(k.as_str(), &get, b => out.push(("into_packet_bytes", lib(|| b.into_packet_bytes()).to_vec())), ());
                with_builder!(k.as_str(), &get, b => out.push(("From", lib(|| b.arr()))), ());
            },
            Cmd::Dflt { k, v } => {
                with_default!(k.as_str(), v, b => out.push(("into_packet_bytes", lib(|| b.into_packet_bytes()).to_vec())), ());
                with_default!(k.as_str(), v, b => out.push(("From", lib(|| b.arr()))), ());
            },
            Cmd::ValSet { version, layers, reserved, items } => {
                let cv = Cmd::cfg_vals(items);
                #[cfg(feature = "lite")]
                {
                    let mut v = vec![];
                    lib(|| valset(*version, *layers, *reserved, &cv).extend_to(&mut v));
                    out.push(("extend_to", v));
                }
                #[cfg(not(feature = "lite"))]
                out.push(("into_packet_vec", lib(|| valset(*version, *layers, *reserved, &cv).into_packet_vec())));
            },
            Cmd::Poll { k } => {
                with_meta!(k.as_str(), T => out.push(("request_for", lib(|| UbxPacketRequest::request_for::<T>().into_packet_bytes()).to_vec())), ());
                let (c, i) = self.class_id();
                out.push(("request_for_unknown", lib(|| UbxPacketRequest::request_for_unknown(c, i).into_packet_bytes()).to_vec()));
            },
            Cmd::PollId { c, i } => {
                out.push(("request_for_unknown", lib(|| UbxPacketRequest::request_for_unknown(*c, *i).into_packet_bytes()).to_vec()));
            },
            Cmd::Rate { k, rates } => {
                let r = &rates.0;
                if r.len() == 6 {
                    let a = [r[0], r[1], r[2], r[3], r[4], r[5]];
                    with_meta!(k.as_str(), T => out.push(("set_rate_for", lib(|| CfgMsgAllPortsBuilder::set_rate_for::<T>(a).into_packet_bytes()).to_vec())), ());
                } else if let [r] = r[..] {
                    with_meta!(k.as_str(), T => out.push(("set_rate_for", lib(|| CfgMsgSinglePortBuilder::set_rate_for::<T>(r).into_packet_bytes()).to_vec())), ());
                }
            },
            Cmd::Rst { .. } => out.push(("predefined mask", lib(|| self.rst().into_packet_bytes()).to_vec())),
        }
        out
    }
    fn rst(&self) -> CfgRstBuilder {
        let Cmd::Rst { mask, mode } = self else { unreachable!() };
        let e = &spec().enums["ResetMode"].vals;
        CfgRstBuilder {
            nav_bbr_mask: [NavBbrPredefinedMask::HOT_START, NavBbrPredefinedMask::WARM_START, NavBbrPredefinedMask::COLD_START]
                [*mask as usize % 3]
                .into(),
            reset_mode: en_ResetMode(e[*mode as usize % e.len()].1 as i64),
            reserved1: 0,
        }
    }
    /// Through a caller-supplied sink, if the command offers that.
    pub fn write_to<W: MemWriter>(&self, w: &mut W) -> Option<Result<(), MemWriterError<W::Error>>> {
        match self {
            Cmd::Msg { k, v } => {
                let get = |n: &str| v.get(n).cloned().flatten();
                with_builder!(k.as_str(), &get, b => Some(lib(|| b.create_packet(w))), None)
            },
            Cmd::Dflt { k, v } => with_default!(k.as_str(), v, b => Some(lib(|| b.create_packet(w))), None),
            Cmd::Rate { k, rates } => {
                let r = &rates.0;
                if r.len() == 6 {
                    let a = [r[0], r[1], r[2], r[3], r[4], r[5]];
                    with_meta!(k.as_str(), T => Some(lib(|| CfgMsgAllPortsBuilder::set_rate_for::<T>(a).create_packet(w))), None)
                } else if let [r] = r[..] {
                    with_meta!(k.as_str(), T => Some(lib(|| CfgMsgSinglePortBuilder::set_rate_for::<T>(r).create_packet(w))), None)
                } else {
                    None
                }
            },
            Cmd::Rst { .. } => Some(lib(|| self.rst().create_packet(w))),
            _ => None,
        }
    }
    /// Appended to a growing byte container, if the command offers that.
    pub fn extend_to<T: Extend<u8> + std::ops::DerefMut<Target = [u8]>>(&self, out: &mut T) -> bool {
        match self {
            Cmd::ValSet { version, layers, reserved, items } => {
                let cv = Cmd::cfg_vals(items);
                lib(|| valset(*version, *layers, *reserved, &cv).extend_to(out));
                true
            },
            _ => false,
        }
    }
}
/// `Into<[u8; N]>` without naming the length.
pub trait ToArr {
    fn arr(self) -> Vec<u8>;
}
fn valset<'a>(version: u8, layers: u8, reserved: u16, cv: &'a [CfgVal]) -> CfgValSetBuilder<'a> {
    // all layers is the default
    let layers = if layers == 7 && version & 1 == 0 { CfgLayer::default() } else { crate::gen_cmd::fl_CfgLayer(layers) };
    CfgValSetBuilder { version, layers, reserved1: reserved, cfg_data: cv }
}

// ------------------------------------------------------------------ generation
pub fn gen_val(r: &mut Rng, f: &Field) -> V {
    let s = spec();
    match f.map.as_deref() {
        Some("f32") | Some("f64") => {
            let unit = f.scale.unwrap_or(1.0);
            let bits = 8 * f.size as i32;
            let signed = f.ty.starts_with('i');
            let (lo, hi) =
                if signed { (-(2f64.powi(bits - 1)), 2f64.powi(bits - 1) - 1.0) } else { (0.0, 2f64.powi(bits) - 1.0) };
            let frac = *r.pick(&[0.0, 0.25, 0.49, 0.5, 0.51, 0.75, 0.999]);
            V::F(match r.below(9) {
                0 => (lo + r.below(3) as f64 - frac) * unit,
                1 => (hi - r.below(3) as f64 + frac) * unit,
                2 => *r.pick(&[0.0, -0.0, 1e-12, -1e-12, 1e15, -1e15, 1.5e300, -1.5e300]),
                3 => -(r.skewed(100_000) as f64 + frac) * unit,
                4 => (r.skewed(100_000) as f64 + frac) * unit,
                _ => (lo + (hi - lo) * r.unit()) * unit,
            })
        },
        Some("UartMode") => V::N(i64::from(canon_uart(r.edgy(4) as i64))),
        Some("CfgItfmConfig") => {
            let w = r.edgy(4) as u32;
            V::N(i64::from(if r.chance(1, 2) { w & !(0x3F_FFFF << 9) | ALGO << 9 } else { w }))
        },
        Some("CfgItfmConfig2") => {
            let w = r.edgy(4) as u32;
            let w = if r.chance(1, 2) { w & !0xFFF | GENERAL } else { w };
            V::N(i64::from(canon_itfm2(i64::from(w))))
        },
        Some(m) if s.enums.contains_key(m) => V::N(r.pick(&s.enums[m].vals).1 as i64),
        _ if f.ty == "bytes" => V::B(Hex(r.bytes(f.size))),
        _ => {
            let n = r.edgy(f.size);
            V::N(if f.ty.starts_with('i') { wire(&n.to_le_bytes()[..f.size], true) } else { n as i64 })
        },
    }
}
pub fn gen_items(r: &mut Rng, max: usize) -> Vec<KV> {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => max,
        _ => r.skewed(max),
    };
    (0..n)
        .map(|_| {
            // kinds of values evenly, not keys
            let kind = *r.pick(&[
                "u8", "bool", "u64", "CfgInfMask", "u32", "u16", "StopBits", "DataBits", "Parity", "AlignmentToReferenceTime",
                "TpPulse", "TpPulseLength", "i16",
            ]);
            let key = if r.chance(1, 3) {
                r.pick(KEYS).0
            } else {
                let of: Vec<u32> = KEYS.iter().filter(|k| k.1 == kind).map(|k| k.0).collect();
                *r.pick(&of)
            };
            KV { key, raw: canon(key, r.edgy(8)) }
        })
        .collect()
}
pub fn gen_msg(r: &mut Rng, k: &str) -> Cmd {
    let d = &spec().packets[k];
    let sparse = r.chance(1, 4);
    let mut v = Vals::new();
    for f in &d.fields {
        if !sparse || r.chance(1, 3) {
            v.insert(f.acc().to_string(), Some(gen_val(r, f)));
        }
    }
    if v.len() < d.fields.len() && DEFAULTED.contains(&k) && r.chance(2, 3) {
        return Cmd::Dflt { k: k.to_string(), v };
    }
    Cmd::Msg { k: k.to_string(), v }
}
pub fn gen_cmd(r: &mut Rng) -> Cmd {
    match r.below(12) {
        0 | 1 => Cmd::ValSet {
            version: r.u8(),
            layers: if r.chance(1, 2) { r.range(0, 7) as u8 } else { r.u8() },
            reserved: if r.chance(1, 2) { 0 } else { r.edgy(2) as u16 },
            items: gen_items(r, 64),
        },
        2 => Cmd::Poll { k: r.pick(META).to_string() },
        3 => Cmd::PollId { c: r.u8(), i: r.u8() },
        4 => {
            let n = *r.pick(&[1, 6]);
            Cmd::Rate { k: r.pick(META).to_string(), rates: Hex(r.bytes(n)) }
        },
        5 => Cmd::Rst { mask: r.below(3) as u8, mode: r.below(6) as u8 },
        _ => {
            let k = if r.chance(1, 6) { *r.pick(DEFAULTED) } else { *r.pick(COMMANDS) };
            gen_msg(r, k)
        },
    }
}
pub fn gen_writable(r: &mut Rng) -> Cmd {
    loop {
        let c = gen_cmd(r);
        if matches!(c, Cmd::Msg { .. } | Cmd::Dflt { .. } | Cmd::Rate { .. } | Cmd::Rst { .. }) {
            return c;
        }
    }
}

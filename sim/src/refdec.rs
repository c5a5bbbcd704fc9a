//! Reference decoder: an independent, table-driven reading of UBX payloads (spec/packets.json, frozen)
//! plus hand-written decoders for bit fields. Decides which type a message must be given (C10) and what
//! every accessor and the serialised form must say (C11).
use crate::val::Val;
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, serde::Deserialize)]
pub struct Field {
    pub name: String,
    pub ty: String,
    pub size: usize,
    pub off: usize,
    #[serde(default)]
    pub map: Option<String>,
    #[serde(default)]
    pub scale: Option<f64>,
    #[serde(default)]
    pub alias: Option<String>,
    #[serde(default)]
    pub may_fail: bool,
}
impl Field {
    pub fn acc(&self) -> &str {
        self.alias.as_deref().unwrap_or(&self.name)
    }
}
#[derive(Clone, Debug, serde::Deserialize)]
pub struct Packet {
    pub name: String,
    pub kind: String,
    pub cls: u8,
    pub id: u8,
    pub fixed: Option<usize>,
    pub max: Option<usize>,
    pub size: usize,
    pub fields: Vec<Field>,
}
#[derive(Clone, Debug, serde::Deserialize)]
pub struct EnumSpec {
    pub reserved: bool,
    pub vals: Vec<(String, u64)>,
}
#[derive(Clone, Debug, serde::Deserialize)]
pub struct FlagSpec {
    pub ty: String,
    pub consts: Vec<(String, u64)>,
}
#[derive(Clone, Debug, serde::Deserialize)]
pub struct Spec {
    pub order: Vec<String>,
    pub packets: HashMap<String, Packet>,
    pub enums: HashMap<String, EnumSpec>,
    pub flags: HashMap<String, FlagSpec>,
}
pub fn spec() -> &'static Spec {
    static S: OnceLock<Spec> = OnceLock::new();
    S.get_or_init(|| serde_json::from_str(include_str!("../spec/packets.json")).expect("spec"))
}

fn le(b: &[u8]) -> u64 {
    b.iter().enumerate().fold(0, |a, (i, x)| a | (u64::from(*x) << (8 * i)))
}
fn int_of(ty: &str, b: &[u8]) -> i128 {
    let v = le(b);
    match ty {
        "i8" => i128::from(v as u8 as i8),
        "i16" => i128::from(v as u16 as i16),
        "i32" => i128::from(v as u32 as i32),
        _ => i128::from(v),
    }
}
fn enum_name(e: &EnumSpec, v: u64) -> Option<String> {
    match e.vals.iter().find(|x| x.1 == v) {
        Some(x) => Some(x.0.clone()),
        None if e.reserved => Some(format!("Reserved{}", v)),
        None => None,
    }
}
fn cstr(b: &[u8]) -> Option<&str> {
    let n = b.iter().position(|x| *x == 0)?;
    std::str::from_utf8(&b[..n]).ok()
}
/// Data bits 5/6 and the reserved parity codes have no representation in the library.
pub fn uart_mode_ok(m: u32) -> bool {
    (m >> 6) & 3 >= 2 && matches!((m >> 9) & 7, 0 | 1 | 4 | 5)
}

fn field_ok(f: &Field, p: &[u8]) -> bool {
    let s = spec();
    match f.map.as_deref() {
        Some("UartMode") => uart_mode_ok(le(&p[f.off..f.off + 4]) as u32),
        Some("&str") => cstr(&p[f.off..f.off + f.size]).is_some(),
        Some(m) if f.may_fail => match s.enums.get(m) {
            Some(e) => enum_name(e, le(&p[f.off..f.off + f.size])).is_some(),
            None => true,
        },
        _ => true,
    }
}

fn matches_packet(d: &Packet, p: &[u8]) -> bool {
    if let Some(n) = d.fixed {
        if p.len() != n {
            return false;
        }
    } else {
        if p.len() < d.size {
            return false;
        }
        let rest = p.len() - d.size;
        let ok = match d.name.as_str() {
            "NavSat" => rest % 12 == 0,
            "RxmRawx" => rest % 32 == 0,
            "MonVer" => rest % 30 == 0 && p[40..].chunks(30).all(|c| cstr(c).is_some()),
            "EsfRaw" => rest % 8 == 0,
            "RxmSfrbx" => rest % 4 == 0,
            "EsfMeas" => {
                let fl = le(&p[4..6]);
                let n = ((fl >> 11) & 31) as usize * 4 + if fl & 8 != 0 { 4 } else { 0 };
                rest >= n && rest % 4 == 0
            },
            _ => true, // INF messages
        };
        if !ok {
            return false;
        }
    }
    d.fields.iter().all(|f| field_ok(f, p))
}

/// The type a checksum-correct message must be given.
pub fn type_of(class: u8, id: u8, p: &[u8]) -> &'static str {
    let s = spec();
    static IDX: OnceLock<HashMap<(u8, u8), Vec<&'static Packet>>> = OnceLock::new();
    let idx = IDX.get_or_init(|| {
        let mut m: HashMap<(u8, u8), Vec<&'static Packet>> = HashMap::new();
        for n in &spec().order {
            let d = &spec().packets[n];
            m.entry((d.cls, d.id)).or_default().push(d);
        }
        m
    });
    let _ = s;
    match idx.get(&(class, id)) {
        Some(v) => v.iter().find(|d| matches_packet(d, p)).map_or("Unknown", |d| d.name.as_str()),
        None => "Unknown",
    }
}

fn scaled(f: &Field, p: &[u8]) -> Val {
    let raw = &p[f.off..f.off + f.size];
    let i = int_of(&f.ty, raw);
    match f.map.as_deref() {
        Some("f64") => Val::F(i as f64 * f.scale.unwrap_or(1.0)),
        _ => Val::F32(i as f32 * f.scale.unwrap_or(1.0) as f32),
    }
}
fn raw_val(f: &Field, p: &[u8]) -> Val {
    let raw = &p[f.off..f.off + f.size];
    match f.ty.as_str() {
        "bytes" => Val::Bytes(raw.to_vec()),
        "f64" => Val::F(f64::from_bits(le(raw))),
        "f32" => Val::F32(f32::from_bits(le(raw) as u32)),
        t => Val::Int(int_of(t, raw)),
    }
}
fn name(s: &str) -> Val {
    Val::Name(s.to_string())
}
fn b(x: bool) -> Val {
    Val::Bool(x)
}
fn opt(x: Option<&str>) -> Val {
    x.map_or(Val::None, name)
}

fn custom(map: &str, v: u64) -> Val {
    let bit = |n: u32| Val::Bool((v >> n) & 1 == 1);
    match map {
        "FixStatusInfo" => Val::Map(vec![
            ("has_pr_prr_correction", bit(0)),
            ("map_matching", name(["None", "Valid", "Used", "Dr"][((v >> 6) & 3) as usize])),
        ]),
        "NavSatSvFlags" => Val::Map(vec![
            (
                "quality_ind",
                name(
                    [
                        "NoSignal",
                        "Searching",
                        "SignalAcquired",
                        "SignalDetected",
                        "CodeLock",
                        "CarrierLock",
                        "CarrierLock",
                        "CarrierLock",
                    ][(v & 7) as usize],
                ),
            ),
            ("sv_used", bit(3)),
            ("health", name(["Unknown(0)", "Healthy", "Unhealthy", "Unknown(3)"][((v >> 4) & 3) as usize])),
            ("differential_correction_available", bit(6)),
            ("smoothed", bit(7)),
            (
                "orbit_source",
                name(
                    [
                        "NoInfoAvailable",
                        "Ephemeris",
                        "Almanac",
                        "AssistNowOffline",
                        "AssistNowAutonomous",
                        "Other(5)",
                        "Other(6)",
                        "Other(7)",
                    ][((v >> 8) & 7) as usize],
                ),
            ),
            ("ephemeris_available", bit(11)),
            ("almanac_available", bit(12)),
            ("an_offline_available", bit(13)),
            ("an_auto_available", bit(14)),
            ("sbas_corr", bit(16)),
            ("rtcm_corr", bit(17)),
            ("slas_corr", bit(18)),
            ("spartn_corr", bit(19)),
            ("pr_corr", bit(20)),
            ("cr_corr", bit(21)),
            ("do_corr", bit(22)),
        ]),
        "TimTpFlags" => Val::Map(vec![
            ("time_base", name(if v & 1 == 0 { "Gnss" } else { "Utc" })),
            ("utc_available", bit(1)),
            (
                "raim_active",
                match (v >> 2) & 3 {
                    1 => b(false),
                    2 => b(true),
                    _ => Val::None,
                },
            ),
            ("q_err_valid", b((v >> 4) & 1 == 0)),
        ]),
        "TimTpRefInfo" => Val::Map(vec![
            (
                "time_ref_gnss",
                opt(match v & 15 {
                    0 => Some("Gps"),
                    1 => Some("Glo"),
                    2 => Some("Bds"),
                    3 => Some("Gal"),
                    4 => Some("NavIc"),
                    _ => None,
                }),
            ),
            (
                "utc_standard",
                opt(match v >> 4 {
                    1 => Some("Crl"),
                    2 => Some("Nist"),
                    3 => Some("Usno"),
                    4 => Some("Bipm"),
                    5 => Some("Eu"),
                    6 => Some("Su"),
                    7 => Some("Ntsc"),
                    8 => Some("Npli"),
                    _ => None,
                }),
            ),
        ]),
        "TimTm2Flags" => Val::Map(vec![
            ("mode", name(if v & 1 == 0 { "Single" } else { "Running" })),
            ("run", name(if v & 2 == 0 { "Armed" } else { "Stopped" })),
            ("new_falling_edge", bit(2)),
            ("new_rising_edge", bit(7)),
            // 3 is reserved in the protocol description: whatever the library says about it is accepted
            ("time_base", name(["Receiver", "Gnss", "Utc", "*"][((v >> 3) & 3) as usize])),
            ("utc_available", bit(5)),
            ("time_valid", bit(6)),
        ]),
        "UartMode" | "CfgItfmConfig" | "CfgItfmConfig2" => Val::Json(custom_json(map, v)),
        _ => unreachable!("custom {}", map),
    }
}

fn custom_json(map: &str, v: u64) -> J {
    match map {
        "UartMode" => json!({
            "data_bits": (["5", "6", "Seven", "Eight"][((v >> 6) & 3) as usize]),
            "parity": (["Even", "Odd", "?", "?", "None", "None", "?", "?"][((v >> 9) & 7) as usize]),
            "stop_bits": (["One", "OneHalf", "Two", "Half"][((v >> 12) & 3) as usize]),
        }),
        "CfgItfmConfig" => json!({
            "enable": (v >> 31) & 1 == 1,
            "bb_threshold": v & 0xF,
            "cw_threshold": (v >> 4) & 0x1F,
            "algorithm_bits": (v >> 9) & 0x3F_FFFF,
        }),
        "CfgItfmConfig2" => json!({
            "general": v & 0xFFF,
            // antenna setting 3 is not defined; the library reads it as unknown (0)
            "antenna": match (v >> 12) & 3 { 3 => 0, x => x },
            "scan_aux_bands": (v >> 14) & 1 == 1,
        }),
        // transparent wrappers serialise as their raw value
        _ => json!(v),
    }
}

fn block(pname: &str, p: &[u8]) -> Val {
    let d = &spec().packets[pname];
    let mut v: Vec<(&'static str, Val)> = Vec::new();
    for (k, x) in decode_fields(d, p) {
        v.push((leak(&k), x));
    }
    Val::Map(v)
}
/// Field names come from the table; interned once so that values can carry `&'static str` keys.
fn leak(s: &str) -> &'static str {
    static T: OnceLock<std::sync::Mutex<HashMap<String, &'static str>>> = OnceLock::new();
    let mut g = T.get_or_init(Default::default).lock().unwrap();
    if let Some(x) = g.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    g.insert(s.to_string(), l);
    l
}

fn tail(d: &Packet, f: &Field, p: &[u8]) -> Val {
    let w = |x: &[u8]| le(x);
    match (d.name.as_str(), f.name.as_str()) {
        ("NavSat", _) => Val::List(p[8..].chunks(12).map(|c| block("NavSatSvInfo", c)).collect()),
        ("RxmRawx", _) => Val::List(p[16..].chunks(32).map(|c| block("RxmRawxInfo", c)).collect()),
        ("MonVer", _) => {
            Val::List(p[40..].chunks(30).map(|c| Val::Str(cstr(c).unwrap_or("?").to_string())).collect())
        },
        ("EsfMeas", "data") => {
            let n = ((le(&p[4..6]) >> 11) & 31) as usize * 4;
            Val::List(
                p[8..8 + n]
                    .chunks(4)
                    .map(|c| {
                        Val::Map(vec![
                            ("data_type", Val::Int(i128::from((w(c) >> 24) & 0x3F))),
                            ("data_field", Val::Int(i128::from(w(c) & 0xFF_FFFF))),
                        ])
                    })
                    .collect(),
            )
        },
        ("EsfMeas", _) => {
            let fl = le(&p[4..6]);
            let n = ((fl >> 11) & 31) as usize * 4;
            if fl & 8 != 0 {
                Val::Int(i128::from(le(&p[8 + n..12 + n])))
            } else {
                Val::None
            }
        },
        ("EsfRaw", _) => Val::List(
            p[4..]
                .chunks(8)
                .map(|c| {
                    Val::Map(vec![
                        ("data_type", Val::Int(i128::from(c[3]))),
                        ("data_field", Val::Int(i128::from(w(&c[0..3])))),
                        ("sensor_time_tag", Val::Int(i128::from(w(&c[4..8])))),
                    ])
                })
                .collect(),
        ),
        ("RxmSfrbx", _) => Val::List(p[8..].chunks(4).map(|c| Val::Int(i128::from(w(c)))).collect()),
        _ => match std::str::from_utf8(p) {
            Ok(s) => Val::Str(s.to_string()),
            Err(_) => Val::None,
        },
    }
}

fn decode_fields(d: &Packet, p: &[u8]) -> Vec<(String, Val)> {
    let s = spec();
    let mut out = Vec::new();
    for f in &d.fields {
        let an = f.acc().to_string();
        if f.size == 0 {
            out.push((an, tail(d, f, p)));
            continue;
        }
        let raw = &p[f.off..f.off + f.size];
        match f.map.as_deref() {
            None => out.push((an, raw_val(f, p))),
            Some("f64") | Some("f32") => {
                out.push((an.clone(), scaled(f, p)));
                out.push((an + "_raw", raw_val(f, p)));
            },
            Some("&str") => {
                out.push((an.clone(), Val::Str(cstr(raw).unwrap_or("?").to_string())));
                out.push((an + "_raw", Val::Bytes(raw.to_vec())));
            },
            Some(m) => {
                if let Some(e) = s.enums.get(m) {
                    out.push((an.clone(), Val::Name(enum_name(e, le(raw)).unwrap_or_default())));
                } else if let Some(fl) = s.flags.get(m) {
                    out.push((an.clone(), Val::Int(i128::from(le(raw)))));
                    out.push((
                        an.clone() + "#flags",
                        Val::FlagSet(fl.consts.iter().map(|(_, c)| le(raw) & c == *c).collect()),
                    ));
                } else {
                    out.push((an.clone(), custom(m, le(raw))));
                }
                out.push((an + "_raw", raw_val(f, p)));
            },
        }
    }
    out
}

/// All accessor values of a message of known type.
pub fn decode(name: &str, p: &[u8]) -> Vec<(String, Val)> {
    decode_fields(&spec().packets[name], p)
}

fn jf(x: f64) -> J {
    serde_json::Number::from_f64(x).map_or(J::Null, J::Number)
}
fn jnum(i: i128) -> J {
    if i < 0 {
        json!(i as i64)
    } else {
        json!(i as u64)
    }
}
fn val_json(v: &Val) -> J {
    match v {
        Val::Int(i) => jnum(*i),
        Val::F(x) => jf(*x),
        Val::F32(x) => jf(f64::from(*x)),
        Val::Bytes(x) => json!(x),
        Val::Str(x) => json!(x),
        Val::None => J::Null,
        Val::Bool(x) => json!(x),
        Val::List(x) => J::Array(x.iter().map(val_json).collect()),
        Val::Map(x) => J::Object(x.iter().map(|(k, v)| (k.to_string(), val_json(v))).collect()),
        Val::Json(j) => j.clone(),
        Val::Name(x) => json!(x),
        Val::FlagSet(_) => J::Null,
    }
}
fn fields_json(d: &Packet, p: &[u8], out: &mut serde_json::Map<String, J>) {
    let s = spec();
    for f in &d.fields {
        let j = if f.size == 0 {
            match (d.name.as_str(), f.name.as_str()) {
                ("NavSat", _) => J::Array(p[8..].chunks(12).map(|c| sub_json("NavSatSvInfo", c)).collect()),
                ("RxmRawx", _) => J::Array(p[16..].chunks(32).map(|c| sub_json("RxmRawxInfo", c)).collect()),
                _ => val_json(&tail(d, f, p)),
            }
        } else {
            let raw = &p[f.off..f.off + f.size];
            match f.map.as_deref() {
                None => val_json(&raw_val(f, p)),
                Some("f64") | Some("f32") => val_json(&scaled(f, p)),
                Some("&str") => json!(cstr(raw).unwrap_or("?")),
                Some(m) if s.enums.contains_key(m) || s.flags.contains_key(m) => json!(le(raw)),
                Some(m) => custom_json(m, le(raw)),
            }
        };
        out.insert(f.name.clone(), j);
    }
}
pub fn sub_json(n: &str, p: &[u8]) -> J {
    let mut m = serde_json::Map::new();
    fields_json(&spec().packets[n], p, &mut m);
    J::Object(m)
}
/// The serialised form of a delivered message.
pub fn to_json(name: &str, class: u8, id: u8, p: &[u8]) -> J {
    let mut m = serde_json::Map::new();
    if name == "Unknown" {
        m.insert("payload".into(), json!(p));
        m.insert("class".into(), json!(class));
        m.insert("msg_id".into(), json!(id));
        return J::Object(m);
    }
    m.insert("class".into(), json!(class));
    // A message that has a field of the same name repeats that key; the last one wins when read back.
    m.insert("msg_id".into(), json!(id));
    fields_json(&spec().packets[name], p, &mut m);
    J::Object(m)
}

/// Compares serialised forms field by field with the tolerance each field's precision allows.
pub fn json_matches(name: &str, got: &J, want: &J) -> Result<(), String> {
    let (Some(g), Some(w)) = (got.as_object(), want.as_object()) else {
        return Err("serialised form is not a map".into());
    };
    let single = |k: &str| {
        spec().packets.get(name).is_some_and(|d| {
            d.fields.iter().any(|f| f.name == k && (f.map.as_deref() == Some("f32") || f.ty == "f32"))
        }) || (name == "RxmRawx" && k == "measurements")
    };
    for (k, wv) in w {
        match g.get(k) {
            None => return Err(format!("serialised form lacks `{}`", k)),
            Some(gv) => {
                let ok = crate::val::json_same(gv, wv)
                    || (single(k)
                        && match (gv.as_f64(), wv.as_f64()) {
                            (Some(a), Some(b)) => crate::val::feq(a, b, 4e-7),
                            _ => false,
                        });
                if !ok {
                    return Err(format!("serialised `{}` is {} but the device sent {}", k, gv, wv));
                }
            },
        }
    }
    Ok(())
}

/// One level of a debug text: the parts between commas, nothing inside brackets or strings being split.
fn parts(s: &str) -> Vec<&str> {
    let (mut depth, mut from, mut quoted, mut esc) = (0i32, 0, false, false);
    let mut out = vec![];
    for (i, c) in s.char_indices() {
        if quoted {
            quoted = esc || c != '"';
            esc = !esc && c == '\\';
            continue;
        }
        match c {
            '"' => quoted = true,
            '(' | '[' | '{' => depth += 1,
            ')' | ']' | '}' => depth -= 1,
            ',' if depth == 0 => {
                out.push(s[from..i].trim());
                from = i + 1;
            },
            _ => {},
        }
    }
    let last = s[from..].trim();
    if !last.is_empty() {
        out.push(last);
    }
    out
}
fn inside<'a>(s: &'a str, open: char, close: char) -> Option<&'a str> {
    let a = s.find(open)?;
    s.strip_suffix(close).and_then(|s| s.get(a + 1..))
}
/// Whether a value reads in a debug text as what the device sent. Forms nobody relies on (lists as yet
/// unread, wrappers of raw bits) are not judged.
fn debug_same(txt: &str, want: &Val) -> bool {
    match want {
        Val::Int(w) => match txt.strip_prefix("Some(").and_then(|t| t.strip_suffix(')')).unwrap_or(txt) {
            "true" => *w == 1,
            "false" => *w == 0,
            t => t.parse::<i128>() == Ok(*w) || t.starts_with(|c: char| c.is_ascii_uppercase()),
        },
        Val::F(w) => txt.parse::<f64>().is_ok_and(|g| crate::val::feq(g, *w, 1e-13)),
        Val::F32(w) => txt.parse::<f32>().is_ok_and(|g| crate::val::feq(f64::from(g), f64::from(*w), 4e-7)),
        Val::Bool(w) => txt == if *w { "true" } else { "false" },
        Val::Str(w) => txt == format!("{:?}", w) || txt == format!("Some({:?})", w),
        Val::None => txt == "None",
        Val::Name(w) => w == "*" || txt == w,
        Val::Bytes(w) => inside(txt, '[', ']')
            .is_some_and(|t| parts(t).iter().map(|x| x.parse::<u8>().ok()).eq(w.iter().map(|x| Some(*x)))),
        Val::Map(w) => match inside(txt, '{', '}') {
            Some(t) => parts(t).iter().all(|kv| match kv.split_once(':') {
                Some((k, v)) => w.iter().find(|x| x.0 == k.trim()).is_none_or(|x| debug_same(v.trim(), &x.1)),
                None => true,
            }),
            None => true,
        },
        Val::FlagSet(_) | Val::List(_) | Val::Json(_) => true,
    }
}
/// Compares the debug text of a delivered message field by field with what the device sent.
pub fn debug_matches(pname: &str, got: &str, p: &[u8]) -> Result<u64, String> {
    let s = spec();
    let d = &s.packets[pname];
    let body = inside(got, '{', '}').or_else(|| inside(got.strip_suffix(')')?, '{', '}'));
    let Some(body) = body else { return Err(format!("debug text has no fields: {}", got)) };
    let want = decode(pname, p);
    let find = |k: &str| want.iter().find(|w| w.0 == k).map(|w| &w.1);
    let mut seen = 0;
    for kv in parts(body) {
        let Some((k, v)) = kv.split_once(':') else { continue };
        let (k, v) = (k.trim(), v.trim());
        let Some(f) = d.fields.iter().find(|f| f.name == k) else { continue };
        let acc = f.acc().to_string();
        let ok = if let Some(fl) = f.map.as_deref().and_then(|m| s.flags.get(m)) {
            let Some(Val::FlagSet(on)) = find(&(acc + "#flags")) else { continue };
            let shown: Vec<&str> = inside(v, '(', ')').unwrap_or("").split('|').map(str::trim).collect();
            fl.consts.iter().zip(on).all(|((n, c), on)| *c == 0 || shown.contains(&n.as_str()) == *on)
        } else {
            match find(&acc) {
                Some(w) => debug_same(v, w),
                None => continue,
            }
        };
        if !ok {
            return Err(format!("debug text says `{}: {}`, not what the device sent", k, v));
        }
        seen += 1;
    }
    Ok(seen)
}

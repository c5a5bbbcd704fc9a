//! C25: settings and positions an application keeps in serialised form.
use crate::engine::{lib, Ctx, Sim, Tier, R};
use crate::ensure;
use crate::frames::valid_payload;
use crate::gen_cmd::{en_CfgItfmAntennaSettings, en_ResetMode};
use crate::hex::{enc, Hex};
use crate::refparse::frame;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::io::{Error, ErrorKind, Write};
use ublox::*;

/// What the application makes a record of.
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum What {
    /// everything that can be kept of a message from the receiver
    Heard { name: String, p: Hex },
    Place { v: [u64; 3] },
    Centred { v: [u64; 3] },
    Moving { v: [u64; 2] },
    Uart { data: u8, parity: u8, stop: u8 },
    Reset { mode: u8 },
    Itfm { enable: bool, bb: u32, cw: u32, antenna: u8, aux: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Fault {
    None,
    /// power fails after so many bytes of the record
    PowerCut { at: u16 },
    /// the disk is full after so many bytes of the record
    DiskFull { at: u16 },
    /// a store that keeps every field by itself has lost one
    FieldLost { which: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Step {
    /// how: text, indented text, through a tree, in a compact form without names; chunk: most bytes the store takes at a time
    Save { what: What, how: u8, chunk: u8, interrupt: u8, fault: Fault },
    /// the program starts again and reads its records
    Load { how: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SaveCase {
    pub steps: Vec<Step>,
}

/// A record as an application would declare it.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Rec {
    Place { place: Position, label: u32 },
    Centred { place: PositionECEF },
    Moving { v: Velocity },
    Uart { mode: UartMode, baud: u32 },
    Parts { d: DataBits, p: Parity, s: StopBits },
    Reset { mode: ResetMode },
    Itfm { config: CfgItfmConfig, config2: CfgItfmConfig2 },
    Antenna { a: CfgItfmAntennaSettings, list: Vec<CfgItfmAntennaSettings> },
    Bits { bb: CfgItfmBbThreshold, cw: CfgItfmCwThreshold, algo: CfgItfmAlgoBits, general: CfgItfmGeneralBits },
    Sats { seen: Vec<(u8, NavSatQualityIndicator, NavSatSvHealth, NavSatOrbitSource)> },
}

/// The command the application would send with the record.
fn command(r: &Rec) -> Vec<u8> {
    lib(|| match r {
        Rec::Place { place, .. } if place.lat.abs() <= 90.0 && place.lon.abs() <= 180.0 && place.alt.abs() < 1e5 => {
            AidIniBuilder::default().set_position(*place).into_packet_bytes().to_vec()
        },
        Rec::Uart { mode, baud } => CfgPrtUartBuilder {
            portid: UartPortId::Uart1,
            reserved0: 0,
            tx_ready: 0,
            mode: *mode,
            baud_rate: *baud,
            in_proto_mask: InProtoMask::UBLOX,
            out_proto_mask: OutProtoMask::UBLOX,
            flags: 0,
            reserved5: 0,
        }
        .into_packet_bytes()
        .to_vec(),
        Rec::Reset { mode } => {
            CfgRstBuilder { nav_bbr_mask: NavBbrMask::all(), reset_mode: *mode, reserved1: 0 }.into_packet_bytes().to_vec()
        },
        Rec::Itfm { config, config2 } => CfgItfmBuilder { config: *config, config2: *config2 }.into_packet_bytes().to_vec(),
        Rec::Antenna { a, .. } => {
            let c = CfgItfmConfig2::new(*a, false);
            CfgItfmBuilder { config: CfgItfmConfig::default(), config2: c }.into_packet_bytes().to_vec()
        },
        _ => vec![],
    })
}
fn same(a: &Rec, b: &Rec) -> Result<(), String> {
    let (x, y) = lib(|| (format!("{:?}", a), format!("{:?}", b)));
    if x != y {
        return Err(format!("{} instead of {}", y, x));
    }
    let (x, y) = (command(a), command(b));
    if x != y {
        return Err(format!("{:?}, with which the command is {} instead of {}", b, enc(&y), enc(&x)));
    }
    Ok(())
}
fn records(w: &What) -> Vec<Rec> {
    let f = |v: &u64| {
        let f = f64::from_bits(*v);
        if f.is_finite() { f } else { *v as u32 as f64 }
    };
    match w {
        What::Place { v } => vec![Rec::Place { place: Position { lon: f(&v[0]), lat: f(&v[1]), alt: f(&v[2]) }, label: v[0] as u32 }],
        What::Centred { v } => vec![Rec::Centred { place: PositionECEF { x: f(&v[0]), y: f(&v[1]), z: f(&v[2]) } }],
        What::Moving { v } => vec![Rec::Moving { v: Velocity { speed: f(&v[0]), heading: f(&v[1]) } }],
        What::Uart { data, parity, stop } => {
            let d = if data % 2 == 0 { DataBits::Seven } else { DataBits::Eight };
            let p = [Parity::Even, Parity::Odd, Parity::None][usize::from(*parity) % 3];
            let s = [StopBits::One, StopBits::OneHalf, StopBits::Two, StopBits::Half][usize::from(*stop) % 4];
            let mode = lib(|| UartMode::new(d, p, s));
            vec![Rec::Uart { mode, baud: 1 << (stop % 32) }, Rec::Parts { d, p, s }]
        },
        What::Reset { mode } => vec![Rec::Reset { mode: en_ResetMode(i64::from(*mode)) }],
        What::Itfm { enable, bb, cw, antenna, aux } => {
            let a = en_CfgItfmAntennaSettings(i64::from(*antenna));
            let (config, config2) = lib(|| (CfgItfmConfig::new(*enable, *bb, *cw), CfgItfmConfig2::new(a, *aux)));
            vec![
                Rec::Itfm { config, config2 },
                Rec::Antenna { a, list: (0..*bb % 4).map(|k| en_CfgItfmAntennaSettings(i64::from(k % 3))).collect() },
                Rec::Bits { bb: (*bb).into(), cw: (*cw).into(), algo: bb.wrapping_mul(*cw).into(), general: (bb ^ cw).into() },
            ]
        },
        What::Heard { name, p } => heard(name, &p.0),
    }
}
fn heard(name: &str, p: &[u8]) -> Vec<Rec> {
    let Some(d) = crate::refdec::spec().packets.get(name) else { return vec![] };
    let f = frame(d.cls, d.id, p);
    lib(|| {
        let mut parser = Parser::default();
        let mut it = parser.consume(&f);
        let mut out = vec![];
        while let Some(m) = it.next() {
            match m {
                Ok(PacketRef::NavPvt(p)) => {
                    out.push(Rec::Place { place: Position::from(&p), label: p.itow() });
                    out.push(Rec::Moving { v: Velocity::from(&p) });
                },
                Ok(PacketRef::NavPosLlh(p)) => out.push(Rec::Place { place: Position::from(&p), label: p.itow() }),
                Ok(PacketRef::NavHpPosLlh(p)) => out.push(Rec::Place { place: Position::from(&p), label: 0 }),
                Ok(PacketRef::NavHpPosEcef(p)) => out.push(Rec::Centred { place: PositionECEF::from(&p) }),
                Ok(PacketRef::NavVelNed(p)) => out.push(Rec::Moving { v: Velocity::from(&p) }),
                Ok(PacketRef::NavSat(p)) => out.push(Rec::Sats {
                    seen: p.svs().map(|s| (s.sv_id(), s.flags().quality_ind(), s.flags().health(), s.flags().orbit_source())).collect(),
                }),
                Ok(PacketRef::CfgPrtUart(p)) => out.push(Rec::Uart { mode: p.mode(), baud: p.baud_rate() }),
                Ok(PacketRef::CfgItfm(p)) => out.push(Rec::Itfm { config: p.config(), config2: p.config2() }),
                _ => {},
            }
        }
        out
    })
}

/// The record store: a file that may take few bytes at a time, be interrupted, fill up or lose power.
struct Disk<'a> {
    file: &'a mut Vec<u8>,
    chunk: usize,
    interrupt: u8,
    left: Option<usize>,
    power: bool,
    calls: u32,
    shorts: u64,
    interrupts: u64,
    struck: bool,
}
impl Write for Disk<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls = (self.calls + 1) % (u32::from(self.interrupt) + 1);
        if self.interrupt > 0 && self.calls == 0 {
            self.interrupts += 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = b.len().min(self.chunk);
        if let Some(l) = self.left {
            if l == 0 && !b.is_empty() {
                self.struck = true;
                return Err(Error::new(ErrorKind::Other, if self.power { "power" } else { "full" }));
            }
            n = n.min(l);
            self.left = Some(l - n);
        }
        self.shorts += u64::from(n < b.len());
        self.file.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Takes one named field out of a tree.
fn lose(v: &mut serde_json::Value, at: &mut usize) -> bool {
    match v {
        serde_json::Value::Object(m) => {
            for k in m.keys().cloned().collect::<Vec<_>>() {
                if *at == 0 {
                    m.remove(&k);
                    return true;
                }
                *at -= 1;
                if m.get_mut(&k).map_or(false, |f| lose(f, at)) {
                    return true;
                }
            }
            false
        },
        serde_json::Value::Array(l) => l.iter_mut().any(|f| lose(f, at)),
        _ => false,
    }
}
fn load(b: &[u8], how: u8) -> Result<Rec, String> {
    if let Some(h) = b.strip_prefix(b"#") {
        let b = std::str::from_utf8(h).ok().and_then(crate::hex::dec).ok_or("not the digits of bytes")?;
        return lib(|| {
            use bincode::Options;
            let o = bincode::options().with_limit(1 << 20);
            match how % 2 {
                0 => o.with_varint_encoding().deserialize(&b).map_err(|e| e.to_string()),
                _ => o.deserialize_from(std::io::Cursor::new(&b)).map_err(|e| e.to_string()),
            }
        });
    }
    lib(|| match how % 4 {
        0 => serde_json::from_slice(b).map_err(|e| e.to_string()),
        1 => serde_json::from_str(std::str::from_utf8(b).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
        2 => serde_json::from_reader(std::io::Cursor::new(b)).map_err(|e| e.to_string()),
        _ => serde_json::from_slice::<serde_json::Value>(b).and_then(serde_json::from_value).map_err(|e| e.to_string()),
    })
}

pub struct C25;
impl Sim for C25 {
    type Case = SaveCase;
    const ID: &'static str = "C25";
    const RULE: &'static str = "A run is an application that appends records of settings, positions and satellite states, taken from simulated receiver messages through the real parser or made by itself, to a store that takes few bytes at a time, is interrupted, fills up or loses power in mid-record or loses one field of a record, and reads the store when it starts again; non-trivial if a record was read back after a restart. Oracle: every completed record reads back as the same value (same debug form, same command bytes), a torn one as an error.";
    const REAL: &'static [&'static str] = &["Serialize and Deserialize of Position, PositionECEF, Velocity, UartMode and its parts, ResetMode, CfgItfm settings, NavSat states", "parser and accessors the values come from", "builders the values go to", "serde_json and bincode (real, not under test)"];
    const STUB: &'static [&'static str] = &["receiver", "record store (disk)", "application and its restarts"];
    const ASSUME: &'static [&'static str] = &["finite coordinates (the text format has no other)", "the store loses only the tail of the record being written or a whole field"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 1_000_000 } else { 12_000_000 }
    }
    fn gen(r: &mut Rng, t: Tier) -> SaveCase {
        let float = |r: &mut Rng| -> u64 {
            match r.below(6) {
                0 => r.u64(),
                1 => (r.edgy(4) as u32 as i32 as f64 * 1e-7).to_bits(),
                2 => (r.edgy(4) as u32 as i32 as f64 * 1e-3).to_bits(),
                3 => r.pick(&[0.0f64, -0.0, 1.0, -180.0, 180.0, 90.0, 1e-9, 1e300, -1e-300, 0.1, 1.0 / 3.0]).to_bits(),
                _ => ((r.u64() % 360_000_000_000) as f64 * 1e-9 - 180.0).to_bits(),
            }
        };
        let faulty = r.chance(2, 3);
        let n = r.range(1, if t == Tier::Quick { 6 } else { 25 });
        let mut steps: Vec<Step> = (0..n)
            .map(|_| {
                if r.chance(1, 6) {
                    return Step::Load { how: r.u8() % 4 };
                }
                let what = match r.below(8) {
                    0 => What::Place { v: [float(r), float(r), float(r)] },
                    1 => What::Centred { v: [float(r), float(r), float(r)] },
                    2 => What::Moving { v: [float(r), float(r)] },
                    3 => What::Uart { data: r.u8() % 2, parity: r.u8() % 3, stop: r.u8() % 4 },
                    4 => What::Reset { mode: *r.pick(&[0, 1, 2, 4, 8, 9]) },
                    5 => What::Itfm {
                        enable: r.chance(1, 2),
                        bb: if r.chance(1, 3) { r.edgy(4) as u32 } else { r.below(16) as u32 },
                        cw: if r.chance(1, 3) { r.edgy(4) as u32 } else { r.below(32) as u32 },
                        antenna: r.u8() % 3,
                        aux: r.chance(1, 2),
                    },
                    _ => {
                        let name = *r.pick(&[
                            "NavPvt", "NavPosLlh", "NavHpPosLlh", "NavHpPosEcef", "NavVelNed", "NavSat", "NavSat", "CfgPrtUart", "CfgItfm", "CfgItfm",
                        ]);
                        What::Heard { name: name.into(), p: Hex(valid_payload(r, name)) }
                    },
                };
                let fault = match if faulty { r.below(6) } else { 9 } {
                    0 => Fault::PowerCut { at: r.skewed(400) as u16 },
                    1 => Fault::DiskFull { at: r.skewed(400) as u16 },
                    2 => Fault::FieldLost { which: r.skewed(12) as u16 },
                    _ => Fault::None,
                };
                Step::Save {
                    what,
                    how: r.u8() % 4,
                    chunk: if r.chance(1, 2) { 0 } else { 1 + r.skewed(40) as u8 },
                    interrupt: if r.chance(1, 4) { r.range(2, 9) as u8 } else { 0 },
                    fault,
                }
            })
            .collect();
        steps.push(Step::Load { how: r.u8() % 4 });
        SaveCase { steps }
    }
    fn run(c: &SaveCase, x: &mut Ctx) -> R {
        // every record starts with 0x1E (RFC 7464), which the text format itself never contains
        let mut file: Vec<u8> = vec![];
        // the value meant, its text was stored in full
        let mut meant: Vec<(Rec, bool)> = vec![];
        let mut restarts = 0;
        let check = |file: &[u8], meant: &[(Rec, bool)], how: u8, x: &mut Ctx| -> R {
            let parts: Vec<&[u8]> = file.split(|b| *b == 0x1E).skip(1).collect();
            ensure!(parts.len() == meant.len(), "harness", "{} records, {} meant", parts.len(), meant.len());
            for (k, (b, (m, full))) in parts.iter().zip(meant).enumerate() {
                let got = load(b, how);
                let text = || String::from_utf8_lossy(b).into_owned();
                match (&got, full) {
                    (Ok(g), _) => {
                        let s = same(m, g);
                        ensure!(s.is_ok(), "changed", "record {} ({}) reads back as {}", k, text(), s.err().unwrap_or_default());
                        x.count("op.record_read_back", 1);
                    },
                    (Err(e), true) => crate::bail!("unreadable", "record {} ({}) of {:?} does not read back: {}", k, text(), m, e),
                    (Err(_), false) => x.count("op.torn_record_refused", 1),
                }
            }
            Ok(())
        };
        for st in &c.steps {
            match st {
                Step::Save { what, how, chunk, interrupt, fault } => {
                    for rec in records(what) {
                        let left = match fault {
                            Fault::None | Fault::FieldLost { .. } => None,
                            Fault::PowerCut { at } | Fault::DiskFull { at } => Some(usize::from(*at)),
                        };
                        file.push(0x1E);
                        let from = file.len();
                        let mut d = Disk {
                            file: &mut file,
                            chunk: if *chunk == 0 { usize::MAX } else { usize::from(*chunk) },
                            interrupt: *interrupt,
                            left,
                            power: matches!(fault, Fault::PowerCut { .. }),
                            calls: 0,
                            shorts: 0,
                            interrupts: 0,
                            struck: false,
                        };
                        let mut lost = false;
                        let done: Result<(), String> = lib(|| {
                            let e = |e: serde_json::Error| e.to_string();
                            if let Fault::FieldLost { which } = fault {
                                let mut v = serde_json::to_value(&rec).map_err(e)?;
                                let mut at = usize::from(*which);
                                lost = lose(&mut v, &mut at);
                                return serde_json::to_writer(&mut d, &v).map_err(e);
                            }
                            match how % 4 {
                                0 => serde_json::to_writer(&mut d, &rec).map_err(e),
                                1 => serde_json::to_writer_pretty(&mut d, &rec).map_err(e),
                                2 => serde_json::to_value(&rec).and_then(|v| serde_json::to_writer(&mut d, &v)).map_err(e),
                                _ => {
                                    use bincode::Options;
                                    let b = bincode::options().serialize(&rec).map_err(|e| e.to_string())?;
                                    d.write_all(format!("#{}", enc(&b)).as_bytes()).map_err(|e| e.to_string())
                                },
                            }
                        });
                        let (struck, power) = (d.struck, d.power);
                        x.count("fault.short_write", d.shorts);
                        x.count("fault.interrupted_write", d.interrupts);
                        ensure!(done.is_ok() || struck, "unwritable", "{:?} cannot be stored: {}", rec, done.err().unwrap_or_default());
                        x.feed(&file[from..]);
                        x.sim_us += 1000 + (file.len() - from) as u64;
                        x.say(|| format!("stored {} as {:?}", format_args!("{:?}", rec), String::from_utf8_lossy(&file[from..])));
                        meant.push((rec, done.is_ok() && !lost));
                        x.count("fault.field_lost", u64::from(lost));
                        x.count("op.stored_compactly", u64::from(how % 4 == 3));
                        if struck && power {
                            x.count("fault.power_cut", 1);
                            restarts += 1;
                            check(&file, &meant, *how, x)?;
                            break;
                        }
                        if struck {
                            x.count("fault.disk_full", 1);
                        }
                    }
                },
                Step::Load { how } => {
                    restarts += 1;
                    check(&file, &meant, *how, x)?;
                    x.nontrivial |= meant.iter().any(|m| m.1);
                },
            }
        }
        x.num(restarts);
        Ok(())
    }
}

//! One build of the library with some choice of its features, run on what it is told: a request per line
//! on standard input, a line with one number per observation (or, if asked, the observations) back.
#![allow(dead_code)]
#[cfg(not(target_has_atomic = "64"))]
mod atomic64 {
    use std::sync::{atomic::Ordering, Mutex};
    #[derive(Default)]
    pub struct AtomicU64(Mutex<u64>);
    impl AtomicU64 {
        pub const fn new(x: u64) -> Self {
            AtomicU64(Mutex::new(x))
        }
        fn swap(&self, f: impl Fn(u64) -> u64) -> u64 {
            let mut g = self.0.lock().unwrap();
            let old = *g;
            *g = f(old);
            old
        }
        pub fn load(&self, _: Ordering) -> u64 {
            self.swap(|x| x)
        }
        pub fn store(&self, y: u64, _: Ordering) {
            self.swap(|_| y);
        }
        pub fn fetch_add(&self, y: u64, _: Ordering) -> u64 {
            self.swap(|x| x.wrapping_add(y))
        }
        pub fn fetch_sub(&self, y: u64, _: Ordering) -> u64 {
            self.swap(|x| x.wrapping_sub(y))
        }
        pub fn fetch_min(&self, y: u64, _: Ordering) -> u64 {
            self.swap(|x| x.min(y))
        }
    }
}
#[path = "../../sim/src/cmd.rs"]
mod cmd;
#[path = "../../sim/src/engine.rs"]
mod engine;
#[allow(non_snake_case)]
#[path = "../../sim/src/gen_acc.rs"]
mod gen_acc;
#[allow(non_snake_case)]
#[path = "../../sim/src/gen_cmd.rs"]
mod gen_cmd;
#[path = "../../sim/src/hex.rs"]
mod hex;
#[path = "../../sim/src/refdec.rs"]
mod refdec;
#[path = "../../sim/src/refparse.rs"]
mod refparse;
#[path = "../../sim/src/rng.rs"]
mod rng;
#[path = "../../sim/src/val.rs"]
mod val;

use cmd::Cmd;
use gen_acc::{packet_payload, variant_name};
use hex::{enc, Hex};
use serde::Deserialize;
use std::convert::TryFrom;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use ublox::cfg_val::CfgVal;
use ublox::*;

// what the shared engine expects of its program
pub enum End {
    Code(i32),
    Killed(String),
}
pub fn spawn(_args: &[String], _quiet: bool) -> End {
    End::Code(2)
}

#[derive(Deserialize)]
struct Req {
    full: bool,
    /// size of the parser's memory; none: a growable one
    buf: Option<u32>,
    /// per lifetime of the parser: bytes of each read and how many items are taken (none: all)
    lives: Vec<Vec<(Hex, Option<u16>)>>,
    cmds: Vec<Cmd>,
    /// capacities of a sink the commands are written to
    sinks: Vec<u16>,
    /// stored configuration items
    kv: Vec<Hex>,
}

struct Trace {
    full: bool,
    hashes: Vec<u64>,
    text: Vec<String>,
    /// serialised forms, where the build has them
    ser: Vec<u64>,
    ser_text: Vec<String>,
}
impl Trace {
    fn digest(s: &str) -> u64 {
        s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100000001b3))
    }
    fn put(&mut self, s: String) {
        self.hashes.push(Self::digest(&s));
        if self.full {
            self.text.push(s);
        }
    }
    fn put_ser(&mut self, s: String) {
        self.ser.push(Self::digest(&s));
        if self.full {
            self.ser_text.push(s);
        }
    }
}

fn derived(p: &PacketRef<'_>) -> String {
    match p {
        PacketRef::NavPosLlh(x) => format!("{:?}", Position::from(x)),
        PacketRef::NavHpPosLlh(x) => format!("{:?}", Position::from(x)),
        PacketRef::NavHpPosEcef(x) => format!("{:?}", PositionECEF::from(x)),
        PacketRef::NavVelNed(x) => format!("{:?}", Velocity::from(x)),
        PacketRef::NavPvt(x) => format!(
            "{:?} {:?} {:?}",
            Position::from(x),
            Velocity::from(x),
            chrono::DateTime::<chrono::Utc>::try_from(x).map_err(|e| format!("{:?} {}", e, e))
        ),
        PacketRef::AckAck(x) => format!("{}", x.is_ack_for::<CfgRate>()),
        PacketRef::AckNak(x) => format!("{}", x.is_nak_for::<CfgRate>()),
        _ => String::new(),
    }
}
fn item(r: &Result<PacketRef<'_>, ParserError>) -> String {
    match r {
        Ok(p) => {
            let mut d = val::Decoded::default();
            gen_acc::acc_packet(p, &mut d);
            format!("{} {} {:?} {} {:?}", variant_name(p), enc(packet_payload(p)), d.vals, derived(p), p)
        },
        Err(e) => format!("error {:?} {}", e, e),
    }
}
fn parse<T: UnderlyingBuffer>(p: &mut Parser<T>, reads: &[(Hex, Option<u16>)], t: &mut Trace) {
    let mut budget = 2 * reads.iter().map(|r| r.0 .0.len()).sum::<usize>() + 4;
    for (b, take) in reads {
        {
            let mut it = p.consume(&b.0);
            let mut n = 0;
            while take.map_or(true, |k| n < k) {
                let Some(r) = it.next() else { break };
                t.put(item(&r));
                #[cfg(feature = "up_serde")]
                if let Ok(p) = &r {
                    t.put_ser(serde_json::to_string(p).unwrap_or_else(|e| e.to_string()));
                }
                n += 1;
                budget -= 1;
                if budget == 0 {
                    t.put("endless".into());
                    return;
                }
            }
        }
        t.put(format!("kept {} empty {}", p.buffer_len(), p.is_buffer_empty()));
    }
}
struct Sink {
    b: Vec<u8>,
    cap: usize,
}
impl MemWriter for Sink {
    type Error = u8;
    fn reserve_allocate(&mut self, len: usize) -> Result<(), MemWriterError<u8>> {
        if len > self.cap - self.b.len() {
            return Err(MemWriterError::NotEnoughMem);
        }
        Ok(())
    }
    fn write(&mut self, buf: &[u8]) -> Result<(), MemWriterError<u8>> {
        if buf.len() > self.cap - self.b.len() {
            return Err(MemWriterError::Custom(7));
        }
        self.b.extend(buf);
        Ok(())
    }
}

fn run(q: &Req, t: &mut Trace) {
    for life in &q.lives {
        match q.buf {
            Some(n) => {
                let mut mem: Vec<u8> = (0..n as usize).map(|i| if i % 2 == 0 { 0xB5 } else { 0x62 }).collect();
                let mut p = Parser::new(FixedLinearBuffer::new(&mut mem[..]));
                parse(&mut p, life, t);
            },
            #[cfg(any(feature = "up_std", feature = "up_alloc"))]
            None => {
                let mut p: Parser<Vec<u8>> = Parser::default();
                parse(&mut p, life, t);
            },
            #[cfg(not(any(feature = "up_std", feature = "up_alloc")))]
            None => {},
        }
    }
    for (k, c) in q.cmds.iter().enumerate() {
        if !c.ok() {
            continue;
        }
        for (how, f) in c.forms() {
            t.put(format!("{} {} {}", c.name(), how, enc(&f)));
        }
        if let Some(cap) = q.sinks.get(k) {
            let mut s = Sink { b: vec![], cap: usize::from(*cap) };
            let r = c.write_to(&mut s);
            t.put(format!("{:?} {}", r, enc(&s.b)));
        }
    }
    for b in &q.kv {
        if let Some(size) = b.0.get(..4).map(|k| cmd::key_size(u32::from_le_bytes([k[0], k[1], k[2], k[3]]))) {
            let key = u32::from_le_bytes([b.0[0], b.0[1], b.0[2], b.0[3]]);
            if b.0.len() >= 4 + size && !cmd::key_kind(key).is_empty() {
                t.put(format!("{:?}", CfgVal::parse(&b.0)));
            }
        }
    }
}

const STACK: usize = 512 << 10;

fn main() {
    engine::install_hook();
    let inp = std::io::stdin();
    let mut out = std::io::stdout();
    for l in inp.lock().lines() {
        let Ok(l) = l else { break };
        let ans = match serde_json::from_str::<Req>(&l) {
            Err(e) => format!("?{}", e),
            Ok(q) => {
                let mut t = Trace { full: q.full, hashes: vec![], text: vec![], ser: vec![], ser_text: vec![] };
                // (an embedded application has far less room than that)
                let small = |q: &Req, t: &mut Trace| match cfg!(any(miri, not(feature = "small"))) {
                    true => catch_unwind(AssertUnwindSafe(|| run(q, t))).is_err(),
                    false => std::thread::scope(|s| {
                        let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || run(q, t));
                        h.map_or(true, |h| h.join().is_err())
                    }),
                };
                if small(&q, &mut t) {
                    t.put("panic".into());
                }
                if q.full {
                    serde_json::to_string(&(t.text, t.ser_text)).unwrap_or_default()
                } else {
                    let hex = |v: &[u64]| v.iter().map(|h| format!("{:x}", h)).collect::<Vec<_>>().join(" ");
                    format!("{}|{}", hex(&t.hashes), hex(&t.ser))
                }
            },
        };
        if writeln!(out, "{}", ans).and_then(|_| out.flush()).is_err() {
            break;
        }
    }
}

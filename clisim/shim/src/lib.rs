//! Stands in for the `serialport` crate: the same API and types, but `open` gives a port to a simulated
//! receiver that runs a script from standard input. Everything the port does is told on standard
//! output, between what the program prints, so the order of both is known. No time passes for real.
pub use real::*;
use std::collections::VecDeque;
use std::io::{self, Read, Write};
use std::time::Duration;

pub fn new<'a>(path: impl Into<std::borrow::Cow<'a, str>>, baud_rate: u32) -> Builder {
    Builder {
        path: path.into().into_owned(),
        baud: baud_rate,
        data: DataBits::Eight,
        flow: FlowControl::None,
        parity: Parity::None,
        stop: StopBits::One,
        timeout: Duration::from_millis(0),
    }
}
#[derive(Clone, Debug)]
#[must_use]
pub struct Builder {
    path: String,
    baud: u32,
    data: DataBits,
    flow: FlowControl,
    parity: Parity,
    stop: StopBits,
    timeout: Duration,
}
impl Builder {
    pub fn path<'a>(mut self, p: impl Into<std::borrow::Cow<'a, str>>) -> Self {
        self.path = p.into().into_owned();
        self
    }
    pub fn baud_rate(mut self, b: u32) -> Self {
        self.baud = b;
        self
    }
    pub fn data_bits(mut self, d: DataBits) -> Self {
        self.data = d;
        self
    }
    pub fn flow_control(mut self, f: FlowControl) -> Self {
        self.flow = f;
        self
    }
    pub fn parity(mut self, p: Parity) -> Self {
        self.parity = p;
        self
    }
    pub fn stop_bits(mut self, s: StopBits) -> Self {
        self.stop = s;
        self
    }
    pub fn timeout(mut self, t: Duration) -> Self {
        self.timeout = t;
        self
    }
    pub fn open(self) -> Result<Box<dyn SerialPort>> {
        let p = Port::new(self);
        Ok(Box::new(p))
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|v| format!("{:02x}", v)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    (0..b.len() / 2).filter_map(|i| u8::from_str_radix(std::str::from_utf8(&b[2 * i..2 * i + 2]).ok()?, 16).ok()).collect()
}

/// Script: one item per line.
/// `reads 5 t i 64` what each read does, over and over: at most so many bytes, a timeout, an interruption
/// `writes 3 i 100` likewise for writes
/// `limit N` end of the simulation after so many reads
/// `burst N` messages the receiver keeps queued (0: one message every `gap` idle reads)
/// `gap N`
/// `msg HEX` what the receiver sends on its own, in turn
/// `reply DELAY HEX` answers to the first, second, ... complete command, after DELAY further messages
#[derive(Default)]
struct Script {
    reads: Vec<String>,
    writes: Vec<String>,
    limit: u64,
    burst: usize,
    gap: u64,
    msgs: Vec<Vec<u8>>,
    replies: VecDeque<(u64, Vec<u8>)>,
}
struct Port {
    b: Builder,
    s: Script,
    out: VecDeque<u8>,
    rx: Vec<u8>,
    nread: u64,
    nwrite: u64,
    nmsg: u64,
    idle: u64,
    due: Vec<(u64, Vec<u8>)>,
}
impl Port {
    fn new(b: Builder) -> Port {
        println!(
            "@OPEN {} {} {:?} {:?} {:?} {:?}",
            b.path.replace(' ', "_"),
            b.baud,
            b.data,
            b.parity,
            b.stop,
            b.flow
        );
        let mut text = String::new();
        let _ = io::stdin().read_to_string(&mut text);
        let mut s = Script::default();
        for l in text.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "reads" => s.reads = v.split_whitespace().map(|x| x.into()).collect(),
                "writes" => s.writes = v.split_whitespace().map(|x| x.into()).collect(),
                "limit" => s.limit = v.parse().unwrap_or(1),
                "burst" => s.burst = v.parse().unwrap_or(0),
                "gap" => s.gap = v.parse().unwrap_or(0),
                "msg" => s.msgs.push(unhex(v)),
                "reply" => {
                    let (d, h) = v.split_once(' ').unwrap_or((v, ""));
                    s.replies.push_back((d.parse().unwrap_or(0), unhex(h)));
                },
                _ => {},
            }
        }
        Port { b, s, out: VecDeque::new(), rx: vec![], nread: 0, nwrite: 0, nmsg: 0, idle: 0, due: vec![] }
    }
    fn talk(&mut self) {
        if !self.s.msgs.is_empty() {
            let m = &self.s.msgs[self.nmsg as usize % self.s.msgs.len()];
            self.out.extend(m);
        }
        self.nmsg += 1;
        self.answer();
    }
    fn answer(&mut self) {
        let n = self.nmsg;
        let (now, later): (Vec<_>, Vec<_>) = std::mem::take(&mut self.due).into_iter().partition(|d| d.0 <= n);
        self.due = later;
        for (_, r) in now {
            self.out.extend(r);
        }
    }
}
impl Read for Port {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.nread >= self.s.limit {
            println!("@END");
            let _ = io::stdout().flush();
            std::process::exit(0);
        }
        let op = if self.s.reads.is_empty() { "4096".to_string() } else { self.s.reads[self.nread as usize % self.s.reads.len()].clone() };
        self.nread += 1;
        if self.s.burst > 0 {
            while self.out.len() < self.s.burst {
                self.talk();
            }
        } else if self.out.is_empty() {
            self.idle += 1;
            if self.idle > self.s.gap {
                self.idle = 0;
                self.talk();
            }
        }
        match op.as_str() {
            "i" => {
                println!("@I");
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            },
            "t" => {
                println!("@T");
                return Err(io::Error::new(io::ErrorKind::TimedOut, "timeout"));
            },
            _ => {},
        }
        let n = op.parse::<usize>().unwrap_or(1).max(1).min(buf.len()).min(self.out.len());
        if n == 0 {
            println!("@T");
            return Err(io::Error::new(io::ErrorKind::TimedOut, "timeout"));
        }
        for d in buf.iter_mut().take(n) {
            *d = self.out.pop_front().unwrap_or(0);
        }
        println!("@R {}", hex(&buf[..n]));
        Ok(n)
    }
}
impl Write for Port {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let op = if self.s.writes.is_empty() { "4096".to_string() } else { self.s.writes[self.nwrite as usize % self.s.writes.len()].clone() };
        self.nwrite += 1;
        if self.nwrite > 10_000 {
            println!("@WRITELOOP");
            let _ = io::stdout().flush();
            std::process::exit(0);
        }
        if op == "i" {
            println!("@WI");
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let n = op.parse::<usize>().unwrap_or(4096).max(1).min(buf.len());
        println!("@W {}", hex(&buf[..n]));
        self.rx.extend(&buf[..n]);
        // complete commands are answered
        while self.rx.len() >= 8 {
            let len = 8 + usize::from(self.rx[4]) + 256 * usize::from(self.rx[5]);
            if self.rx.len() < len {
                break;
            }
            self.rx.drain(..len);
            if let Some((d, r)) = self.s.replies.pop_front() {
                self.due.push((self.nmsg + d, r));
                self.answer();
            }
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl SerialPort for Port {
    fn name(&self) -> Option<String> {
        Some(self.b.path.clone())
    }
    fn baud_rate(&self) -> Result<u32> {
        Ok(self.b.baud)
    }
    fn data_bits(&self) -> Result<DataBits> {
        Ok(self.b.data)
    }
    fn flow_control(&self) -> Result<FlowControl> {
        Ok(self.b.flow)
    }
    fn parity(&self) -> Result<Parity> {
        Ok(self.b.parity)
    }
    fn stop_bits(&self) -> Result<StopBits> {
        Ok(self.b.stop)
    }
    fn timeout(&self) -> Duration {
        self.b.timeout
    }
    fn set_baud_rate(&mut self, b: u32) -> Result<()> {
        println!("@SET baud {}", b);
        self.b.baud = b;
        Ok(())
    }
    fn set_data_bits(&mut self, d: DataBits) -> Result<()> {
        println!("@SET data {:?}", d);
        self.b.data = d;
        Ok(())
    }
    fn set_flow_control(&mut self, f: FlowControl) -> Result<()> {
        println!("@SET flow {:?}", f);
        self.b.flow = f;
        Ok(())
    }
    fn set_parity(&mut self, p: Parity) -> Result<()> {
        println!("@SET parity {:?}", p);
        self.b.parity = p;
        Ok(())
    }
    fn set_stop_bits(&mut self, s: StopBits) -> Result<()> {
        println!("@SET stop {:?}", s);
        self.b.stop = s;
        Ok(())
    }
    fn set_timeout(&mut self, t: Duration) -> Result<()> {
        self.b.timeout = t;
        Ok(())
    }
    fn write_request_to_send(&mut self, _l: bool) -> Result<()> {
        Ok(())
    }
    fn write_data_terminal_ready(&mut self, _l: bool) -> Result<()> {
        Ok(())
    }
    fn read_clear_to_send(&mut self) -> Result<bool> {
        Ok(true)
    }
    fn read_data_set_ready(&mut self) -> Result<bool> {
        Ok(true)
    }
    fn read_ring_indicator(&mut self) -> Result<bool> {
        Ok(false)
    }
    fn read_carrier_detect(&mut self) -> Result<bool> {
        Ok(true)
    }
    fn bytes_to_read(&self) -> Result<u32> {
        Ok(self.out.len() as u32)
    }
    fn bytes_to_write(&self) -> Result<u32> {
        Ok(0)
    }
    fn clear(&self, _b: ClearBuffer) -> Result<()> {
        Ok(())
    }
    fn try_clone(&self) -> Result<Box<dyn SerialPort>> {
        Err(Error::new(ErrorKind::Unknown, "not simulated"))
    }
    fn set_break(&self) -> Result<()> {
        Ok(())
    }
    fn clear_break(&self) -> Result<()> {
        Ok(())
    }
}

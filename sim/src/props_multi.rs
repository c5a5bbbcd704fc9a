//! C13: several parsers in one process, their operations interleaved one by one.
use crate::engine::{lib, Ctx, Sim, Tier, Viol, R};
use crate::ensure;
use crate::link::*;
use crate::linkgen::*;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use ublox::{FixedLinearBuffer, PacketRef, Parser, ParserError, ParserIter, UnderlyingBuffer};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Multi {
    pub ports: Vec<Plan>,
    /// which port does its next operation (receive, poll once, or stop iterating)
    pub sched: Vec<u8>,
    /// operations at these steps run on another thread
    pub hops: Vec<u16>,
    /// while a packet that every so many-th step yields is in the application's hands, the next port
    /// operates (0: never)
    #[serde(default)]
    pub holds: u8,
}

/// What one operation saw.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Ev {
    Item(Item),
    End,
    Read { len: usize, empty: bool },
}
fn show_ev(e: Option<&Ev>) -> String {
    match e {
        None => "nothing".into(),
        Some(Ev::Item(i)) => i.short(),
        Some(Ev::End) => "the end".into(),
        Some(Ev::Read { len, empty }) => format!("{} bytes kept (empty {})", len, empty),
    }
}

trait Port {
    /// One operation; false if there is nothing left to do. `held` runs while a packet is in hand.
    fn step(&mut self, held: Option<&mut dyn FnMut()>) -> bool;
    fn log(&mut self) -> &mut Vec<Ev>;
    fn live(&self) -> bool;
}
struct PortOf<T: UnderlyingBuffer + 'static> {
    it: Option<ParserIter<'static, T>>,
    parser: *mut Parser<T>,
    region: Option<*mut [u8]>,
    inc: Inc,
    next: usize,
    polled: usize,
    total: usize,
    log: Vec<Ev>,
}
impl<T: UnderlyingBuffer + 'static> Drop for PortOf<T> {
    fn drop(&mut self) {
        self.it = None;
        // SAFETY: made by Box::into_raw in `port`, and the iterator borrowing it is gone
        unsafe {
            drop(Box::from_raw(self.parser));
            if let Some(r) = self.region {
                drop(Box::from_raw(r));
            }
        }
    }
}
impl<T: UnderlyingBuffer + 'static> Port for PortOf<T> {
    fn step(&mut self, held: Option<&mut dyn FnMut()>) -> bool {
        // SAFETY: `self.it` is the only borrow of the parser and is gone whenever the parser is used
        match self.it.as_mut() {
            None => {
                let Some((end, _, _)) = self.inc.reads.get(self.next) else { return false };
                let start = if self.next == 0 { self.inc.prefill } else { self.inc.reads[self.next - 1].0 };
                let data: &'static [u8] = unsafe { &*(&self.inc.stream[start..*end] as *const [u8]) };
                let ps: &'static mut Parser<T> = unsafe { &mut *self.parser };
                self.it = Some(lib(|| ps.consume(data)));
                self.polled = 0;
            },
            Some(it) => {
                let mode = self.inc.reads[self.next].1;
                let stop = match mode {
                    Mode::Take { n } | Mode::Panic { n } => n as usize,
                    Mode::NoPoll => 0,
                    _ => usize::MAX,
                };
                let mut done = self.polled >= stop;
                if !done {
                    let ev = match lib(|| it.next()) {
                        None => Ev::End,
                        Some(r) => Ev::Item(match held {
                            None => to_item(&r),
                            Some(held) => {
                                let all = |r: &Result<PacketRef, ParserError>| {
                                    let mut d = crate::val::Decoded::default();
                                    if let Ok(p) = r {
                                        lib(|| crate::gen_acc::acc_packet(p, &mut d));
                                    }
                                    (to_item(r), format!("{:?}", d))
                                };
                                let before = all(&r);
                                held();
                                if all(&r) == before {
                                    before.0
                                } else {
                                    Item::Other(format!("{} and then, still in hand, {}", before.0.short(), to_item(&r).short()))
                                }
                            },
                        }),
                    };
                    done = ev == Ev::End;
                    self.polled += 1;
                    self.total += 1;
                    self.log.push(ev);
                }
                // no more than one item and one end per byte or read
                if self.total > 2 * self.inc.stream.len() + 2 * self.inc.reads.len() + 4 {
                    self.log.push(Ev::Item(Item::Other("endless".into())));
                    self.next = self.inc.reads.len();
                    self.it = None;
                    return true;
                }
                if done {
                    self.it = None;
                    self.next += 1;
                    let ps: &Parser<T> = unsafe { &*self.parser };
                    let (len, empty) = lib(|| (ps.buffer_len(), ps.is_buffer_empty()));
                    self.log.push(Ev::Read { len, empty });
                }
            },
        }
        true
    }
    fn log(&mut self) -> &mut Vec<Ev> {
        &mut self.log
    }
    fn live(&self) -> bool {
        self.it.is_some()
    }
}
fn port(p: &Plan, inc: &Inc) -> Box<dyn Port> {
    fn mk<T: UnderlyingBuffer + 'static>(ps: Parser<T>, inc: &Inc, region: Option<*mut [u8]>) -> Box<dyn Port> {
        Box::new(PortOf {
            it: None,
            parser: Box::into_raw(Box::new(ps)),
            region,
            inc: inc.clone(),
            next: 0,
            polled: 0,
            total: 0,
            log: vec![],
        })
    }
    match &p.buf {
        Buf::Vec | Buf::Prefilled { .. } => {
            if inc.prefill > 0 {
                mk(Parser::new(inc.stream[..inc.prefill].to_vec()), inc, None)
            } else {
                mk(Parser::<Vec<u8>>::default(), inc, None)
            }
        },
        Buf::Fixed { n } => {
            let region = Box::into_raw(vec![0u8; *n as usize].into_boxed_slice());
            // SAFETY: freed by PortOf::drop after the parser
            let slice: &'static mut [u8] = unsafe { &mut *region };
            mk(Parser::new(lib(|| FixedLinearBuffer::new(slice))), inc, Some(region))
        },
        Buf::Strict { cap, extra, own_find } => {
            mk(Parser::new(Strict::new(*cap as usize, *extra as usize, *own_find)), inc, None)
        },
    }
}

struct Hop<'a>(&'a mut Box<dyn Port>);
// SAFETY: the operation runs while the owner waits for it; every parser and buffer used is Send
unsafe impl Send for Hop<'_> {}

pub struct C13;
impl Sim for C13 {
    type Case = Multi;
    const ID: &'static str = "C13";
    const SOLO: bool = true;
    const RULE: &'static str = "A run opens 2 to 5 parsers of any buffer kind, each on its own simulated port, and lets a seeded scheduler pick which performs its next operation (receive, one poll, stop iterating), iterators of several parsers being alive at once, some operations running on another thread and some while a packet of another parser is in the application's hands (which must not change); non-trivial if at least two iterators were alive at once. Oracle: each port's event log equals the log of the same port alone.";
    const REAL: &'static [&'static str] = &["ublox::Parser and its iterators", "FixedLinearBuffer", "PacketRef decoding"];
    const STUB: &'static [&'static str] = &["receivers", "serial lines", "UART FIFOs", "host read loops", "scheduler of the ports", "user-supplied buffers"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 120_000 } else { 2_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> Multi {
        let n = r.range(2, 5);
        let mut ports: Vec<Plan> = vec![];
        for k in 0..n {
            if k > 0 && r.chance(1, 5) {
                // the same traffic on another port, perhaps read differently
                let mut p: Plan = ports[k - 1].clone();
                let early = r.chance(1, 2);
                p.host = gen_host(r, &p.tx, p.baud, early, false);
                ports.push(p);
                continue;
            }
            let early = r.chance(1, 2);
            let mut p = gen_plan(r, &Prof { early, max_ops: 6, max_len: 80, big: false, ..GROW });
            match r.below(6) {
                0 => p.buf = Buf::Fixed { n: fixed_size(r, &p.tx) },
                1 => p.buf = Buf::Strict { cap: fixed_size(r, &p.tx), extra: 0, own_find: r.chance(1, 2) },
                _ => {},
            }
            ports.push(p);
        }
        let ops = r.range(4, 400);
        let style = r.below(4);
        let mut cur = 0u8;
        let sched = (0..ops)
            .map(|i| {
                match style {
                    0 => cur = r.below(n) as u8,
                    1 => cur = (i % n) as u8,
                    2 => {
                        if r.chance(1, 4) {
                            cur = r.below(n) as u8;
                        }
                    },
                    _ => {
                        // one port is starved
                        cur = if r.chance(1, 20) { 0 } else { r.range(1, n - 1) as u8 };
                    },
                }
                cur
            })
            .collect();
        let hops = if r.chance(1, 10) { (0..r.range(1, 12)).map(|_| r.below(ops) as u16).collect() } else { vec![] };
        let holds = if r.chance(1, 3) { r.range(1, 4) as u8 } else { 0 };
        Multi { ports, sched, hops, holds }
    }
    fn run(c: &Multi, x: &mut Ctx) -> R {
        if !c.ports.iter().all(plan_ok) {
            return Ok(());
        }
        let incs: Vec<Inc> =
            c.ports.iter().map(|p| deliver(p, x).into_iter().next().unwrap_or_default()).collect();
        // alone
        let mut alone: Vec<Vec<Ev>> = vec![];
        for (p, i) in c.ports.iter().zip(&incs) {
            let mut q = port(p, i);
            while q.step(None) {}
            alone.push(std::mem::take(q.log()));
        }
        // together
        let mut ports: Vec<Option<Box<dyn Port>>> = c.ports.iter().zip(&incs).map(|(p, i)| Some(port(p, i))).collect();
        let mut both = 0u64;
        let mut nested = 0u64;
        let mut step = |k: usize, at: usize, ports: &mut Vec<Option<Box<dyn Port>>>, x: &mut Ctx| -> Result<bool, Viol> {
            let Some(mut own) = ports[k].take() else { return Ok(false) };
            let other = (k + 1) % ports.len();
            let hold = c.holds > 0 && at % usize::from(c.holds) == 0 && other != k;
            let mut held = || {
                if let Some(q) = ports[other].as_mut() {
                    nested += 1;
                    q.step(None);
                }
            };
            let more = if c.hops.contains(&(at as u16)) {
                x.count("fault.thread_hop", 1);
                let h = Hop(&mut own);
                let done = std::thread::scope(|s| {
                    s.spawn(move || {
                        let h = h;
                        h.0.step(None)
                    })
                    .join()
                });
                match done {
                    Ok(m) => m,
                    Err(_) => return crate::engine::viol("panic:hop", "the library panicked when a parser was used from another thread"),
                }
            } else {
                own.step(if hold { Some(&mut held) } else { None })
            };
            ports[k] = Some(own);
            if ports.iter().flatten().filter(|p| p.live()).count() > 1 {
                both += 1;
            }
            x.num(k as u64);
            Ok(more)
        };
        let n = ports.len();
        let mut at = 0;
        if n > 0 {
            for s in &c.sched {
                step(*s as usize % n, at, &mut ports, x)?;
                at += 1;
            }
            let mut more = true;
            while more {
                more = false;
                for k in 0..n {
                    more |= step(k, usize::from(u16::MAX) + 1, &mut ports, x)?;
                }
            }
        }
        x.count("probe.two_iterators_alive", both);
        x.count("fault.other_port_while_packet_in_hand", nested);
        x.count("fault.port_switch", c.sched.windows(2).filter(|w| w[0] != w[1]).count() as u64);
        x.nontrivial = both > 0;
        for (k, q) in ports.iter_mut().flatten().enumerate() {
            let log = std::mem::take(q.log());
            for e in &log {
                if let Ev::Item(i) = e {
                    x.feed(i.short().as_bytes());
                }
            }
            let solo = &alone[k];
            let d = (0..log.len().max(solo.len())).find(|i| log.get(*i) != solo.get(*i));
            if let Some(d) = d {
                ensure!(
                    false,
                    "interference",
                    "port {}: event {} is {} with the other ports running, {} alone",
                    k,
                    d,
                    show_ev(log.get(d)),
                    show_ev(solo.get(d))
                );
            }
        }
        Ok(())
    }
}

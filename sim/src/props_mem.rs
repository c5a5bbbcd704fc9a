//! C27: what the library takes from the heap.
use crate::cmd::{gen_cmd, num, Cmd, V};
use crate::engine::{Ctx, Sim, Tier, R};
use crate::heap::{counted, live, peak, reset};
use crate::link::{deliver, ident, plan_ok, Buf, Inc, Mode, Plan};
use crate::linkgen::{fixed_size, gen_plan, Prof, GROW};
use crate::rng::Rng;
use crate::{bail, ensure, with_builder, with_default, with_meta};
use serde::{Deserialize, Serialize};
use std::hint::black_box;
use ublox::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MemCase {
    pub plan: Plan,
    /// commands sent after the read with that number
    pub cmds: Vec<(u16, Cmd)>,
}

/// Takes text and keeps none.
struct Nowhere(usize);
impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
impl std::io::Write for Nowhere {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// A transmitter with memory of its own.
pub struct Fifo {
    b: [u8; 256],
    n: usize,
}
impl MemWriter for Fifo {
    type Error = ();
    fn reserve_allocate(&mut self, len: usize) -> Result<(), MemWriterError<()>> {
        if len > self.b.len() - self.n { Err(MemWriterError::NotEnoughMem) } else { Ok(()) }
    }
    fn write(&mut self, buf: &[u8]) -> Result<(), MemWriterError<()>> {
        self.reserve_allocate(buf.len())?;
        self.b[self.n..self.n + buf.len()].copy_from_slice(buf);
        self.n += buf.len();
        Ok(())
    }
}

fn look(p: &PacketRef<'_>) {
    use std::fmt::Write;
    let mut s = Nowhere(0);
    let _ = write!(s, "{:?}", p);
    let _ = write!(s, "{:#06.1x?}", p);
    let _ = serde_json::to_writer(&mut s, p);
    black_box(s.0);
    crate::nav::derive(p);
    match p {
        PacketRef::NavSat(x) => x.svs().for_each(|v| {
            black_box((v.sv_id(), v.pr_res(), v.flags()));
        }),
        PacketRef::EsfMeas(x) => {
            black_box((x.data().count(), x.calib_tag()));
        },
        PacketRef::EsfRaw(x) => {
            black_box(x.data().count());
        },
        PacketRef::RxmRawx(x) => x.measurements().for_each(|m| {
            black_box((m.sv_id(), m.pr_mes()));
        }),
        PacketRef::RxmSfrbx(x) => {
            black_box(x.dwrd().count());
        },
        PacketRef::MonVer(x) => {
            black_box((x.software_version(), x.hardware_version()));
            black_box(x.extension().map(str::len).sum::<usize>());
        },
        PacketRef::MonGnss(x) => {
            black_box(x.simultaneous());
        },
        PacketRef::Unknown(x) => {
            black_box((x.class, x.msg_id, x.payload.len()));
        },
        _ => {},
    }
}

/// A command in every form that needs no growing memory.
fn send(c: &Cmd, x: &mut Ctx) -> R {
    let mut n = 0u64;
    let mut forms = 0u64;
    match c {
        Cmd::Msg { k, v } => {
            let get = |n: &str| v.get(n).cloned().flatten();
            with_builder!(k.as_str(), &get, b => { n += counted(|| { black_box(b.into_packet_bytes()); }).1; forms += 1 }, ());
            with_builder!(k.as_str(), &get, b => {
                let mut f = Fifo { b: [0; 256], n: 0 };
                n += counted(|| { let _ = black_box(b.create_packet(&mut f)); }).1;
                forms += 1;
            }, ());
        },
        Cmd::Dflt { k, v } => {
            with_default!(k.as_str(), v, b => { n += counted(|| { black_box(b.into_packet_bytes()); }).1; forms += 1 }, ());
        },
        Cmd::Poll { k } => {
            with_meta!(k.as_str(), T => { n += counted(|| { black_box(UbxPacketRequest::request_for::<T>().into_packet_bytes()); }).1; forms += 1 }, ());
        },
        Cmd::PollId { c, i } => {
            n += counted(|| {
                black_box(UbxPacketRequest::request_for_unknown(*c, *i).into_packet_bytes());
            })
            .1;
            forms += 1;
        },
        Cmd::Rate { k, rates } => {
            let r = rates.0.first().copied().unwrap_or(0);
            with_meta!(k.as_str(), T => {
                n += counted(|| {
                    black_box(CfgMsgAllPortsBuilder::set_rate_for::<T>([r; 6]).into_packet_bytes());
                    black_box(CfgMsgSinglePortBuilder::set_rate_for::<T>(r).into_packet_bytes());
                })
                .1;
                forms += 2
            }, ());
        },
        Cmd::ValSet { .. } => {
            // a growing form: it may take what its frame needs, and gives it back
            reset();
            let mut len = 0;
            let (items, layers) = match c {
                Cmd::ValSet { items, layers, .. } => (Cmd::cfg_vals(items), *layers),
                _ => return Ok(()),
            };
            let b = CfgValSetBuilder { version: 0, layers: crate::gen_cmd::fl_CfgLayer(layers), reserved1: 0, cfg_data: &items };
            counted(|| {
                let v = black_box(b.into_packet_vec());
                len = v.len();
            });
            let want = 4 * len as i64 + 256;
            ensure!(peak() <= want, "vector-too-big", "{} of {} bytes took up to {} bytes of heap", c.name(), len, peak());
            ensure!(live() == 0, "leak", "{} left {} bytes of heap taken", c.name(), live());
            x.count("probe.vector_frame", 1);
            return Ok(());
        },
        Cmd::Rst { mask, mode } => {
            let reset_mode = crate::gen_cmd::en_ResetMode(num(&Some(V::N(i64::from(*mode)))));
            let nav_bbr_mask = crate::gen_cmd::fl_NavBbrMask(u16::from(*mask));
            n += counted(|| {
                black_box(CfgRstBuilder { nav_bbr_mask, reset_mode, reserved1: 0 }.into_packet_bytes());
            })
            .1;
            forms += 1;
        },
    }
    ensure!(n == 0, "heap-used", "{} in a form of fixed size asked the heap for memory {} times", c.name(), n);
    x.count("fault.command_built_with_no_heap_left", forms);
    Ok(())
}

const FRAME: i64 = 8184;
struct Bounds {
    fixed: bool,
    widest: usize,
    held: usize,
}
fn within(b: &Bounds, calls: u64, what: &str, end: usize) -> R {
    if b.fixed {
        ensure!(calls == 0, "heap-used", "{} by a parser on a buffer of the caller's asked the heap for memory {} times (read ending at byte {})", what, calls, end);
    } else {
        let most = 4 * (FRAME + b.widest as i64 + b.held as i64) + 1024;
        ensure!(
            live() <= most && peak() <= most,
            "grows",
            "{} of the read ending at byte {}: {} bytes of heap taken, at one moment {}; the longest read was {} bytes and at most {} were ever kept",
            what,
            end,
            live(),
            peak(),
            b.widest,
            b.held
        );
    }
    Ok(())
}
fn life<T: UnderlyingBuffer>(mut p: Parser<T>, fixed: bool, inc: &Inc, cmds: &[(u16, Cmd)], x: &mut Ctx) -> R {
    let mut b = Bounds { fixed, widest: 0, held: inc.prefill };
    let mut start = inc.prefill;
    let (mut packets, mut kept) = (0u64, 0u64);
    for (k, (end, mode, _)) in inc.reads.iter().enumerate() {
        let data = &inc.stream[start..*end];
        b.widest = b.widest.max(data.len());
        let stop = match mode {
            Mode::Take { n } | Mode::Panic { n } => *n as usize,
            Mode::NoPoll => 0,
            _ => usize::MAX,
        };
        {
            let (mut it, n) = counted(|| p.consume(data));
            within(&b, n, "taking in", *end)?;
            let mut items = 0;
            while items < stop && items <= *end {
                let (m, n) = counted(|| it.next());
                within(&b, n, "taking out", *end)?;
                let Some(m) = m else { break };
                items += 1;
                match m {
                    Ok(m) => {
                        packets += 1;
                        let (_, n) = counted(|| look(&m));
                        ensure!(n == 0, "heap-used", "looking at {:?} asked the heap for memory {} times", ident(&m), n);
                    },
                    Err(e) => {
                        let (_, n) = counted(|| {
                            use std::fmt::Write;
                            let mut s = Nowhere(0);
                            let _ = write!(s, "{} {:?}", e, e);
                            black_box(s.0);
                        });
                        ensure!(n == 0, "heap-used", "the text of {:?} asked the heap for memory {} times", e, n);
                    },
                }
            }
            if items > *end {
                bail!("endless", "{} items from {} bytes", items, end);
            }
            let (_, n) = counted(|| drop(it));
            // what was left unread is kept
            b.held = b.held.max(counted(|| p.buffer_len()).0);
            within(&b, n, "putting aside", *end)?;
        }
        kept += u64::from(b.held > 0);
        for c in cmds.iter().filter(|c| usize::from(c.0) == k && c.1.ok()) {
            if matches!(c.1, Cmd::ValSet { .. }) {
                // counted apart from the parser, which keeps what it has
                let was = live();
                let top = peak();
                send(&c.1, x)?;
                crate::heap::restore(was, top);
            } else {
                send(&c.1, x)?;
            }
        }
        x.num(*end as u64);
        x.num(b.held as u64);
        start = *end;
    }
    let (_, _) = counted(|| drop(p));
    ensure!(live() == 0, "leak", "{} bytes of heap are still taken after the parser is gone", live());
    x.feed(&inc.stream);
    x.num(packets);
    x.count("probe.message_looked_at", packets);
    x.count("probe.read_with_bytes_kept", kept);
    x.nontrivial |= packets > 0 && kept > 0;
    Ok(())
}

pub struct C27;
impl Sim for C27 {
    type Case = MemCase;
    const ID: &'static str = "C27";
    const RULE: &'static str = "A run is a parser reading damaged or clean traffic, on a buffer of the caller's with no heap left or on a growing one, each delivered message looked at in full (debug and serialised form, conversions, lists), with commands built in between; non-trivial if a message was looked at and bytes were kept over a read. Oracle: the allocator seam: no request at all where none may be made, a fixed bound on what is taken elsewhere, everything given back.";
    const REAL: &'static [&'static str] = &["Parser, ParserIter, DualBuffer, both built-in buffers", "packets, their lists, conversions, Debug and Serialize", "command builders and poll requests"];
    const STUB: &'static [&'static str] = &["heap (counted; declared exhausted for fixed-size work)", "serial line, UART, host reads", "transmitter"];
    const ASSUME: &'static [&'static str] = &["requests are counted, not refused: a refused one ends the process, which would say less"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 700_000 } else { 8_000_000 }
    }
    fn gen(r: &mut Rng, t: Tier) -> MemCase {
        let typed = r.chance(1, 2);
        let early = r.chance(1, 2);
        let restarts = r.chance(1, 5);
        let mut plan = gen_plan(r, &Prof { typed, early, restarts, prefill: false, ..GROW });
        if r.chance(2, 3) {
            plan.buf = Buf::Fixed { n: fixed_size(r, &plan.tx) };
        }
        if r.chance(1, if t == Tier::Quick { 400 } else { 60 }) {
            // a long session: the same traffic over and over
            let once = plan.tx.clone();
            for _ in 0..r.range(20, 200) {
                plan.tx.extend(once.iter().cloned());
            }
        }
        let reads = plan.host.len().max(1);
        let cmds = (0..r.below(5)).map(|_| (r.below(reads) as u16, gen_cmd(r))).collect();
        MemCase { plan, cmds }
    }
    fn run(c: &MemCase, x: &mut Ctx) -> R {
        let p = &c.plan;
        if !plan_ok(p) || matches!(p.buf, Buf::Strict { .. } | Buf::Prefilled { .. }) {
            return Ok(());
        }
        let incs = deliver(p, x);
        match &p.buf {
            Buf::Fixed { n } => {
                let mut mem = vec![0xB5u8; *n as usize];
                for inc in &incs {
                    reset();
                    let (ps, k) = counted(|| Parser::new(FixedLinearBuffer::new(&mut mem)));
                    ensure!(k == 0, "heap-used", "making a parser on a buffer of the caller's asked the heap for memory {} times", k);
                    x.count("fault.parser_with_no_heap_left", 1);
                    life(ps, true, inc, &c.cmds, x)?;
                }
            },
            _ => {
                for inc in &incs {
                    reset();
                    let (ps, _) = counted(Parser::default);
                    life(ps, false, inc, &c.cmds, x)?;
                    x.count("probe.growing_parser_gone", 1);
                }
            },
        }
        Ok(())
    }
}

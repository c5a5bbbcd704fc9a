//! C18, C19, C20: sessions between a host and a device.
use crate::cmd::*;
use crate::duplex::*;
use crate::engine::{lib, viol, Ctx, Sim, Tier, Viol, R};
use crate::gen_acc::packet_payload;
use crate::gen_cmd::*;
use crate::hex::{enc, Hex};
use crate::refdec::{spec, Field};
use crate::refparse::{frame, unframe};
use crate::rng::Rng;
use crate::{bail, ensure, with_config, with_meta};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use ublox::cfg_val::CfgVal;
use ublox::{CfgValIter, PacketRef, UbxPacketCreator, UbxPacketRequest};

/// Makes sure the host reads faster than the device talks.
fn paced(p: &mut NetPlan) {
    if !fast_enough(p) {
        p.reads.push((1000, 4096));
    }
}
fn fast_enough(p: &NetPlan) -> bool {
    let bytes: u64 = p.reads.iter().map(|r| u64::from(r.1)).sum();
    let us: u64 = p.reads.iter().map(|r| u64::from(r.0)).sum();
    bytes * 1_000_000 / us.max(1) > 2 * u64::from(p.baud) / 10
}
fn sane(p: &NetPlan) -> bool {
    plan_ok(p) && fast_enough(p)
}

// ---------------------------------------------------------------- C18
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AckCase {
    pub net: NetPlan,
    pub cmds: Vec<Cmd>,
    /// what the device makes of each: 0 accepts, 1 rejects, 2 accepts from the second time on (silent
    /// before), 3 rejects the second time (silent before)
    pub policy: Vec<u8>,
}
fn ack(ok: bool, c: u8, i: u8) -> Vec<u8> {
    frame(5, u8::from(ok), &[c, i])
}
struct AckDev<'a> {
    case: &'a AckCase,
    times: BTreeMap<(u8, u8), u32>,
    /// what was decided about which frame
    accepted: Vec<Vec<u8>>,
    rejected: Vec<Vec<u8>>,
}
impl Device for AckDev<'_> {
    fn frame(&mut self, c: u8, i: u8, p: &[u8], x: &mut Ctx) -> Result<Vec<Vec<u8>>, Viol> {
        let Some(k) = self.case.cmds.iter().position(|m| m.class_id() == (c, i)) else {
            x.count("op.device_ignores_unknown", 1);
            return Ok(vec![ack(false, c, i)]);
        };
        let n = self.times.entry((c, i)).or_insert(0);
        *n += 1;
        let pol = self.case.policy.get(k).copied().unwrap_or(0) % 4;
        if pol >= 2 && *n == 1 {
            x.count("fault.device_too_busy", 1);
            return Ok(vec![]);
        }
        let ok = pol % 2 == 0;
        let f = frame(c, i, p);
        if ok {
            self.accepted.push(f);
        } else {
            self.rejected.push(f);
        }
        Ok(vec![ack(ok, c, i)])
    }
    fn reset(&mut self, _x: &mut Ctx) {
        self.times.clear();
    }
}
struct AckHost {
    cmds: Vec<Cmd>,
    frames: Vec<Vec<u8>>,
    at: usize,
    out: Vec<bool>,
}
/// The name under which the application asks whether the acknowledgement is for this command.
fn type_of_cmd(c: &Cmd) -> &str {
    match c {
        Cmd::Msg { k, .. } | Cmd::Dflt { k, .. } | Cmd::Poll { k } => k,
        Cmd::ValSet { .. } => "CfgValSet",
        Cmd::Rate { rates, .. } => {
            if rates.0.len() == 1 {
                "CfgMsgSinglePort"
            } else {
                "CfgMsgAllPorts"
            }
        },
        Cmd::Rst { .. } => "CfgRst",
        Cmd::PollId { .. } => "",
    }
}
impl HostApp for AckHost {
    fn current(&mut self) -> Option<Vec<u8>> {
        self.frames.get(self.at).cloned()
    }
    fn resolved(&self) -> usize {
        self.at
    }
    fn packet(&mut self, _now: u64, p: &PacketRef<'_>, x: &mut Ctx) -> R {
        let (good, c, i) = match p {
            PacketRef::AckAck(a) => (true, lib(|| a.class()), lib(|| a.msg_id())),
            PacketRef::AckNak(a) => (false, lib(|| a.class()), lib(|| a.msg_id())),
            _ => return Ok(()),
        };
        x.count(if good { "op.ack_read" } else { "op.nak_read" }, 1);
        let raw = packet_payload(p);
        ensure!(raw == [c, i], "wrong-ids", "an acknowledgement with payload {} says class {:02x} id {:02x}", enc(raw), c, i);
        let mine = |k: &str| -> bool {
            match p {
                PacketRef::AckAck(a) => with_meta!(k, T => lib(|| a.is_ack_for::<T>()), false),
                PacketRef::AckNak(a) => with_meta!(k, T => lib(|| a.is_nak_for::<T>()), false),
                _ => false,
            }
        };
        for k in META {
            let d = &spec().packets[*k];
            let want = (d.cls, d.id) == (c, i);
            let got = mine(k);
            ensure!(
                got == want,
                "misattributed",
                "{} naming class {:02x} id {:02x} is{} recognised as belonging to {} (class {:02x} id {:02x})",
                if good { "an acknowledgement" } else { "a rejection" },
                c,
                i,
                if got { "" } else { " not" },
                k,
                d.cls,
                d.id
            );
        }
        if let Some(cur) = self.cmds.get(self.at) {
            if mine(type_of_cmd(cur)) {
                self.out.push(good);
                self.at += 1;
            } else {
                x.count("probe.ack_for_something_else", 1);
            }
        }
        Ok(())
    }
}
pub struct C18;
impl Sim for C18 {
    type Case = AckCase;
    const ID: &'static str = "C18";
    const RULE: &'static str = "A run is a session in virtual time: a host sends up to 7 commands one after the other, each until acknowledged or rejected, to a device over two faulty lines (loss, bit flips, missing and inserted bytes, duplicates, late copies that overtake, stalls), with device resets, host restarts and acknowledgements the host never asked for; non-trivial if a fault fired and a command was resolved. Checked: attribution of every acknowledgement against every message type, every accepted or rejected command against the device's own record, and resolution within a bounded number of retries once faults stop.";
    const REAL: &'static [&'static str] = &["ublox::Parser", "AckAckRef::is_ack_for, AckNakRef::is_nak_for for every message type", "every command builder"];
    const STUB: &'static [&'static str] = &["device (reference framer, accepts or rejects)", "both lines", "host retry loop", "clock"];
    const ASSUME: &'static [&'static str] = &["at most one command of a class and id is outstanding in a session (the protocol's acknowledgement cannot tell two apart)", "the device forgets an unfinished message after a pause of 90 ms"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 250_000 } else { 6_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> AckCase {
        let mut net = gen_net(r, true);
        let mut cmds: Vec<Cmd> = vec![];
        for _ in 0..r.range(1, 7) {
            let c = gen_cmd(r);
            if matches!(c, Cmd::PollId { .. }) || cmds.iter().any(|d| d.class_id() == c.class_id()) {
                continue;
            }
            cmds.push(c);
        }
        if cmds.is_empty() {
            cmds.push(gen_msg(r, "CfgRate"));
        }
        let ids: Vec<(u8, u8)> = cmds.iter().map(|c| c.class_id()).collect();
        for _ in 0..r.skewed(8) {
            // near misses of the ids in use
            let (c, i) = *r.pick(&ids);
            let (c, i) = match r.below(5) {
                0 => (c, i ^ 1 << r.below(8)),
                1 => (c ^ 1 << r.below(8), i),
                2 => (i, c),
                3 => (c.wrapping_add(1), i.wrapping_sub(1)),
                _ => (r.u8(), r.u8()),
            };
            if !ids.contains(&(c, i)) {
                net.foreign.push((r.skewed(6000) as u32, Hex(ack(r.chance(2, 3), c, i))));
            }
        }
        paced(&mut net);
        let policy = (0..cmds.len()).map(|_| *r.pick(&[0u8, 0, 0, 1, 2, 3])).collect();
        AckCase { net, cmds, policy }
    }
    fn run(c: &AckCase, x: &mut Ctx) -> R {
        let ids: Vec<(u8, u8)> = c.cmds.iter().map(|m| m.class_id()).collect();
        let dup = (0..ids.len()).any(|k| ids[..k].contains(&ids[k]));
        let foreign_ok = c.net.foreign.iter().all(|f| match unframe(&f.1 .0) {
            Some((5, 0 | 1, &[a, b])) => !ids.contains(&(a, b)),
            _ => false,
        });
        if !sane(&c.net) || dup || !foreign_ok || !c.cmds.iter().all(|m| m.ok() && !matches!(m, Cmd::PollId { .. })) {
            return Ok(());
        }
        let mut frames = vec![];
        for m in &c.cmds {
            match m.forms().into_iter().next() {
                Some((_, f)) => {
                    m.check_frame(&f)?;
                    frames.push(f);
                },
                None => return Ok(()),
            }
        }
        let mut host = AckHost { cmds: c.cmds.clone(), frames: frames.clone(), at: 0, out: vec![] };
        let mut dev = AckDev { case: c, times: BTreeMap::new(), accepted: vec![], rejected: vec![] };
        let log = session(&c.net, &mut host, &mut dev, x)?;
        ensure!(host.at == c.cmds.len(), "harness", "the session ended early");
        for (k, ok) in host.out.iter().enumerate() {
            let record = if *ok { &dev.accepted } else { &dev.rejected };
            // a frame damaged into another valid one is beyond what a 16-bit checksum can notice
            ensure!(
                record.contains(&frames[k]) || log.undetected,
                "not-accepted",
                "{} was taken for {} but the device never did that",
                c.cmds[k].name(),
                if *ok { "accepted" } else { "rejected" }
            );
            x.num(u64::from(*ok));
            x.count(if *ok { "op.accepted" } else { "op.rejected" }, 1);
        }
        x.nontrivial = x.counts.keys().any(|k| k.starts_with("fault.")) && !host.out.is_empty();
        Ok(())
    }
}

// ---------------------------------------------------------------- C19
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Change {
    pub k: String,
    pub field: String,
    pub v: V,
    pub writer: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CfgCase {
    pub net: NetPlan,
    pub store: BTreeMap<String, Hex>,
    pub changes: Vec<Change>,
}
const PRT: [&str; 3] = ["CfgPrtI2c", "CfgPrtUart", "CfgPrtSpi"];
fn settable(k: &str) -> Vec<&'static Field> {
    spec().packets[k].fields.iter().filter(|f| !f.name.starts_with("reserved") && f.ty != "bytes").collect()
}
/// Documented bits of a field, and the value in canonical form.
fn documented(f: &Field, p: &[u8]) -> u64 {
    let w = p.iter().enumerate().fold(0u64, |a, (k, b)| a | u64::from(*b) << (8 * k));
    match f.map.as_deref() {
        Some("UartMode") => u64::from(canon_uart(w as i64)),
        Some("CfgItfmConfig2") => u64::from(canon_itfm2(w as i64)),
        Some(m) => match spec().flags.get(m) {
            Some(fl) => w & fl.consts.iter().fold(0, |a, c| a | c.1),
            None => w,
        },
        None => w,
    }
}
struct CfgDev {
    store: BTreeMap<String, Vec<u8>>,
    boot: BTreeMap<String, Vec<u8>>,
}
impl CfgDev {
    fn key(&self, c: u8, i: u8) -> Option<String> {
        self.store.keys().find(|k| (spec().packets[*k].cls, spec().packets[*k].id) == (c, i)).cloned()
    }
}
impl Device for CfgDev {
    fn frame(&mut self, c: u8, i: u8, p: &[u8], x: &mut Ctx) -> Result<Vec<Vec<u8>>, Viol> {
        let Some(k) = self.key(c, i) else { return Ok(vec![ack(false, c, i)]) };
        if p.is_empty() {
            x.count("op.poll_answered", 1);
            return Ok(vec![frame(c, i, &self.store[&k])]);
        }
        if p.len() != self.store[&k].len() {
            return Ok(vec![ack(false, c, i)]);
        }
        // reserved bytes are not settings
        let s = self.store.get_mut(&k).expect("present");
        for f in settable(&k) {
            s[f.off..f.off + f.size].copy_from_slice(&p[f.off..f.off + f.size]);
        }
        x.count("op.setting_stored", 1);
        Ok(vec![ack(true, c, i)])
    }
    fn reset(&mut self, _x: &mut Ctx) {
        self.store = self.boot.clone();
    }
}
struct CfgHost {
    changes: Vec<Change>,
    at: usize,
    /// the set command, once the settings have been read
    set: Option<Vec<u8>>,
    cycles: u64,
}
impl CfgHost {
    fn check(&self, ch: &Change, base: &[u8], f: &[u8]) -> R {
        let d = &spec().packets[&ch.k];
        let Some((c, i, p)) = unframe(f) else { bail!("malformed", "the command is {}", enc(f)) };
        ensure!((c, i, p.len()) == (d.cls, d.id, base.len()), "malformed", "the command for {} is {}", ch.k, enc(f));
        let mut v = Vals::new();
        v.insert(ch.field.clone(), Some(ch.v.clone()));
        for f in settable(&ch.k) {
            let (was, is) = (&base[f.off..f.off + f.size], &p[f.off..f.off + f.size]);
            if f.acc() == ch.field {
                if let Err(e) = field_ok(f, &Some(ch.v.clone()), is) {
                    bail!("wrong-value", "{}.{} set to {:?} is {} on the wire: {}", ch.k, ch.field, ch.v, enc(is), e);
                }
            } else {
                ensure!(
                    documented(f, was) == documented(f, is),
                    "other-setting-changed",
                    "changing {}.{} to {:?} also changed {} from {} to {}",
                    ch.k,
                    ch.field,
                    ch.v,
                    f.acc(),
                    enc(was),
                    enc(is)
                );
            }
        }
        Ok(())
    }
}
impl HostApp for CfgHost {
    fn current(&mut self) -> Option<Vec<u8>> {
        let ch = self.changes.get(self.at)?;
        match &self.set {
            Some(s) => Some(s.clone()),
            None => with_meta!(ch.k.as_str(), T => Some(lib(|| UbxPacketRequest::request_for::<T>().into_packet_bytes()).to_vec()), None),
        }
    }
    fn resolved(&self) -> usize {
        2 * self.at + usize::from(self.set.is_some())
    }
    fn packet(&mut self, _now: u64, p: &PacketRef<'_>, x: &mut Ctx) -> R {
        let Some(ch) = self.changes.get(self.at).cloned() else { return Ok(()) };
        let (_, _, name) = crate::link::ident(p);
        if self.set.is_none() {
            if name == ch.k {
                let base = packet_payload(p).to_vec();
                let mut out: Vec<u8> = vec![];
                let done = with_config!(p, ch.field.as_str(), Some(&ch.v), b => {
                    if ch.writer {
                        if lib(|| b.create_packet(&mut out)).is_err() {
                            return viol("write-failed", "a vector refused the command");
                        }
                    } else {
                        out = lib(|| b.into_packet_bytes()).to_vec();
                    }
                    true
                }, false);
                if done {
                    self.check(&ch, &base, &out)?;
                    self.set = Some(out);
                    x.nontrivial = true;
                }
            }
            return Ok(());
        }
        let mine = match p {
            PacketRef::AckAck(a) => with_meta!(ch.k.as_str(), T => lib(|| a.is_ack_for::<T>()), false),
            _ => false,
        };
        if mine {
            self.at += 1;
            self.set = None;
            self.cycles += 1;
        }
        Ok(())
    }
}
/// Does the wire word `p` carry the setting `v`?
fn field_ok(f: &Field, v: &Option<V>, p: &[u8]) -> Result<(), String> {
    crate::cmd::check_field(f, v, p)
}
pub struct C19;
impl Sim for C19 {
    type Case = CfgCase;
    const ID: &'static str = "C19";
    const RULE: &'static str = "A run is a session of up to 12 read-change-write cycles over all readable configuration messages of a device whose settings start at values chosen by the seed: poll, read with the real parser, copy every decoded setting into the command, change one, send, over segmented and (in half of the runs) faulty lines with retries and resets; non-trivial if a configuration was read and sent back. Checked on every command against the bytes read, and on the device's whole store at the end.";
    const REAL: &'static [&'static str] = &["ublox::Parser", "accessors of CfgOdo, CfgItfm, CfgAnt, CfgTp5, CfgTmode2, CfgTmode3, CfgPrtI2c, CfgPrtUart, CfgPrtSpi, CfgNav5", "their builders", "UbxPacketRequest", "AckAckRef::is_ack_for"];
    const STUB: &'static [&'static str] = &["device with a settings store", "both lines", "host retry loop", "clock"];
    const ASSUME: &'static [&'static str] = &["undocumented bits, and fields called reserved, are not settings", "the two wire codes for no parity are the same setting, as are antenna code 3 and 0"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 200_000 } else { 5_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> CfgCase {
        let faults = r.chance(1, 2);
        let mut net = gen_net(r, faults);
        paced(&mut net);
        let prt = *r.pick(&PRT);
        let ks: Vec<&str> = CONFIGS.iter().copied().filter(|k| !PRT.contains(k) || *k == prt).collect();
        let mut store = BTreeMap::new();
        for k in &ks {
            store.insert(k.to_string(), Hex(crate::frames::valid_payload(r, k)));
        }
        let few: Vec<&str> = (0..3).map(|_| *r.pick(&ks)).collect();
        let changes = (0..r.range(1, 12))
            .map(|_| {
                let k = if r.chance(2, 3) { *r.pick(&few) } else { *r.pick(&ks) };
                let f = *r.pick(&settable(k));
                Change { k: k.to_string(), field: f.acc().to_string(), v: gen_val(r, f), writer: r.chance(1, 2) }
            })
            .collect();
        CfgCase { net, store, changes }
    }
    fn run(c: &CfgCase, x: &mut Ctx) -> R {
        let ok = sane(&c.net)
            && c.store.keys().filter(|k| PRT.contains(&k.as_str())).count() <= 1
            && c.store.iter().all(|(k, p)| {
                CONFIGS.contains(&k.as_str()) && {
                    let d = &spec().packets[k];
                    crate::refdec::type_of(d.cls, d.id, &p.0) == k
                }
            })
            && c.changes.iter().all(|h| c.store.contains_key(&h.k) && settable(&h.k).iter().any(|f| f.acc() == h.field));
        if !ok {
            return Ok(());
        }
        let boot: BTreeMap<String, Vec<u8>> = c.store.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
        let mut dev = CfgDev { store: boot.clone(), boot: boot.clone() };
        let mut host = CfgHost { changes: c.changes.clone(), at: 0, set: None, cycles: 0 };
        let log = session(&c.net, &mut host, &mut dev, x)?;
        ensure!(host.at == c.changes.len(), "harness", "the session ended early");
        x.count("op.cycle", host.cycles);
        // whole history against the device's store
        let stale = c.net.up.iter().chain(&c.net.down).any(|f| matches!(f.kind, FK::Again { .. } | FK::Late { .. } | FK::Twice))
            || !c.net.resets.is_empty()
            || !c.net.host_restarts.is_empty()
            || log.undetected
            || log.retries > 0;
        if !stale {
            x.count("probe.store_compared", 1);
            for (k, was) in &boot {
                for f in settable(k) {
                    let is = &dev.store[k][f.off..f.off + f.size];
                    match c.changes.iter().rev().find(|h| h.k == *k && h.field == f.acc()) {
                        None => {
                            let w = &was[f.off..f.off + f.size];
                            ensure!(
                                documented(f, w) == documented(f, is),
                                "other-setting-changed",
                                "{}.{} was never changed but went from {} to {}",
                                k,
                                f.acc(),
                                enc(w),
                                enc(is)
                            );
                        },
                        Some(h) => {
                            if let Err(e) = field_ok(f, &Some(h.v.clone()), is) {
                                bail!("setting-lost", "{}.{} was last set to {:?}, the device has {}: {}", k, h.field, h.v, enc(is), e);
                            }
                        },
                    }
                }
            }
        }
        for s in dev.store.values() {
            x.feed(s);
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C20
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Set { layers: u8, reserved: u16, items: Vec<KV>, extend: bool },
    /// read a layer back; junk follows the items
    Get { layer: u8, junk: Hex },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KeyCase {
    pub net: NetPlan,
    pub ops: Vec<Op>,
    /// room beyond the items when they are written locally
    pub slack: u8,
}
struct KeyDev {
    /// RAM, BBR, FLASH: items in the order they were first stored
    layers: [Vec<(u32, u64)>; 3],
    sent: HashMap<Vec<u8>, usize>,
    ops: Vec<Op>,
    applied: u64,
}
impl KeyDev {
    fn put(l: &mut Vec<(u32, u64)>, k: u32, v: u64) {
        match l.iter_mut().find(|e| e.0 == k) {
            Some(e) => e.1 = v,
            None => l.push((k, v)),
        }
    }
}
impl Device for KeyDev {
    fn frame(&mut self, c: u8, i: u8, p: &[u8], x: &mut Ctx) -> Result<Vec<Vec<u8>>, Viol> {
        match (c, i) {
            (0x06, 0x8A) => {
                if p.len() < 4 {
                    return Ok(vec![ack(false, c, i)]);
                }
                let mut items = vec![];
                let mut at = 4;
                let mut bad = None;
                while at < p.len() {
                    if p.len() - at < 4 {
                        bail!("garbled-items", "{} stray bytes end the transaction {}", p.len() - at, enc(p));
                    }
                    let key = u32::from_le_bytes([p[at], p[at + 1], p[at + 2], p[at + 3]]);
                    let n = key_size(key);
                    if n == 0 || p.len() - at - 4 < n {
                        bad = Some(key);
                        break;
                    }
                    let v = p[at + 4..at + 4 + n].iter().enumerate().fold(0u64, |a, (k, b)| a | u64::from(*b) << (8 * k));
                    items.push((key, v));
                    at += 4 + n;
                }
                let Some(k) = self.sent.get(&frame(c, i, p)).copied() else { return Ok(vec![ack(false, c, i)]) };
                if let Some(Op::Set { layers, items: want, .. }) = self.ops.get(k) {
                    let want: Vec<(u32, u64)> = known(want).iter().map(|kv| (kv.key, canon(kv.key, kv.raw))).collect();
                    if let Some(key) = bad {
                        bail!("garbled-items", "the device cannot read key {:08x} in {}", key, enc(p));
                    }
                    ensure!(items == want, "wrong-items", "the device reads the items {:x?}, the application gave {:x?}", items, want);
                    ensure!(p[1] & 7 == layers & 7, "wrong-layers", "the device reads layers {:#x}, the application gave {:#x}", p[1], layers);
                    for b in 0..3 {
                        if p[1] >> b & 1 == 1 {
                            for (k, v) in &items {
                                Self::put(&mut self.layers[b], *k, *v);
                            }
                        }
                    }
                    self.applied += 1;
                    x.count("op.items_applied", items.len() as u64);
                }
                Ok(vec![ack(true, c, i)])
            },
            (0x06, 0x8B) => {
                let l = p.first().copied().unwrap_or(0) as usize % 3;
                let mut out = vec![vec![]];
                // at most 64 items per answer
                for part in self.layers[l].chunks(64) {
                    let mut b = vec![1, l as u8, 0, 0];
                    for (k, v) in part {
                        b.extend(item_bytes(&KV { key: *k, raw: *v }));
                    }
                    out.push(frame(0x06, 0x8B, &b));
                }
                let mut end = vec![1u8, l as u8, 0xFF, 0xFF];
                end.extend((self.layers[l].len() as u32).to_le_bytes());
                out.push(frame(0x06, 0x8C, &end));
                Ok(out.split_off(1))
            },
            _ => Ok(vec![ack(false, c, i)]),
        }
    }
    fn reset(&mut self, x: &mut Ctx) {
        // battery-backed memory and flash survive
        let mut ram = self.layers[2].clone();
        for (k, v) in self.layers[1].clone() {
            Self::put(&mut ram, k, v);
        }
        self.layers[0] = ram;
        x.count("fault.ram_layer_lost", 1);
    }
}
struct KeyHost {
    ops: Vec<Op>,
    frames: Vec<Vec<u8>>,
    at: usize,
    got: Vec<(u32, u64)>,
    reads: Vec<(usize, Vec<(u32, u64)>)>,
}
/// Whether these bytes are items a device can have stored.
fn plausible(b: &[u8]) -> bool {
    let mut at = 0;
    while at + 4 < b.len() {
        let key = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]);
        let n = key_size(key);
        if key_kind(key).is_empty() || b.len() < at + 4 + n {
            return false;
        }
        let raw = b[at + 4..at + 4 + n].iter().enumerate().fold(0u64, |a, (k, b)| a | u64::from(*b) << (8 * k));
        if canon(key, raw) != raw {
            return false;
        }
        at += 4 + n;
    }
    at == b.len()
}
/// Reads items from stored bytes the way an application does.
pub fn read_items(b: &[u8], end: usize) -> Result<Vec<(u32, u64)>, Viol> {
    let mut at = 0;
    let mut out = vec![];
    while at < end {
        let v: CfgVal = lib(|| CfgVal::parse(&b[at..]));
        let n = lib(|| v.len());
        let (k, raw) = cv_read(&v);
        ensure!(n == 4 + key_size(k) && n > 4, "wrong-length", "the item read at {} of {} has length {} (key {:08x})", at, enc(b), n, k);
        ensure!(!lib(|| v.is_empty()), "wrong-length", "key {:08x} reads back as empty", k);
        out.push((k, raw));
        at += n;
    }
    ensure!(at == end, "wrong-length", "items end at {} instead of {} in {}", at, end, enc(b));
    Ok(out)
}
impl HostApp for KeyHost {
    fn current(&mut self) -> Option<Vec<u8>> {
        self.frames.get(self.at).cloned()
    }
    fn resolved(&self) -> usize {
        self.at
    }
    fn packet(&mut self, _now: u64, p: &PacketRef<'_>, x: &mut Ctx) -> R {
        let Some(op) = self.ops.get(self.at) else { return Ok(()) };
        match (op, p) {
            (Op::Set { .. }, PacketRef::AckAck(a)) => {
                if lib(|| a.is_ack_for::<ublox::CfgValSet>()) {
                    self.at += 1;
                    self.got.clear();
                }
            },
            (Op::Get { layer, junk }, PacketRef::Unknown(u)) if u.class == 0x06 && (u.msg_id == 0x8B || u.msg_id == 0x8C) => {
                if u.payload.len() < 4 || u.payload[1] != layer % 3 {
                    return Ok(());
                }
                if u.msg_id == 0x8B {
                    let mut b = u.payload[4..].to_vec();
                    let end = b.len();
                    b.extend(&junk.0);
                    if !junk.0.is_empty() {
                        x.count("probe.bytes_after_items", 1);
                    }
                    if !plausible(&b[..end]) {
                        x.count("probe.damaged_answer_passed_checksum", 1);
                        return Ok(());
                    }
                    let items = read_items(&b, end)?;
                    // what the device sent, read independently
                    let mut at = 0;
                    for (k, v) in &items {
                        let w = item_bytes(&KV { key: *k, raw: *v });
                        ensure!(
                            b[at..].starts_with(&w),
                            "wrong-read",
                            "stored bytes {} read back as {:08x}={:x}",
                            enc(&b[at..(at + 12).min(b.len())]),
                            k,
                            v
                        );
                        at += w.len();
                    }
                    x.count("op.items_read_back", items.len() as u64);
                    self.got.extend(items);
                    return Ok(());
                }
                let n = u32::from_le_bytes([u.payload[4], u.payload[5], u.payload[6], u.payload[7]]) as usize;
                // an answer that lost a part, or parts of two answers, is asked for again
                if self.got.len() == n {
                    self.reads.push((self.at, std::mem::take(&mut self.got)));
                    self.at += 1;
                }
                self.got.clear();
            },
            _ => {},
        }
        Ok(())
    }
}
pub struct C20;
impl Sim for C20 {
    type Case = KeyCase;
    const ID: &'static str = "C20";
    const RULE: &'static str = "A run is a session of up to 8 configuration transactions of 0 to 64 items (all 434 keys, every kind of value) and read-backs with a device that keeps RAM, battery-backed and flash layers, over segmented and often faulty lines with retries and power cycles at arbitrary moments; non-trivial if items were applied. Checked: the items the device decodes by the storage size in each key, the layers, local writing with and without spare room, and reading stored bytes back with arbitrary bytes following.";
    const REAL: &'static [&'static str] = &["CfgValSetBuilder (into_packet_vec, extend_to)", "CfgVal::{write_to, extend_to, parse, len, is_empty}", "CfgValIter", "ublox::Parser", "AckAckRef::is_ack_for"];
    const STUB: &'static [&'static str] = &["device with three configuration layers", "both lines", "host retry loop", "clock"];
    const ASSUME: &'static [&'static str] = &["stored values of enumerations and switches are among the documented ones", "keys are those of the frozen list of 434"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 150_000 } else { 4_000_000 }
    }
    fn gen(r: &mut Rng, _t: Tier) -> KeyCase {
        let faults = r.chance(2, 3);
        let mut net = gen_net(r, faults);
        net.fixed = net.fixed.map(|n| n + 900);
        paced(&mut net);
        let n = r.range(1, 8);
        let mut ops: Vec<Op> = (0..n)
            .map(|_| {
                if r.chance(2, 3) {
                    Op::Set {
                        layers: r.range(0, 7) as u8,
                        reserved: if r.chance(1, 2) { 0 } else { r.edgy(2) as u16 },
                        items: gen_items(r, 64),
                        extend: r.chance(1, 2),
                    }
                } else {
                    let n = r.skewed(20);
                    Op::Get { layer: r.below(3) as u8, junk: Hex(r.bytes(n)) }
                }
            })
            .collect();
        if r.chance(1, 2) {
            let junk = r.range(0, 9);
            ops.push(Op::Get { layer: r.below(3) as u8, junk: Hex(r.bytes(junk)) });
        }
        KeyCase { net, ops, slack: r.skewed(40) as u8 }
    }
    fn run(c: &KeyCase, x: &mut Ctx) -> R {
        if !sane(&c.net) || c.net.fixed.map(|n| n < 1000).unwrap_or(false) {
            return Ok(());
        }
        let mut frames = vec![];
        let mut sent = HashMap::new();
        for (k, op) in c.ops.iter().enumerate() {
            match op {
                Op::Set { layers, reserved, items, extend } => {
                    if items.len() > 64 {
                        return Ok(());
                    }
                    local(items, c.slack as usize, x)?;
                    let m = Cmd::ValSet { version: 0, layers: *layers, reserved: *reserved, items: items.clone() };
                    let mut f: Vec<u8> = vec![];
                    if *extend {
                        m.extend_to(&mut f);
                    } else if let Some((_, b)) = m.forms().pop() {
                        f = b;
                    }
                    // read by the device, not here: only that it is one frame
                    ensure!(unframe(&f).is_some(), "malformed", "the transaction is {}", enc(&f));
                    sent.insert(f.clone(), k);
                    frames.push(f);
                },
                // the library cannot build this request; the layer travels in its payload
                Op::Get { layer, .. } => frames.push(frame(0x06, 0x8B, &[layer % 3])),
            }
        }
        let mut dev = KeyDev { layers: [vec![], vec![], vec![]], sent, ops: c.ops.clone(), applied: 0 };
        let mut host = KeyHost { ops: c.ops.clone(), frames, at: 0, got: vec![], reads: vec![] };
        let log = session(&c.net, &mut host, &mut dev, x)?;
        ensure!(host.at == c.ops.len(), "harness", "the session ended early");
        x.nontrivial = dev.applied > 0;
        // without stale copies the layers hold exactly what the transactions say
        let stale = c.net.up.iter().chain(&c.net.down).any(|f| matches!(f.kind, FK::Again { .. } | FK::Late { .. } | FK::Twice))
            || !c.net.host_restarts.is_empty()
            || log.undetected
            || log.retries > 0;
        if !stale && c.net.resets.is_empty() {
            let mut model: [Vec<(u32, u64)>; 3] = [vec![], vec![], vec![]];
            let mut reads = host.reads.iter();
            for op in &c.ops {
                match op {
                    Op::Set { layers, items, .. } => {
                        for b in 0..3 {
                            if layers >> b & 1 == 1 {
                                for kv in known(items) {
                                    KeyDev::put(&mut model[b], kv.key, canon(kv.key, kv.raw));
                                }
                            }
                        }
                    },
                    Op::Get { layer, .. } => {
                        if let Some((_, got)) = reads.next() {
                            ensure!(
                                *got == model[*layer as usize % 3],
                                "wrong-history",
                                "layer {} reads back {:x?} instead of {:x?}",
                                layer % 3,
                                got,
                                model[*layer as usize % 3]
                            );
                            x.count("probe.history_compared", 1);
                        }
                    },
                }
            }
        }
        for l in &dev.layers {
            x.num(l.len() as u64);
        }
        Ok(())
    }
}
/// Writing items into memory of the application's own and reading them back.
fn local(items: &[KV], slack: usize, x: &mut Ctx) -> R {
    let items = known(items);
    let vals = Cmd::cfg_vals(&items);
    let want: Vec<u8> = items.iter().flat_map(item_bytes).collect();
    let mut mem = vec![0xA5u8; want.len() + slack];
    let mut at = 0;
    for (v, kv) in vals.iter().zip(&items) {
        let w = item_bytes(kv);
        ensure!(lib(|| v.len()) == w.len(), "wrong-length", "key {:08x} has length {} instead of {}", kv.key, v.len(), w.len());
        let n = lib(|| v.write_to(&mut mem[at..]));
        ensure!(n == w.len(), "wrong-length", "writing key {:08x} reports {} bytes instead of {}", kv.key, n, w.len());
        let mut e: Vec<u8> = vec![0x11];
        let n = lib(|| v.extend_to(&mut e));
        ensure!(n == w.len() && e[1..] == w[..], "wrong-item", "appending key {:08x} gives {} (reports {}) instead of {}", kv.key, enc(&e[1..]), n, enc(&w));
        at += w.len();
    }
    ensure!(mem[..at] == want[..], "wrong-item", "the items are written as {} instead of {}", enc(&mem[..at]), enc(&want));
    ensure!(mem[at..].iter().all(|b| *b == 0xA5), "wrote-beyond", "bytes behind the items were overwritten");
    let back = read_items(&mem, at)?;
    let say: Vec<(u32, u64)> = items.iter().map(|kv| (kv.key, canon(kv.key, kv.raw))).collect();
    ensure!(back == say, "wrong-read", "{:x?} was written, {:x?} read back", say, back);
    let mut mem = vec![0x5Au8; want.len() + slack];
    let it = lib(|| CfgValIter::new(&mut mem, &vals));
    let mut back = vec![];
    let mut it2 = it.clone();
    while let Some(v) = lib(|| it2.next()) {
        back.push(cv_read(&v));
        ensure!(back.len() <= items.len(), "wrong-read", "the iterator gives more than the {} items written", items.len());
    }
    ensure!(back == say, "wrong-read", "{:x?} was written, the iterator gives {:x?}", say, back);
    // walked by skipping, counting and folding, begun or not
    let num = |v: CfgVal| {
        let (k, raw) = cv_read(&v);
        crate::val::Val::Int(((k as i128) << 64) | raw as i128)
    };
    if let crate::val::Val::Name(what) = lib(|| crate::val::list(|| it.clone(), num)) {
        bail!("wrong-read", "{:x?} was written, the iterator is {}", say, what);
    }
    ensure!(mem[..at] == want[..] && mem[at..].iter().all(|b| *b == 0x5A), "wrote-beyond", "the iterator's memory holds {}", enc(&mem));
    x.count("op.local_item", items.len() as u64);
    Ok(())
}

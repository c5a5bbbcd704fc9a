//! C24: the storages parsers are built on, driven directly.
use crate::engine::{catching, lib, Ctx, Sim, Tier, R};
use crate::ensure;
use crate::hex::{enc, Hex};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::ops::{Index, Range};
use ublox::{FixedLinearBuffer, UnderlyingBuffer};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Kind {
    Growable,
    /// a region of n bytes holding leftovers
    Fixed { n: u32, stale: u8 },
    /// a user's storage that relies on the trait's own search and emptiness test
    Minimal { n: u32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Append { b: Hex },
    /// as many bytes as still fit, plus `extra`
    Fill { b: u8, extra: u8 },
    /// n bytes counting up from b
    Pour { b: u8, n: u32 },
    Drain { n: u32 },
    DrainAll,
    Clear,
    Find { v: u8 },
    Slice { a: u32, b: u32 },
    At { i: u32 },
    /// the application reads beyond what is stored and survives the panic
    Beyond { by: u16 },
    /// a new storage on the same region
    Remake,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StoreCase {
    pub stores: Vec<Kind>,
    pub ops: Vec<(u8, Op)>,
}

struct Minimal {
    held: Vec<u8>,
    cap: usize,
}
impl Index<usize> for Minimal {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        &self.held[i]
    }
}
impl Index<Range<usize>> for Minimal {
    type Output = [u8];
    fn index(&self, r: Range<usize>) -> &[u8] {
        &self.held[r]
    }
}
impl UnderlyingBuffer for Minimal {
    fn clear(&mut self) {
        self.held.clear()
    }
    fn len(&self) -> usize {
        self.held.len()
    }
    fn max_capacity(&self) -> usize {
        self.cap
    }
    fn extend_from_slice(&mut self, o: &[u8]) -> usize {
        let n = o.len().min(self.cap - self.held.len());
        self.held.extend_from_slice(&o[..n]);
        o.len() - n
    }
    fn drain(&mut self, n: usize) {
        self.held.drain(..n);
    }
}

enum Store<'a> {
    V(Vec<u8>),
    F(FixedLinearBuffer<'a>),
    M(Minimal),
}
macro_rules! on {
    ($s:expr, $b:ident => $e:expr) => {
        match $s {
            Store::V($b) => via($b, |$b| $e),
            Store::F($b) => via($b, |$b| $e),
            Store::M($b) => via($b, |$b| $e),
        }
    };
}
/// Only what the trait offers: a Vec's own methods must not get in the way.
fn via<B, T>(b: B, f: impl FnOnce(B) -> T) -> T {
    f(b)
}
fn append<T: UnderlyingBuffer>(t: &mut T, b: &[u8]) -> usize {
    lib(|| UnderlyingBuffer::extend_from_slice(t, b))
}
fn drain<T: UnderlyingBuffer>(t: &mut T, n: usize) {
    lib(|| UnderlyingBuffer::drain(t, n))
}
fn clear<T: UnderlyingBuffer>(t: &mut T) {
    lib(|| UnderlyingBuffer::clear(t))
}
fn find<T: UnderlyingBuffer>(t: &T, v: u8) -> Option<usize> {
    lib(|| UnderlyingBuffer::find(t, v))
}
fn state<T: UnderlyingBuffer>(t: &T) -> (usize, bool, usize) {
    lib(|| (UnderlyingBuffer::len(t), UnderlyingBuffer::is_empty(t), UnderlyingBuffer::max_capacity(t)))
}
fn slice<T: UnderlyingBuffer>(t: &T, a: usize, b: usize) -> Vec<u8> {
    lib(|| <T as Index<Range<usize>>>::index(t, a..b).to_vec())
}
fn at<T: UnderlyingBuffer>(t: &T, i: usize) -> u8 {
    lib(|| *<T as Index<usize>>::index(t, i))
}

pub struct C24;
impl Sim for C24 {
    type Case = StoreCase;
    const ID: &'static str = "C24";
    const RULE: &'static str = "A run drives up to four storages (growable, fixed-size ones placed side by side in one memory, and a user's storage relying on the trait's own methods) with an interleaved sequence of appends (also more than fits), removals, searches, reads, reads beyond the end whose panic the application survives, clearing and re-making on a region full of leftovers; non-trivial if bytes were removed from the front of a storage that kept some. Oracle: a bounded queue of bytes per storage, compared in full after every operation, with the bytes between the regions.";
    const REAL: &'static [&'static str] = &["Vec<u8> as UnderlyingBuffer", "FixedLinearBuffer", "UnderlyingBuffer's provided methods"];
    const STUB: &'static [&'static str] = &["application", "memory the regions lie in", "user storage with only the required methods"];
    fn budget(t: Tier) -> u64 {
        if t == Tier::Quick { 1_500_000 } else { 30_000_000 }
    }
    fn gen(r: &mut Rng, t: Tier) -> StoreCase {
        let stores: Vec<Kind> = (0..r.range(1, 4))
            .map(|_| {
                let n = match r.below(5) {
                    0 => r.below(4),
                    1 => r.range(4, 16),
                    2 => *r.pick(&[36, 64, 100, 128, 255, 256, 257]),
                    _ => r.skewed(300),
                } as u32;
                match r.below(6) {
                    0 | 1 => Kind::Growable,
                    2 => Kind::Minimal { n },
                    _ => Kind::Fixed { n, stale: r.u8() },
                }
            })
            .collect();
        // lengths and offsets that need more than 16 bits
        let huge = r.chance(1, if t == Tier::Quick { 3000 } else { 300 });
        let mut stores = stores;
        if huge {
            let n = r.range(65_500, 70_000) as u32;
            let k = match r.below(4) {
                0 => Kind::Growable,
                1 => Kind::Minimal { n },
                _ => Kind::Fixed { n, stale: r.u8() },
            };
            stores = vec![k];
        }
        let few: Vec<u8> = (0..r.range(1, 5)).map(|_| r.u8()).collect();
        let deep = if t == Tier::Quick { 30 } else { 90 };
        let ops = (0..r.range(1, deep))
            .map(|_| {
                if huge && r.chance(1, 2) {
                    let n = if r.chance(1, 2) { r.range(65_400, 70_000) } else { r.below(70_000) } as u32;
                    let op = match r.below(7) {
                        0..=2 => Op::Pour { b: r.u8(), n },
                        3 => Op::Drain { n },
                        4 => Op::At { i: n },
                        5 => Op::Slice { a: n, b: r.below(70_000) as u32 },
                        _ => Op::Find { v: r.u8() },
                    };
                    return (0, op);
                }
                let byte = |r: &mut Rng| if r.chance(2, 3) { *r.pick(&few) } else { r.u8() };
                let op = match r.below(12) {
                    0..=2 => {
                        let n = r.skewed(80);
                        Op::Append { b: Hex((0..n).map(|_| byte(r)).collect()) }
                    },
                    3 => Op::Fill { b: byte(r), extra: if r.chance(1, 2) { 0 } else { r.skewed(255) as u8 } },
                    4 | 5 => Op::Drain { n: r.skewed(90) as u32 },
                    6 => r.pick(&[Op::DrainAll, Op::Clear, Op::Remake]).clone(),
                    7 | 8 => Op::Find { v: byte(r) },
                    9 => Op::Slice { a: r.skewed(200) as u32, b: r.skewed(200) as u32 },
                    10 => Op::At { i: r.skewed(200) as u32 },
                    _ => Op::Beyond { by: r.range(1, 60) as u16 },
                };
                (r.below(stores.len()) as u8, op)
            })
            .collect();
        StoreCase { stores, ops }
    }
    fn run(c: &StoreCase, x: &mut Ctx) -> R {
        // all regions in one memory, with gaps of 0 to 3 bytes that must stay as they are
        let mut total = 8;
        let mut at_: Vec<(usize, usize)> = vec![];
        for (i, k) in c.stores.iter().enumerate() {
            let n = if let Kind::Fixed { n, .. } = k { *n as usize } else { 0 };
            at_.push((total, n));
            total += n + i % 4;
        }
        let mut mem = vec![0xC3u8; total + 8];
        let base = mem.as_mut_ptr();
        // SAFETY: the regions are disjoint parts of `mem`, which outlives the storages and is only read
        // through `base` while no storage is being called
        let region = |i: usize| -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(base.add(at_[i].0), at_[i].1) } };
        let gaps = || -> Option<usize> {
            (0..total + 8).find(|p| !at_.iter().any(|(a, n)| p >= a && *p < a + n) && unsafe { *base.add(*p) } != 0xC3)
        };
        let make = |i: usize, first: bool| -> Store {
            match c.stores[i] {
                Kind::Growable => Store::V(Vec::new()),
                Kind::Minimal { n } => Store::M(Minimal { held: vec![], cap: n as usize }),
                Kind::Fixed { stale, .. } => {
                    let m = region(i);
                    if first {
                        m.iter_mut().enumerate().for_each(|(j, b)| *b = stale.wrapping_mul((j as u8) | 1));
                    }
                    Store::F(lib(|| FixedLinearBuffer::new(m)))
                },
            }
        };
        let cap = |i: usize| match c.stores[i] {
            Kind::Growable => usize::MAX,
            Kind::Minimal { n } | Kind::Fixed { n, .. } => n as usize,
        };
        let mut st: Vec<Store> = (0..c.stores.len()).map(|i| make(i, true)).collect();
        let mut model: Vec<Vec<u8>> = vec![vec![]; st.len()];
        for (k, (i, op)) in c.ops.iter().enumerate() {
            let i = *i as usize;
            if i >= st.len() {
                continue;
            }
            let len = model[i].len();
            let what = || format!("step {} ({:?} on {:?} holding {})", k, op, c.stores[i], len);
            match op {
                Op::Append { .. } | Op::Fill { .. } | Op::Pour { .. } => {
                    let b = match op {
                        Op::Fill { b, extra } => vec![*b; (cap(i).saturating_sub(len)).min(400) + usize::from(*extra)],
                        Op::Append { b } => b.0.clone(),
                        Op::Pour { b, n } => (0..*n).map(|k| b.wrapping_add((k / 7) as u8)).collect(),
                        _ => vec![],
                    };
                    let fit = b.len().min(cap(i) - len);
                    let left = on!(&mut st[i], s => append(s, &b));
                    if fit < b.len() {
                        x.count("fault.storage_full", 1);
                    }
                    model[i].extend(&b[..fit]);
                    ensure!(left == b.len() - fit, "wrong-refusal", "{}: {} bytes reported as not stored instead of {}", what(), left, b.len() - fit);
                },
                Op::Drain { .. } | Op::DrainAll => {
                    let n = if let Op::Drain { n } = op { (*n as usize).min(len) } else { len };
                    on!(&mut st[i], s => drain(s, n));
                    model[i].drain(..n);
                    x.nontrivial |= n > 0 && n < len;
                    x.count("op.drain", 1);
                },
                Op::Clear => {
                    on!(&mut st[i], s => clear(s));
                    model[i].clear();
                },
                Op::Find { v } => {
                    let got = on!(&st[i], s => find(s, *v));
                    let want = model[i].iter().position(|b| b == v);
                    ensure!(got == want, "wrong-search", "{}: found at {:?} instead of {:?}", what(), got, want);
                    x.count("op.find", 1);
                },
                Op::Slice { a, b } => {
                    let (a, b) = ((*a.min(b) as usize).min(len), (*a.max(b) as usize).min(len));
                    let got = on!(&st[i], s => slice(s, a, b));
                    ensure!(got == model[i][a..b], "wrong-bytes", "{}: {}..{} reads {}", what(), a, b, enc(&got[..got.len().min(400)]));
                },
                Op::At { i: j } => {
                    if len > 0 {
                        let j = *j as usize % len;
                        let got = on!(&st[i], s => at(s, j));
                        ensure!(got == model[i][j], "wrong-bytes", "{}: index {} reads {:02x} instead of {:02x}", what(), j, got, model[i][j]);
                    }
                },
                Op::Beyond { by } => {
                    let end = len + usize::from(*by);
                    let got = catching(|| on!(&st[i], s => slice(s, len.min(3), end)));
                    x.count("fault.read_beyond_end", 1);
                    if let Ok(b) = got {
                        crate::bail!("unstored-bytes", "{}: reading up to {} gives {} instead of a panic", what(), end, enc(&b));
                    }
                },
                Op::Remake => {
                    if matches!(c.stores[i], Kind::Fixed { .. }) {
                        // the old handle goes first
                        st[i] = Store::V(Vec::new());
                    }
                    st[i] = make(i, false);
                    model[i].clear();
                    x.count("fault.storage_remade", 1);
                },
            }
            if let Some(p) = gaps() {
                crate::bail!("outside-region", "{}: byte {} outside every region changed", what(), p);
            }
            for (j, m) in model.iter().enumerate() {
                let (l, e, mc) = on!(&st[j], s => state(s));
                ensure!(l == m.len(), "wrong-length", "{}: storage {} says it holds {} bytes instead of {}", what(), j, l, m.len());
                ensure!(e == m.is_empty(), "wrong-emptiness", "{}: storage {} of {} bytes says empty = {}", what(), j, l, e);
                ensure!(mc == cap(j), "wrong-capacity", "{}: storage {} says it can hold {} instead of {}", what(), j, mc, cap(j));
                let all = on!(&st[j], s => slice(s, 0, l));
                ensure!(all == *m, "wrong-bytes", "{}: storage {} holds {} instead of {}", what(), j, enc(&all[..all.len().min(400)]), enc(&m[..m.len().min(400)]));
                x.num(l as u64);
            }
            x.feed(&model[i]);
            x.sim_us += 10;
        }
        Ok(())
    }
}

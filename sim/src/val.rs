//! Neutral representation of decoded values, for comparing the library with the reference decoder.
use ublox::*;

#[derive(Clone, Debug)]
pub enum Val {
    Int(i128),
    F(f64),
    F32(f32),
    Bytes(Vec<u8>),
    Str(String),
    None,
    Name(String),
    Bool(bool),
    FlagSet(Vec<bool>),
    List(Vec<Val>),
    Map(Vec<(&'static str, Val)>),
    Json(serde_json::Value),
}

/// `got` comes from the library, `want` from the reference decoder.
pub fn same(got: &Val, want: &Val) -> bool {
    match (got, want) {
        (Val::Int(a), Val::Int(b)) => a == b,
        (Val::Int(a), Val::Bool(b)) | (Val::Bool(b), Val::Int(a)) => *a == i128::from(*b),
        (Val::Bool(a), Val::Bool(b)) => a == b,
        (Val::F(a), Val::F(b)) => feq(*a, *b, 1e-13),
        // f32 results may be rounded once or twice
        (Val::F32(a), Val::F32(b)) => feq(f64::from(*a), f64::from(*b), 4e-7),
        (Val::F(a), Val::F32(b)) => feq(*a, f64::from(*b), 4e-7),
        (Val::Bytes(a), Val::Bytes(b)) => a == b,
        (Val::Str(a), Val::Str(b)) => a == b,
        (Val::Name(a), Val::Name(b)) => a == b || b == "*",
        (Val::None, Val::None) => true,
        (Val::FlagSet(a), Val::FlagSet(b)) => a == b,
        (Val::List(a), Val::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (Val::Map(a), Val::Map(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && same(&x.1, &y.1))
        },
        (Val::Json(a), Val::Json(b)) => json_same(a, b),
        _ => false,
    }
}

pub fn feq(a: f64, b: f64, rel: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    a == b || (a - b).abs() <= rel * a.abs().max(b.abs())
}

pub fn json_same(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    match (a, b) {
        (J::Number(x), J::Number(y)) => {
            if let (Some(i), Some(j)) = (x.as_i64(), y.as_i64()) {
                return i == j;
            }
            if let (Some(i), Some(j)) = (x.as_u64(), y.as_u64()) {
                return i == j;
            }
            // relative 1e-13 for doubles; single-precision fields are compared by the caller
            match (x.as_f64(), y.as_f64()) {
                (Some(p), Some(q)) => feq(p, q, 1e-13),
                _ => false,
            }
        },
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| json_same(p, q)),
        (J::Object(x), J::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| json_same(v, w)))
        },
        _ => a == b,
    }
}

/// A repeated block, item by item; the other ways to walk the same list must agree with that.
pub fn list<I: Iterator>(make: impl Fn() -> I, f: impl Fn(I::Item) -> Val) -> Val {
    let mut it = make();
    let mut out = vec![];
    let mut hints = vec![];
    loop {
        hints.push(it.size_hint());
        match it.next() {
            Some(x) => out.push(f(x)),
            None => break,
        }
        if out.len() > 70_000 {
            return Val::Name("a list without end".into());
        }
    }
    let n = out.len();
    let fits = |i: usize, h: &(usize, Option<usize>)| h.0 <= n - i && h.1.is_none_or(|m| m >= n - i);
    if !hints.iter().enumerate().all(|(i, h)| fits(i, h)) {
        return Val::Name(format!("a list of {} items that announces {:?}", n, hints));
    }
    let at = |i: usize| out.get(i);
    let eq = |g: Option<I::Item>, w: Option<&Val>| match (g, w) {
        (None, None) => true,
        (Some(g), Some(w)) => same(&f(g), w),
        _ => false,
    };
    let mut wrong = vec![];
    if make().count() != n {
        wrong.push("count");
    }
    if !eq(make().last(), out.last()) {
        wrong.push("last");
    }
    let k = n / 2;
    let mut skip = make();
    if !eq(skip.nth(k), at(k)) || (k < n && !eq(skip.next(), at(k + 1))) || !eq(make().nth(n), None) {
        wrong.push("nth");
    }
    let mut begun = make();
    if begun.next().is_some() && !(eq(begun.nth(k), at(k + 1)) && (k + 1 >= n || eq(begun.nth(0), at(k + 2)))) {
        wrong.push("nth, once begun,");
    }
    // the rest of a list already begun
    let mut begun = make();
    let first = begun.next();
    let rest = begun.fold(vec![], |mut v, x| {
        v.push(f(x));
        v
    });
    let first: Vec<Val> = first.map(&f).into_iter().collect();
    if first.len() + rest.len() != n || !first.iter().chain(&rest).zip(&out).all(|(g, w)| same(g, w)) {
        wrong.push("fold");
    }
    if !wrong.is_empty() {
        return Val::Name(format!("a list of {} items that {:?} contradict", n, wrong));
    }
    Val::List(out)
}

pub trait ToVal {
    fn to_val(&self) -> Val;
}
macro_rules! ints { ($($t:ty),*) => { $(impl ToVal for $t { fn to_val(&self) -> Val { Val::Int(*self as i128) } })* } }
ints!(u8, i8, u16, i16, u32, i32, u64, i64, usize);
impl ToVal for bool {
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
}
impl ToVal for f64 {
    fn to_val(&self) -> Val {
        Val::F(*self)
    }
}
impl ToVal for f32 {
    fn to_val(&self) -> Val {
        Val::F32(*self)
    }
}
impl<const N: usize> ToVal for [u8; N] {
    fn to_val(&self) -> Val {
        Val::Bytes(self.to_vec())
    }
}
impl ToVal for &[u8] {
    fn to_val(&self) -> Val {
        Val::Bytes(self.to_vec())
    }
}
impl ToVal for &str {
    fn to_val(&self) -> Val {
        Val::Str(self.to_string())
    }
}
impl<T: ToVal> ToVal for Option<T> {
    fn to_val(&self) -> Val {
        match self {
            Some(x) => x.to_val(),
            None => Val::None,
        }
    }
}
impl ToVal for FixStatusInfo {
    fn to_val(&self) -> Val {
        Val::Map(vec![
            ("has_pr_prr_correction", self.has_pr_prr_correction().to_val()),
            ("map_matching", Val::Name(format!("{:?}", self.map_matching()))),
        ])
    }
}
impl ToVal for NavSatSvFlags {
    fn to_val(&self) -> Val {
        Val::Map(vec![
            ("quality_ind", Val::Name(format!("{:?}", self.quality_ind()))),
            ("sv_used", self.sv_used().to_val()),
            ("health", Val::Name(format!("{:?}", self.health()))),
            ("differential_correction_available", self.differential_correction_available().to_val()),
            ("smoothed", self.smoothed().to_val()),
            ("orbit_source", Val::Name(format!("{:?}", self.orbit_source()))),
            ("ephemeris_available", self.ephemeris_available().to_val()),
            ("almanac_available", self.almanac_available().to_val()),
            ("an_offline_available", self.an_offline_available().to_val()),
            ("an_auto_available", self.an_auto_available().to_val()),
            ("sbas_corr", self.sbas_corr().to_val()),
            ("rtcm_corr", self.rtcm_corr().to_val()),
            ("slas_corr", self.slas_corr().to_val()),
            ("spartn_corr", self.spartn_corr().to_val()),
            ("pr_corr", self.pr_corr().to_val()),
            ("cr_corr", self.cr_corr().to_val()),
            ("do_corr", self.do_corr().to_val()),
        ])
    }
}
impl ToVal for TimTpFlags {
    fn to_val(&self) -> Val {
        Val::Map(vec![
            ("time_base", Val::Name(format!("{:?}", self.time_base()))),
            ("utc_available", self.utc_available().to_val()),
            ("raim_active", self.raim_active().to_val()),
            ("q_err_valid", self.q_err_valid().to_val()),
        ])
    }
}
impl ToVal for TimTpRefInfo {
    fn to_val(&self) -> Val {
        let n = |x: Option<String>| x.map_or(Val::None, Val::Name);
        Val::Map(vec![
            ("time_ref_gnss", n(self.time_ref_gnss().map(|x| format!("{:?}", x)))),
            ("utc_standard", n(self.utc_standard().map(|x| format!("{:?}", x)))),
        ])
    }
}
impl ToVal for TimTm2Flags {
    fn to_val(&self) -> Val {
        let mode = match self.mode() {
            TimTm2Mode::Single => "Single",
            TimTm2Mode::Running => "Running",
        };
        let run = match self.run() {
            TimTm2Run::Armed => "Armed",
            TimTm2Run::Stopped => "Stopped",
        };
        #[allow(unreachable_patterns)]
        let tb = match self.time_base() {
            TimTm2TimeBase::Receiver => "Receiver",
            TimTm2TimeBase::Gnss => "Gnss",
            TimTm2TimeBase::Utc => "Utc",
            _ => "other",
        };
        Val::Map(vec![
            ("mode", Val::Name(mode.into())),
            ("run", Val::Name(run.into())),
            ("new_falling_edge", self.new_falling_edge().to_val()),
            ("new_rising_edge", self.new_rising_edge().to_val()),
            ("time_base", Val::Name(tb.into())),
            ("utc_available", self.utc_available().to_val()),
            ("time_valid", self.time_valid().to_val()),
        ])
    }
}
impl ToVal for EsfMeasData {
    fn to_val(&self) -> Val {
        Val::Map(vec![("data_type", self.data_type.to_val()), ("data_field", self.data_field.to_val())])
    }
}
impl ToVal for EsfRawData {
    fn to_val(&self) -> Val {
        Val::Map(vec![
            ("data_type", self.data_type.to_val()),
            ("data_field", self.data_field.to_val()),
            ("sensor_time_tag", self.sensor_time_tag.to_val()),
        ])
    }
}
#[cfg(not(feature = "lite"))]
macro_rules! via_json { ($($t:ty),*) => { $(impl ToVal for $t { fn to_val(&self) -> Val {
    Val::Json(serde_json::to_value(self).unwrap_or(serde_json::Value::Null)) } })* } }
// without serde, as in the builds for C22
#[cfg(feature = "lite")]
macro_rules! via_json { ($($t:ty),*) => { $(impl ToVal for $t { fn to_val(&self) -> Val {
    Val::Name(format!("{:?}", self)) } })* } }
// These types have no accessors of their own; their public face is their serialised form.
via_json!(UartMode, CfgItfmConfig, CfgItfmConfig2);

/// What the library says about one delivered packet.
#[derive(Clone, Debug, Default)]
pub struct Decoded {
    pub name: &'static str,
    pub class_id: Option<(u8, u8)>,
    pub payload: Vec<u8>,
    pub vals: Vec<(&'static str, Val)>,
}
impl Decoded {
    pub fn set(&mut self, name: &'static str, payload: &[u8], vals: Vec<(&'static str, Val)>) {
        self.name = name;
        self.payload = payload.to_vec();
        self.vals = vals;
    }
    pub fn set_unknown(&mut self, c: u8, i: u8, payload: &[u8]) {
        self.name = "Unknown";
        self.class_id = Some((c, i));
        self.payload = payload.to_vec();
    }
}

//! A neutral representation of everything an accessor can return.
use ublox::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Int(i128),
    /// value, single precision
    F(f64, bool),
    Bytes(Vec<u8>),
    Str(String),
    Opt(Option<Box<Val>>),
    Enum(String, u64),
    Flags(u64),
    Name(String),
    List(Vec<Val>),
    Rec(Vec<(String, Val)>),
}

pub fn close(a: f64, b: f64, single: bool) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    let eps = if single { 4e-7 } else { 1e-13 };
    (a - b).abs() <= eps * a.abs().max(b.abs())
}

impl Val {
    pub fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::F(a, s), Val::F(b, t)) => close(*a, *b, *s || *t),
            (Val::Opt(a), Val::Opt(b)) => match (a, b) {
                (Some(a), Some(b)) => a.same(b),
                (None, None) => true,
                _ => false,
            },
            (Val::List(a), Val::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.same(b)),
            (Val::Rec(a), Val::Rec(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.0 == b.0 && a.1.same(&b.1)),
            _ => self == o,
        }
    }
}

/// Outcome of calling one accessor: its value or the panic message.
pub type Thunk = Result<Val, String>;
pub fn catch(f: impl FnOnce() -> Val) -> Thunk {
    crate::panics::guard(f)
}

pub trait IntoVal {
    fn val(self) -> Val;
}
macro_rules! ints { ($($t:ty),*) => { $(impl IntoVal for $t { fn val(self) -> Val { Val::Int(self as i128) } })* } }
ints!(u8, i8, u16, i16, u32, i32, u64, bool);
impl IntoVal for f32 {
    fn val(self) -> Val {
        Val::F(self as f64, true)
    }
}
impl IntoVal for f64 {
    fn val(self) -> Val {
        Val::F(self, false)
    }
}
impl<const N: usize> IntoVal for [u8; N] {
    fn val(self) -> Val {
        Val::Bytes(self.to_vec())
    }
}
impl IntoVal for &[u8] {
    fn val(self) -> Val {
        Val::Bytes(self.to_vec())
    }
}
impl IntoVal for &str {
    fn val(self) -> Val {
        Val::Str(self.to_string())
    }
}
impl<T: IntoVal> IntoVal for Option<T> {
    fn val(self) -> Val {
        Val::Opt(self.map(|x| Box::new(x.val())))
    }
}

fn rec(v: Vec<(&str, Val)>) -> Val {
    Val::Rec(v.into_iter().map(|(a, b)| (a.to_string(), b)).collect())
}
fn name(x: impl core::fmt::Debug) -> Val {
    Val::Name(format!("{x:?}"))
}

impl IntoVal for FixStatusInfo {
    fn val(self) -> Val {
        rec(vec![("has_pr_prr_correction", self.has_pr_prr_correction().val()), ("map_matching", name(self.map_matching()))])
    }
}
impl IntoVal for NavSatSvFlags {
    fn val(self) -> Val {
        rec(vec![
            ("quality_ind", name(self.quality_ind())),
            ("sv_used", self.sv_used().val()),
            ("health", name(self.health())),
            ("differential_correction_available", self.differential_correction_available().val()),
            ("smoothed", self.smoothed().val()),
            ("orbit_source", name(self.orbit_source())),
            ("ephemeris_available", self.ephemeris_available().val()),
            ("almanac_available", self.almanac_available().val()),
            ("an_offline_available", self.an_offline_available().val()),
            ("an_auto_available", self.an_auto_available().val()),
            ("sbas_corr", self.sbas_corr().val()),
            ("rtcm_corr", self.rtcm_corr().val()),
            ("slas_corr", self.slas_corr().val()),
            ("spartn_corr", self.spartn_corr().val()),
            ("pr_corr", self.pr_corr().val()),
            ("cr_corr", self.cr_corr().val()),
            ("do_corr", self.do_corr().val()),
        ])
    }
}
impl IntoVal for TimTpFlags {
    fn val(self) -> Val {
        rec(vec![
            ("time_base", name(self.time_base())),
            ("utc_available", self.utc_available().val()),
            ("raim_active", self.raim_active().val()),
            ("q_err_valid", self.q_err_valid().val()),
        ])
    }
}
impl IntoVal for TimTpRefInfo {
    fn val(self) -> Val {
        rec(vec![
            ("time_ref_gnss", Val::Opt(self.time_ref_gnss().map(|x| Box::new(name(x))))),
            ("utc_standard", Val::Opt(self.utc_standard().map(|x| Box::new(name(x))))),
        ])
    }
}
impl IntoVal for TimTm2Flags {
    fn val(self) -> Val {
        let n = |s: &str| Val::Name(s.to_string());
        rec(vec![
            ("mode", n(if matches!(self.mode(), TimTm2Mode::Single) { "Single" } else { "Running" })),
            ("run", n(if matches!(self.run(), TimTm2Run::Armed) { "Armed" } else { "Stopped" })),
            ("new_falling_edge", self.new_falling_edge().val()),
            ("new_rising_edge", self.new_rising_edge().val()),
            (
                "time_base",
                #[allow(unreachable_patterns)]
                match self.time_base() {
                    TimTm2TimeBase::Receiver => n("Receiver"),
                    TimTm2TimeBase::Gnss => n("Gnss"),
                    TimTm2TimeBase::Utc => n("Utc"),
                    _ => n("Reserved"),
                },
            ),
            ("utc_available", self.utc_available().val()),
            ("time_valid", self.time_valid().val()),
        ])
    }
}
impl IntoVal for UartMode {
    fn val(self) -> Val {
        name(self)
    }
}
impl IntoVal for CfgItfmConfig {
    fn val(self) -> Val {
        name(self)
    }
}
impl IntoVal for CfgItfmConfig2 {
    fn val(self) -> Val {
        name(self)
    }
}

/// Iterators: walk with a bound (a list can never have more elements than bytes of payload allow), and check that a
/// finished iterator stays finished.
fn walk<T>(mut it: impl Iterator<Item = T>, f: impl Fn(T) -> Val) -> Val {
    let mut out = vec![];
    for x in it.by_ref() {
        out.push(f(x));
        if out.len() > 70_000 {
            panic!("list does not end");
        }
    }
    if it.next().is_some() {
        panic!("list yields an element after its end");
    }
    Val::List(out)
}
fn recs(v: Vec<(&'static str, Thunk)>) -> Val {
    Val::Rec(
        v.into_iter()
            .map(|(n, t)| match t {
                Ok(v) => (n.to_string(), v),
                Err(e) => panic!("list element accessor {n} panicked: {e}"),
            })
            .collect(),
    )
}
impl IntoVal for NavSatIter<'_> {
    fn val(self) -> Val {
        walk(self, |r| recs(crate::access::rec_NavSatSvInfo(&r)))
    }
}
impl IntoVal for RxmRawxInfoIter<'_> {
    fn val(self) -> Val {
        walk(self, |r| recs(crate::access::rec_RxmRawxInfo(&r)))
    }
}
impl IntoVal for MonVerExtensionIter<'_> {
    fn val(self) -> Val {
        walk(self, |r| r.val())
    }
}
impl IntoVal for EsfMeasDataIter<'_> {
    fn val(self) -> Val {
        walk(self, |r| rec(vec![("data_type", r.data_type.val()), ("data_field", r.data_field.val())]))
    }
}
impl IntoVal for EsfRawDataIter<'_> {
    fn val(self) -> Val {
        walk(self, |r| rec(vec![("data_type", r.data_type.val()), ("data_field", r.data_field.val()), ("sensor_time_tag", r.sensor_time_tag.val())]))
    }
}
impl IntoVal for DwrdIter<'_> {
    fn val(self) -> Val {
        walk(self, |r| r.val())
    }
}

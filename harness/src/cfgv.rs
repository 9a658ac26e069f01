//! Configuration item values as raw protocol numbers.
use ublox::cfg_val::*;
use ublox::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kt {
    Bool,
    U8,
    U16,
    I16,
    U32,
    U64,
    Inf,
    DataBits,
    Parity,
    StopBits,
    Align,
    TpPulse,
    TpLen,
}
impl Kt {
    pub fn width(self) -> usize {
        match self {
            Kt::U16 | Kt::I16 => 2,
            Kt::U32 => 4,
            Kt::U64 => 8,
            _ => 1,
        }
    }
    /// number of valid raw values, None: all of the width
    pub fn codes(self) -> Option<u64> {
        Some(match self {
            Kt::Bool | Kt::DataBits | Kt::TpPulse | Kt::TpLen => 2,
            Kt::Parity => 3,
            Kt::StopBits => 4,
            Kt::Align => 5,
            _ => return None,
        })
    }
}
pub trait Raw {
    fn from_raw(x: u64) -> Self;
    fn to_raw(&self) -> u64;
}
impl Raw for bool {
    fn from_raw(x: u64) -> Self {
        x == 1
    }
    fn to_raw(&self) -> u64 {
        *self as u64
    }
}
macro_rules! i { ($($t:ty, $u:ty);*) => { $(impl Raw for $t { fn from_raw(x: u64) -> Self { x as $t } fn to_raw(&self) -> u64 { *self as $u as u64 } })* } }
i!(u8, u8; u16, u16; i16, u16; u32, u32; u64, u64);
impl Raw for CfgInfMask {
    fn from_raw(x: u64) -> Self {
        CfgInfMask::from_bits_truncate(x as u8)
    }
    fn to_raw(&self) -> u64 {
        self.bits() as u64
    }
}
macro_rules! e { ($t:ident: $($v:ident = $n:expr),*) => { impl Raw for $t {
    fn from_raw(x: u64) -> Self { match x { $($n => $t::$v,)* _ => panic!("harness: code") } }
    fn to_raw(&self) -> u64 { match self { $($t::$v => $n,)* } } } } }
e!(DataBits: Eight = 0, Seven = 1);
e!(Parity: None = 0, Odd = 1, Even = 2);
e!(StopBits: Half = 0, One = 1, OneHalf = 2, Two = 3);
e!(AlignmentToReferenceTime: Utc = 0, Gps = 1, Glo = 2, Bds = 3, Gal = 4);
e!(TpPulse: Period = 0, Freq = 1);
e!(TpPulseLength: Ratio = 0, Length = 1);

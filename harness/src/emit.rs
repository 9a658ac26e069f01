#![allow(non_snake_case)]
//! Builder inputs, and writers that record or fail on script.

use ublox::*;

/// One builder field: its wire bits, a physical value (as f64 bits), or bytes.
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Fv {
    Raw(u64),
    Float(u64),
    Bytes(Vec<u8>),
    /// composed words: enable/bb/cw, antenna/aux, data bits/parity/stop bits
    Parts(Vec<u32>),
}
impl Fv {
    pub fn raw(&self) -> u64 {
        match self {
            Fv::Raw(x) => *x,
            x => panic!("harness: {x:?} is not raw"),
        }
    }
    pub fn float(&self) -> f64 {
        match self {
            Fv::Float(x) => f64::from_bits(*x),
            x => panic!("harness: {x:?} is not a float"),
        }
    }
    pub fn bytes<const N: usize>(&self) -> [u8; N] {
        match self {
            Fv::Bytes(b) => b.as_slice().try_into().expect("harness: array size"),
            x => panic!("harness: {x:?} is not bytes"),
        }
    }
    pub fn parts(&self) -> &[u32] {
        match self {
            Fv::Parts(b) => b,
            x => panic!("harness: {x:?} is not parts"),
        }
    }
}

pub fn mk_data_bits(i: u32) -> DataBits {
    [DataBits::Seven, DataBits::Eight][i as usize % 2]
}
pub fn mk_parity(i: u32) -> Parity {
    [Parity::Even, Parity::Odd, Parity::None][i as usize % 3]
}
pub fn mk_stop_bits(i: u32) -> StopBits {
    [StopBits::One, StopBits::OneHalf, StopBits::Two, StopBits::Half][i as usize % 4]
}
pub fn mk_UartMode(v: &Fv) -> UartMode {
    let p = v.parts();
    UartMode::new(mk_data_bits(p[0]), mk_parity(p[1]), mk_stop_bits(p[2]))
}
pub fn mk_CfgItfmConfig(v: &Fv) -> CfgItfmConfig {
    let p = v.parts();
    CfgItfmConfig::new(p[0] != 0, p[1], p[2])
}
pub fn mk_CfgItfmConfig2(v: &Fv) -> CfgItfmConfig2 {
    let p = v.parts();
    let a = [CfgItfmAntennaSettings::Unknown, CfgItfmAntennaSettings::Active, CfgItfmAntennaSettings::Passive][p[0] as usize % 3];
    CfgItfmConfig2::new(a, p[1] != 0)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Oops(pub u32);
impl core::fmt::Display for Oops {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "oops {}", self.0)
    }
}

/// A destination that records everything and fails on request.
#[derive(Default, Debug)]
pub struct ScriptWriter {
    pub out: Vec<u8>,
    pub prefix: usize,
    pub reserved: usize,
    pub reserve_calls: usize,
    pub fail_reserve: Option<bool>,
    /// fail at the n-th write; bool: custom error (else NotEnoughMem)
    pub fail_write: Option<(usize, bool)>,
    pub writes: usize,
    pub calls_after_failure: usize,
    pub failed: bool,
    pub max_over: usize,
}
impl ScriptWriter {
    fn err(&mut self, custom: bool, n: u32) -> MemWriterError<Oops> {
        self.failed = true;
        if custom {
            MemWriterError::Custom(Oops(n))
        } else {
            MemWriterError::NotEnoughMem
        }
    }
}
impl MemWriter for ScriptWriter {
    type Error = Oops;
    fn reserve_allocate(&mut self, len: usize) -> Result<(), MemWriterError<Oops>> {
        if self.failed {
            self.calls_after_failure += 1;
        }
        self.reserve_calls += 1;
        self.reserved += len;
        if let Some(c) = self.fail_reserve {
            return Err(self.err(c, 7));
        }
        Ok(())
    }
    fn write(&mut self, buf: &[u8]) -> Result<(), MemWriterError<Oops>> {
        if self.failed {
            self.calls_after_failure += 1;
        }
        let k = self.writes;
        self.writes += 1;
        if let Some((n, c)) = self.fail_write {
            if n == k {
                return Err(self.err(c, 1000 + k as u32));
            }
        }
        self.out.extend_from_slice(buf);
        let written = self.out.len() - self.prefix;
        self.max_over = self.max_over.max(written.saturating_sub(self.reserved));
        Ok(())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum WErr {
    NotEnoughMem,
    Custom(u32),
}
pub fn werr(e: MemWriterError<Oops>) -> WErr {
    match e {
        MemWriterError::NotEnoughMem => WErr::NotEnoughMem,
        MemWriterError::Custom(c) => WErr::Custom(c.0),
    }
}
pub struct WriterRun {
    pub w: ScriptWriter,
    pub result: Option<Result<(), WErr>>,
}
pub enum How<'a> {
    Bytes,
    From,
    Into,
    Writer(&'a mut WriterRun),
    #[cfg(feature = "std")]
    VecWriter(&'a mut Vec<u8>),
    Len,
}

//! Types of the golden tables, and the independent interpreter that computes from payload bytes what every accessor
//! of a message has to return.
use crate::val::Val;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    F32,
    F64,
    Bytes(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rest {
    Reserved,
    Error,
}
#[derive(Debug)]
pub struct EnumDef {
    pub name: &'static str,
    pub rest: Rest,
    pub default: Option<u64>,
    pub variants: &'static [(&'static str, u64)],
}
#[derive(Debug)]
pub struct FlagDef {
    pub name: &'static str,
    pub bits: u32,
    pub consts: &'static [(&'static str, u64)],
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Custom {
    FixStatusInfo,
    NavSatSvFlags,
    CfgItfmConfig,
    CfgItfmConfig2,
    UartMode,
    TimTpFlags,
    TimTpRefInfo,
    TimTm2Flags,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ListKind {
    NavSat,
    RxmRawx,
    MonVer,
    EsfMeas,
    EsfRaw,
    Dwrd,
}
#[derive(Clone, Copy, Debug)]
pub enum Map {
    None,
    Float { single: bool, scale: f64 },
    Enum(&'static EnumDef),
    Flags(&'static FlagDef),
    Custom(Custom),
    Cstr,
    OptStr,
    OptU32,
    List(ListKind),
}
#[derive(Debug)]
pub struct Field {
    pub name: &'static str,
    pub getter: &'static str,
    pub off: usize,
    pub size: usize,
    pub ty: Ty,
    pub map: Map,
}
#[derive(Debug)]
pub struct Pkt {
    pub name: &'static str,
    pub recv: bool,
    pub send: bool,
    pub class: u8,
    pub id: u8,
    pub fixed: Option<usize>,
    pub max: usize,
    pub min: usize,
    pub dispatch: Option<usize>,
    pub default_builder: bool,
    pub fields: &'static [Field],
}

pub fn pkt(name: &str) -> &'static Pkt {
    crate::tables::PKTS.iter().find(|p| p.name == name).unwrap_or_else(|| panic!("harness: no packet {name}"))
}

/// Messages the parser can deliver, in dispatch order.
pub fn dispatched() -> Vec<&'static Pkt> {
    let mut v: Vec<_> = crate::tables::PKTS.iter().filter(|p| p.dispatch.is_some()).collect();
    v.sort_by_key(|p| p.dispatch);
    v
}

/// Messages the parser can actually produce (not shadowed by an earlier equal one).
pub fn reachable() -> Vec<&'static Pkt> {
    dispatched().into_iter().filter(|p| p.name != "MgaGpsEPH").collect()
}

pub fn le(b: &[u8]) -> u64 {
    let mut r = 0u64;
    for (i, x) in b.iter().enumerate() {
        r |= (*x as u64) << (8 * i);
    }
    r
}

pub fn raw_int(ty: Ty, b: &[u8]) -> i128 {
    let u = le(b);
    match ty {
        Ty::U8 | Ty::U16 | Ty::U32 => u as i128,
        Ty::I8 => u as u8 as i8 as i128,
        Ty::I16 => u as u16 as i16 as i128,
        Ty::I32 => u as u32 as i32 as i128,
        _ => panic!("harness: raw_int"),
    }
}

pub fn raw_val(f: &Field, b: &[u8]) -> Val {
    match f.ty {
        Ty::F32 => Val::F(f32::from_bits(le(b) as u32) as f64, true),
        Ty::F64 => Val::F(f64::from_bits(le(b)), false),
        Ty::Bytes(_) => Val::Bytes(b.to_vec()),
        t => Val::Int(raw_int(t, b)),
    }
}

pub fn cstr_ok(b: &[u8]) -> bool {
    match b.iter().position(|x| *x == 0) {
        Some(p) => std::str::from_utf8(&b[..p]).is_ok(),
        None => false,
    }
}
pub fn cstr(b: &[u8]) -> String {
    let p = b.iter().position(|x| *x == 0).unwrap();
    std::str::from_utf8(&b[..p]).unwrap().to_string()
}

/// (offset, length) of the variable part of a message payload.
pub fn esf_meas_parts(pl: &[u8]) -> (usize, usize, usize) {
    let flags = le(&pl[4..6]);
    let n = ((flags >> 11) & 0x1f) as usize * 4;
    let c = if flags & 8 != 0 { 4 } else { 0 };
    (8, n, c)
}

/// Does `payload` have the shape of message `p`?
pub fn accepts(p: &Pkt, pl: &[u8]) -> bool {
    if let Some(n) = p.fixed {
        if pl.len() != n {
            return false;
        }
    } else if pl.len() < p.min {
        return false;
    }
    if p.name == "EsfMeas" {
        let (o, n, c) = esf_meas_parts(pl);
        return pl.len() >= o + n + c && (pl.len() - o) % 4 == 0;
    }
    for f in p.fields {
        let ok = match f.map {
            Map::Enum(e) if e.rest == Rest::Error && f.size == 1 && e.name != "ResetMode" => e.variants.iter().any(|v| v.1 == pl[f.off] as u64),
            Map::Cstr => cstr_ok(&pl[f.off..f.off + f.size]),
            Map::List(ListKind::NavSat) => (pl.len() - f.off) % 12 == 0,
            Map::List(ListKind::RxmRawx) => (pl.len() - f.off) % 32 == 0,
            Map::List(ListKind::MonVer) => (pl.len() - f.off) % 30 == 0 && pl[f.off..].chunks(30).all(cstr_ok),
            Map::List(ListKind::EsfRaw) => (pl.len() - f.off) % 8 == 0,
            Map::List(ListKind::Dwrd) => (pl.len() - f.off) % 4 == 0,
            _ => true,
        };
        if !ok {
            return false;
        }
    }
    true
}

/// The message type a payload must be delivered as, None for "unknown".
pub fn classify(class: u8, id: u8, pl: &[u8]) -> Option<&'static Pkt> {
    dispatched().into_iter().find(|p| p.class == class && p.id == id && accepts(p, pl))
}

fn enum_name(e: &EnumDef, code: u64) -> Option<String> {
    match e.variants.iter().find(|v| v.1 == code) {
        Some(v) => Some(v.0.to_string()),
        None if e.rest == Rest::Reserved => Some(format!("Reserved{code}")),
        None => None,
    }
}

fn b(x: bool) -> Val {
    Val::Int(x as i128)
}
fn n(x: impl Into<String>) -> Val {
    Val::Name(x.into())
}

pub fn custom_val(c: Custom, raw: u64) -> Option<Val> {
    let bit = |i: u32| b((raw >> i) & 1 == 1);
    Some(match c {
        Custom::FixStatusInfo => Val::Rec(vec![
            ("has_pr_prr_correction".into(), bit(0)),
            ("map_matching".into(), n(["None", "Valid", "Used", "Dr"][(raw >> 6) as usize & 3])),
        ]),
        Custom::NavSatSvFlags => {
            let q = ["NoSignal", "Searching", "SignalAcquired", "SignalDetected", "CodeLock", "CarrierLock", "CarrierLock", "CarrierLock"];
            let h = (raw >> 4) & 3;
            let o = (raw >> 8) & 7;
            let mut v = vec![
                ("quality_ind".to_string(), n(q[raw as usize & 7])),
                ("sv_used".into(), bit(3)),
                (
                    "health".into(),
                    n(match h {
                        1 => "Healthy".to_string(),
                        2 => "Unhealthy".to_string(),
                        x => format!("Unknown({x})"),
                    }),
                ),
                ("differential_correction_available".into(), bit(6)),
                ("smoothed".into(), bit(7)),
                (
                    "orbit_source".into(),
                    n(match o {
                        0 => "NoInfoAvailable".to_string(),
                        1 => "Ephemeris".into(),
                        2 => "Almanac".into(),
                        3 => "AssistNowOffline".into(),
                        4 => "AssistNowAutonomous".into(),
                        x => format!("Other({x})"),
                    }),
                ),
            ];
            for (name, i) in [
                ("ephemeris_available", 11),
                ("almanac_available", 12),
                ("an_offline_available", 13),
                ("an_auto_available", 14),
                ("sbas_corr", 16),
                ("rtcm_corr", 17),
                ("slas_corr", 18),
                ("spartn_corr", 19),
                ("pr_corr", 20),
                ("cr_corr", 21),
                ("do_corr", 22),
            ] {
                v.push((name.into(), bit(i)));
            }
            Val::Rec(v)
        },
        Custom::TimTpFlags => Val::Rec(vec![
            ("time_base".into(), n(if raw & 1 == 0 { "Gnss" } else { "Utc" })),
            ("utc_available".into(), bit(1)),
            (
                "raim_active".into(),
                match (raw >> 2) & 3 {
                    1 => Val::Opt(Some(Box::new(b(false)))),
                    2 => Val::Opt(Some(Box::new(b(true)))),
                    _ => Val::Opt(None),
                },
            ),
            ("q_err_valid".into(), b((raw >> 4) & 1 == 0)),
        ]),
        Custom::TimTpRefInfo => {
            let g = ["Gps", "Glo", "Bds", "Gal", "NavIc"];
            let u = ["Crl", "Nist", "Usno", "Bipm", "Eu", "Su", "Ntsc", "Npli"];
            let lo = (raw & 15) as usize;
            let hi = (raw >> 4) as usize & 15;
            Val::Rec(vec![
                ("time_ref_gnss".into(), Val::Opt(g.get(lo).map(|s| Box::new(n(*s))))),
                ("utc_standard".into(), Val::Opt(if hi == 0 { None } else { u.get(hi - 1).map(|s| Box::new(n(*s))) })),
            ])
        },
        Custom::TimTm2Flags => Val::Rec(vec![
            ("mode".into(), n(if raw & 1 == 0 { "Single" } else { "Running" })),
            ("run".into(), n(if raw & 2 == 0 { "Armed" } else { "Stopped" })),
            ("new_falling_edge".into(), bit(2)),
            ("new_rising_edge".into(), bit(7)),
            ("time_base".into(), n(["Receiver", "Gnss", "Utc", "Reserved"][(raw >> 3) as usize & 3])),
            ("utc_available".into(), bit(5)),
            ("time_valid".into(), bit(6)),
        ]),
        Custom::UartMode => {
            let (d, p, s) = uart_parts(raw)?;
            n(format!("UartMode {{ data_bits: {d}, parity: {p}, stop_bits: {s} }}"))
        },
        Custom::CfgItfmConfig => n(format!(
            "CfgItfmConfig {{ enable: {}, bb_threshold: CfgItfmBbThreshold({}), cw_threshold: CfgItfmCwThreshold({}), algorithm_bits: CfgItfmAlgoBits({}) }}",
            raw >> 31 & 1 == 1,
            raw & 0xf,
            raw >> 4 & 0x1f,
            raw >> 9 & 0x3f_ffff
        )),
        Custom::CfgItfmConfig2 => n(format!(
            "CfgItfmConfig2 {{ general: CfgItfmGeneralBits({}), antenna: {}, scan_aux_bands: {} }}",
            raw & 0xfff,
            ["Unknown", "Active", "Passive", "Unknown"][(raw >> 12) as usize & 3],
            raw >> 14 & 1 == 1
        )),
    })
}

/// Names of data bits, parity and stop bits of a UART mode word; None when the word uses an undefined combination.
pub fn uart_parts(raw: u64) -> Option<(&'static str, &'static str, &'static str)> {
    let d = match raw >> 6 & 3 {
        2 => "Seven",
        3 => "Eight",
        _ => return None,
    };
    let p = match raw >> 9 & 7 {
        0 => "Even",
        1 => "Odd",
        4 | 5 => "None",
        _ => return None,
    };
    Some((d, p, ["One", "OneHalf", "Two", "Half"][(raw >> 12) as usize & 3]))
}

pub fn list_val(k: ListKind, data: &[u8]) -> Val {
    let rec = |name: &str, c: &[u8]| Val::Rec(expect(pkt(name), c).into_iter().map(|(n, v)| (n, v.unwrap())).collect());
    Val::List(match k {
        ListKind::NavSat => data.chunks(12).map(|c| rec("NavSatSvInfo", c)).collect(),
        ListKind::RxmRawx => data.chunks(32).map(|c| rec("RxmRawxInfo", c)).collect(),
        ListKind::MonVer => data.chunks(30).map(|c| Val::Str(cstr(c))).collect(),
        ListKind::EsfMeas => data
            .chunks(4)
            .map(|c| {
                let w = le(c);
                Val::Rec(vec![("data_type".into(), Val::Int((w >> 24 & 0x3f) as i128)), ("data_field".into(), Val::Int((w & 0xff_ffff) as i128))])
            })
            .collect(),
        ListKind::EsfRaw => data
            .chunks(8)
            .map(|c| {
                let w = le(&c[..4]);
                Val::Rec(vec![
                    ("data_type".into(), Val::Int((w >> 24 & 0xff) as i128)),
                    ("data_field".into(), Val::Int((w & 0xff_ffff) as i128)),
                    ("sensor_time_tag".into(), Val::Int(le(&c[4..]) as i128)),
                ])
            })
            .collect(),
        ListKind::Dwrd => data.chunks(4).map(|c| Val::Int(le(c) as i128)).collect(),
    })
}

/// The bytes of one field in an accepted payload (variable-size fields included).
pub fn field_bytes<'a>(p: &Pkt, f: &Field, pl: &'a [u8]) -> &'a [u8] {
    if f.size > 0 {
        &pl[f.off..f.off + f.size]
    } else if p.name == "EsfMeas" {
        let (o, n, c) = esf_meas_parts(pl);
        if f.name == "data" {
            &pl[o..o + n]
        } else {
            &pl[o + n..o + n + c]
        }
    } else {
        &pl[f.off..]
    }
}

/// What one accessor must return; None when the protocol defines no value (undefined UART mode words).
pub fn field_val(f: &Field, bytes: &[u8]) -> Option<Val> {
    Some(match f.map {
        Map::None => raw_val(f, bytes),
        Map::Float { single, scale } => {
            let r = raw_int(f.ty, bytes);
            Val::F(r as f64 * scale, single)
        },
        Map::Enum(e) => Val::Enum(enum_name(e, le(bytes))?, le(bytes)),
        Map::Flags(_) => Val::Flags(le(bytes)),
        Map::Custom(c) => return custom_val(c, le(bytes)),
        Map::Cstr => Val::Str(cstr(bytes)),
        Map::OptStr => Val::Opt(std::str::from_utf8(bytes).ok().map(|s| Box::new(Val::Str(s.into())))),
        Map::OptU32 => Val::Opt(if bytes.len() == 4 { Some(Box::new(Val::Int(le(bytes) as i128))) } else { None }),
        Map::List(k) => list_val(k, bytes),
    })
}

/// (accessor name, value) for every accessor of an accepted payload, raw accessors included.
pub fn expect(p: &Pkt, pl: &[u8]) -> Vec<(String, Option<Val>)> {
    let mut out = vec![];
    for f in p.fields {
        let by = field_bytes(p, f, pl);
        if !matches!(f.map, Map::None) && f.size > 0 {
            out.push((format!("{}_raw", f.getter), Some(raw_val(f, by))));
        }
        out.push((f.getter.to_string(), field_val(f, by)));
    }
    out
}

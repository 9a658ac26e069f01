//! C24: what the library serialises and declares readable is read back as the same value.
use crate::driver::*;
use crate::ensure;
use crate::gen::Gen;
use ublox::*;

#[derive(Debug, Clone, Hash)]
struct Case {
    kind: usize,
    a: u64,
    b: u64,
    c: u64,
}

const KINDS: &[&str] = &[
    "Position",
    "PositionECEF",
    "Velocity",
    "UartMode",
    "DataBits",
    "Parity",
    "StopBits",
    "CfgItfmConfig",
    "CfgItfmConfig2",
    "CfgItfmAntennaSettings",
    "ResetMode",
    "NavSatQualityIndicator",
    "NavSatSvHealth",
    "NavSatOrbitSource",
];

/// Text -> value -> text, and the debug form of the value; also inside a list and through a tree of values, as a
/// program that stores several of them does.
macro_rules! there_and_back {
    ($k:expr, $t:ty, $v:expr) => {{
        let v: $t = $v;
        let k = $k;
        let s = match guard(|| serde_json::to_string(&v)) {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => return fail(format!("write:{k}"), format!("{v:?} is not written: {e}")),
            Err(e) => return fail(format!("write:{k}"), format!("{v:?} panics: {e}")),
        };
        let back: $t = match serde_json::from_str(&s) {
            Ok(x) => x,
            Err(e) => return fail(format!("not-read-back:{k}"), format!("{v:?} is written as {s}, which is refused: {e}")),
        };
        ensure!(serde_json::to_string(&back).ok().as_deref() == Some(&s) || k == "Position" || k == "PositionECEF" || k == "Velocity", format!("differs:{k}"), "{v:?} is written as {s} and read as {back:?}");
        let tree = serde_json::to_value([v, v]).map_err(|e| Fail { sig: format!("write:{k}"), msg: e.to_string() })?;
        let two: Vec<$t> = match serde_json::from_value(tree) {
            Ok(x) => x,
            Err(e) => return fail(format!("not-read-back:{k}"), format!("a list of {v:?} is refused: {e}")),
        };
        ensure!(two.len() == 2, format!("differs:{k}"), "a list of two {v:?} has {} elements", two.len());
        [v, back, two[0], two[1]]
    }};
}

const ANT: [&str; 3] = ["Unknown", "Active", "Passive"];
fn antenna(i: u32) -> CfgItfmAntennaSettings {
    [CfgItfmAntennaSettings::Unknown, CfgItfmAntennaSettings::Active, CfgItfmAntennaSettings::Passive][i as usize]
}
/// The recorded defect, told by its exact circumstances: the setting is written as its number, the number is refused,
/// and the name is accepted as the same setting.
fn ant_written_as_number(k: &str, i: u32) -> Result<bool, Fail> {
    let v = antenna(i);
    let s = serde_json::to_string(&v).map_err(|e| Fail { sig: format!("write:{k}"), msg: e.to_string() })?;
    let refused = serde_json::from_str::<CfgItfmAntennaSettings>(&s).is_err();
    let named = serde_json::from_str::<CfgItfmAntennaSettings>(&format!("\"{}\"", ANT[i as usize])).is_ok_and(|x| x as u8 == v as u8);
    Ok(s == i.to_string() && refused && named)
}

fn close(a: f64, b: f64) -> bool {
    // the reader of numbers is a third party's and may be off by one unit in the last place
    a == b || (a - b).abs() <= 4e-16 * a.abs().max(b.abs()) || (a - b).abs() < 1e-300
}

fn check(c: &Case, o: &mut Obs) -> Res {
    let k = KINDS[c.kind];
    o.class(k);
    o.check();
    let (x, y, z) = (f64::from_bits(c.a), f64::from_bits(c.b), f64::from_bits(c.c));
    match k {
        "Position" => {
            for p in there_and_back!(k, Position, Position { lon: x, lat: y, alt: z }) {
                ensure!(close(p.lon, x) && close(p.lat, y) && close(p.alt, z), format!("differs:{k}"), "({x:?}, {y:?}, {z:?}) is read back as {p:?}");
            }
        },
        "PositionECEF" => {
            for p in there_and_back!(k, PositionECEF, PositionECEF { x, y, z }) {
                ensure!(close(p.x, x) && close(p.y, y) && close(p.z, z), format!("differs:{k}"), "({x:?}, {y:?}, {z:?}) is read back as {p:?}");
            }
        },
        "Velocity" => {
            for p in there_and_back!(k, Velocity, Velocity { speed: x, heading: y }) {
                ensure!(close(p.speed, x) && close(p.heading, y), format!("differs:{k}"), "({x:?}, {y:?}) is read back as {p:?}");
            }
        },
        "UartMode" => {
            let port = |mode: UartMode| CfgPrtUartBuilder { portid: UartPortId::Uart1, reserved0: 0, tx_ready: 0, mode, baud_rate: 9600, in_proto_mask: InProtoMask::all(), out_proto_mask: OutProtoMask::all(), flags: 0, reserved5: 0 }.into_packet_bytes();
            let d = [DataBits::Seven, DataBits::Eight][(c.a % 2) as usize];
            let p = [Parity::Even, Parity::Odd, Parity::None][(c.b % 3) as usize];
            let s = [StopBits::One, StopBits::OneHalf, StopBits::Two, StopBits::Half][(c.c % 4) as usize];
            let all = there_and_back!(k, UartMode, UartMode::new(d, p, s));
            for m in all {
                ensure!(port(m) == port(all[0]), format!("differs:{k}"), "{:?} is read back as {m:?}", all[0]);
            }
        },
        "DataBits" => {
            let all = there_and_back!(k, DataBits, [DataBits::Seven, DataBits::Eight][(c.a % 2) as usize]);
            for m in all {
                ensure!(std::mem::discriminant(&m) == std::mem::discriminant(&all[0]), format!("differs:{k}"), "{:?} is read back as {m:?}", all[0]);
            }
        },
        "Parity" => {
            let all = there_and_back!(k, Parity, [Parity::Even, Parity::Odd, Parity::None][(c.a % 3) as usize]);
            for m in all {
                ensure!(std::mem::discriminant(&m) == std::mem::discriminant(&all[0]), format!("differs:{k}"), "{:?} is read back as {m:?}", all[0]);
            }
        },
        "StopBits" => {
            let all = there_and_back!(k, StopBits, [StopBits::One, StopBits::OneHalf, StopBits::Two, StopBits::Half][(c.a % 4) as usize]);
            for m in all {
                ensure!(std::mem::discriminant(&m) == std::mem::discriminant(&all[0]), format!("differs:{k}"), "{:?} is read back as {m:?}", all[0]);
            }
        },
        "CfgItfmConfig" => {
            let f = |config| CfgItfmBuilder { config, config2: CfgItfmConfig2::new(CfgItfmAntennaSettings::Active, true) }.into_packet_bytes();
            let v = if c.b % 2 == 0 { CfgItfmConfig::from(c.a as u32) } else { CfgItfmConfig::new(c.c % 2 == 1, c.a as u32, (c.a >> 32) as u32) };
            let all = there_and_back!(k, CfgItfmConfig, v);
            for m in all {
                ensure!(f(m) == f(v) && format!("{m:?}") == format!("{v:?}"), format!("differs:{k}"), "{v:?} is read back as {m:?}");
            }
        },
        "CfgItfmConfig2" => {
            let f = |config2| CfgItfmBuilder { config: CfgItfmConfig::default(), config2 }.into_packet_bytes();
            let v = CfgItfmConfig2::from(c.a as u32);
            let ant = (c.a as u32 >> 12 & 3) % 3;
            if let (Ok(s), true) = (serde_json::to_string(&v), ant_written_as_number(k, ant)?) {
                // the recorded defect; the rest of the value must still come back once the number is replaced by the name
                let t = s.replace(&format!("\"antenna\":{ant}"), &format!("\"antenna\":\"{}\"", ANT[ant as usize]));
                let m: CfgItfmConfig2 = match serde_json::from_str(&t) {
                    Ok(x) => x,
                    Err(e) => return fail(format!("not-read-back:{k}"), format!("{v:?} is written as {s}; even {t} is refused: {e}")),
                };
                ensure!(f(m) == f(v) && format!("{m:?}") == format!("{v:?}"), format!("differs:{k}"), "{v:?} is read back as {m:?}");
                return fail("antenna-number", format!("{v:?} is written as {s}, which is refused"));
            }
            let all = there_and_back!(k, CfgItfmConfig2, v);
            for m in all {
                ensure!(f(m) == f(v) && format!("{m:?}") == format!("{v:?}"), format!("differs:{k}"), "{v:?} is read back as {m:?}");
            }
        },
        "CfgItfmAntennaSettings" => {
            let v = antenna((c.a % 3) as u32);
            if ant_written_as_number(k, (c.a % 3) as u32)? {
                return fail("antenna-number", format!("{v:?} is written as its number, which is refused"));
            }
            for m in there_and_back!(k, CfgItfmAntennaSettings, v) {
                ensure!(m as u8 == v as u8, format!("differs:{k}"), "{v:?} is read back as {m:?}");
            }
        },
        "ResetMode" => {
            let v = [
                ResetMode::HardwareResetImmediately,
                ResetMode::ControlledSoftwareReset,
                ResetMode::ControlledSoftwareResetGpsOnly,
                ResetMode::HardwareResetAfterShutdown,
                ResetMode::ControlledGpsStop,
                ResetMode::ControlledGpsStart,
            ][(c.a % 6) as usize];
            for m in there_and_back!(k, ResetMode, v) {
                ensure!(m as u8 == v as u8, format!("differs:{k}"), "{v:?} is read back as {m:?}");
            }
        },
        "NavSatQualityIndicator" => {
            use NavSatQualityIndicator::*;
            let v = [NoSignal, Searching, SignalAcquired, SignalDetected, CodeLock, CarrierLock][(c.a % 6) as usize];
            for m in there_and_back!(k, NavSatQualityIndicator, v) {
                ensure!(m as u8 == v as u8, format!("differs:{k}"), "{v:?} is read back as {m:?}");
            }
        },
        "NavSatSvHealth" => {
            use NavSatSvHealth::*;
            let v = [Healthy, Unhealthy, Unknown(c.b as u8)][(c.a % 3) as usize];
            for m in there_and_back!(k, NavSatSvHealth, v) {
                ensure!(format!("{m:?}") == format!("{v:?}"), format!("differs:{k}"), "{v:?} is read back as {m:?}");
            }
        },
        "NavSatOrbitSource" => {
            use NavSatOrbitSource::*;
            let v = [NoInfoAvailable, Ephemeris, Almanac, AssistNowOffline, AssistNowAutonomous, Other(c.b as u8)][(c.a % 6) as usize];
            for m in there_and_back!(k, NavSatOrbitSource, v) {
                ensure!(format!("{m:?}") == format!("{v:?}"), format!("differs:{k}"), "{v:?} is read back as {m:?}");
            }
        },
        _ => unreachable!(),
    }
    Ok(())
}

fn finite(g: &mut Gen) -> u64 {
    let x = match g.weighted(&[3, 3, 2]) {
        0 => g.upto(3_600_000_000) as f64 * 1e-7 - 180.0,
        1 => f64::from_bits(g.upto(u64::MAX)),
        _ => *g.pick(&[0.0, -0.0, 1.0, -1.0, 90.0, -180.0, 0.1, 1e-7, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 6378137.0, 1e21, 123456789.987654321]),
    };
    if x.is_finite() {
        x.to_bits()
    } else {
        1f64.to_bits()
    }
}

pub fn c24(c: &mut Ctx) {
    let float = |k: usize| k < 3;
    c.sub(
        "values",
        "a value of each type that can be written and read (finite numbers, any configuration word), as JSON text and as a tree in a list, back to the same value; non-trivial: not all parts zero",
        c.n(60_000, 2_000_000),
        |g| {
            let kind = g.below(KINDS.len());
            if float(kind) {
                Case { kind, a: finite(g), b: finite(g), c: finite(g) }
            } else {
                Case { kind, a: g.upto(u64::MAX), b: g.upto(u64::MAX), c: g.upto(u64::MAX) }
            }
        },
        |x, o| {
            if x.a | x.b | x.c != 0 {
                o.nt();
            }
            check(x, o)
        },
    );
    let n = KINDS.len() as u64 - 3;
    c.all("small-domains", "every value of each small type; the words of the two configuration parts by single bits and their complements", n * 256 * 4, |i, o| {
        o.nt();
        let (kind, j) = ((i / 1024 + 3) as usize, i % 1024);
        let a = match KINDS[kind] {
            "CfgItfmConfig" | "CfgItfmConfig2" => {
                let w = 1u64 << (j % 32);
                if j / 32 % 2 == 0 {
                    w
                } else {
                    !w & 0xffff_ffff
                }
            },
            _ => j % 24,
        };
        let cs = Case { kind, a, b: if matches!(KINDS[kind], "CfgItfmConfig") { 0 } else { j / 4 }, c: j / 6 };
        check(&cs, o)
    });
}

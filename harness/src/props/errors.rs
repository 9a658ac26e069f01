//! C26: what an error says is what happened.
use crate::driver::*;
use crate::ensure;
use crate::gen::Gen;
use crate::gens;
use crate::model::{fletcher, frame};
use crate::spec::*;
use ublox::*;

#[derive(Debug, Clone, Hash)]
enum Trouble {
    /// a frame whose two checksum bytes are xored
    Sum { frame: Vec<u8>, flip: (u8, u8), cut: usize },
    /// a frame longer than the store, arriving in three pieces
    Space { class: u8, id: u8, len: usize, cap: usize, cut: usize, seen: usize },
    /// a position-velocity-time message with impossible parts
    Time { year: u16, month: u8, day: u8, h: u8, m: u8, s: u8, ns: i32 },
    /// a writer refusing with a text of its own at its k-th call
    Writer { pkt: usize, at: usize, code: u64, full: bool },
    /// the error values as such
    Field { packet: usize, field: usize },
    Len { packet: usize, expect: usize, got: usize },
}

/// The words of a text: runs of letters, digits and underscores.
fn words(t: &str) -> Vec<String> {
    t.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()
}
fn hex_of(w: &str) -> Option<u64> {
    let w = w.strip_prefix("0x").or(w.strip_prefix("0X")).unwrap_or(w);
    u64::from_str_radix(w, 16).ok()
}

const PACKETS: [&str; 4] = ["NavPvt", "CfgPrtUart", "A", "UbxVeryLongPacketName_7"];
const FIELDS: [&str; 4] = ["fix_type", "mode", "x", "reserved_17"];

#[derive(Debug)]
struct Refusal(u64);
impl std::fmt::Display for Refusal {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "refusal_{}", self.0)
    }
}
impl std::error::Error for Refusal {}
struct W {
    left: usize,
    code: u64,
    full: bool,
}
impl W {
    fn step(&mut self) -> Result<(), MemWriterError<Refusal>> {
        if self.left == 0 {
            return Err(if self.full { MemWriterError::NotEnoughMem } else { MemWriterError::Custom(Refusal(self.code)) });
        }
        self.left -= 1;
        Ok(())
    }
}
impl MemWriter for W {
    type Error = Refusal;
    fn reserve_allocate(&mut self, _: usize) -> Result<(), MemWriterError<Refusal>> {
        self.step()
    }
    fn write(&mut self, _: &[u8]) -> Result<(), MemWriterError<Refusal>> {
        self.step()
    }
}

/// The text, the same through the error interface of the standard library.
fn text<E: std::error::Error + 'static>(e: E) -> String {
    let t = e.to_string();
    let b: Box<dyn std::error::Error> = Box::new(e);
    assert!(b.to_string() == t);
    t
}

fn sum_text(e: ParserError, expect: u16, got: u16) -> Res {
    let t = e.to_string();
    let h: Vec<u64> = words(&t).iter().filter_map(|w| hex_of(w)).collect();
    let (a, b) = (h.iter().position(|x| *x == expect as u64), h.iter().rposition(|x| *x == got as u64));
    ensure!(a.is_some() && b.is_some() && a < b, "text:checksum", "for checksums {expect:#06x} in the frame and {got:#06x} of its bytes the text is {t:?}");
    Ok(())
}

fn check(x: &Trouble, o: &mut Obs) -> Res {
    o.nt();
    o.check();
    match x {
        Trouble::Sum { frame: f, flip, cut } => {
            o.class("checksum");
            let mut d = f.clone();
            let n = d.len();
            let (ca, cb) = fletcher(&d[2..n - 2]);
            d[n - 2] ^= flip.0;
            d[n - 1] ^= flip.1;
            let mut p = Parser::<Vec<u8>>::default();
            let cut = (*cut).min(n);
            {
                let mut it = p.consume(&d[..cut]);
                if cut < n {
                    ensure!(it.next().is_none(), "early", "a result before the frame is complete");
                }
            }
            let mut it = p.consume(&d[cut..]);
            let r = it.next();
            match r {
                Some(Err(e)) => {
                    // expected: what the frame says; got: what its bytes add up to
                    let (want, got) = (u16::from_le_bytes([d[n - 2], d[n - 1]]), u16::from_le_bytes([ca, cb]));
                    ensure!(e == ParserError::InvalidChecksum { expect: want, got }, "kind:checksum", "a damaged checksum is reported as {e:?}");
                    sum_text(e, want, got)
                },
                r => fail("kind:checksum", format!("a damaged checksum gives {r:?}")),
            }
        },
        Trouble::Space { class, id, len, cap, cut, seen } => {
            o.class("store too small");
            let d = frame(*class, *id, &vec![0; *len]);
            let mut store = vec![0; *cap];
            let mut p = Parser::new(FixedLinearBuffer::new(&mut store));
            let cut = (*cut).min(*cap);
            let mut es = vec![];
            let seen = (*seen).clamp(cut, d.len());
            for c in [&d[..cut], &d[cut..seen], &d[seen..]] {
                let mut it = p.consume(c);
                while let Some(r) = it.next() {
                    match r {
                        Err(e @ ParserError::OutOfMemory { .. }) => es.push(e),
                        Err(e) => return fail("kind:space", format!("a frame longer than the store gives {e:?}")),
                        Ok(_) => o.class("delivered without storing"),
                    }
                }
            }
            for e in es {
                o.class("reported");
                // counted behind the header, as the existing tests have it
                let need = d.len() - 6;
                ensure!(e == ParserError::OutOfMemory { required_size: need }, "kind:space", "a frame of {} bytes for a store of {cap} gives {e:?}", d.len());
                let t = text(e);
                ensure!(words(&t).contains(&need.to_string()), "text:space", "a frame of {} bytes for a store of {cap} is told as {t:?}", d.len());
            }
            Ok(())
        },
        Trouble::Time { year, month, day, h, m, s, ns } => {
            o.class("impossible time");
            let mut p = vec![0u8; 92];
            p[4..6].copy_from_slice(&year.to_le_bytes());
            p[6] = *month;
            p[7] = *day;
            p[8] = *h;
            p[9] = *m;
            p[10] = *s;
            p[16..20].copy_from_slice(&ns.to_le_bytes());
            let r = super::stream::with_packet(1, 7, &p, |k| match k {
                PacketRef::NavPvt(v) => chrono::DateTime::<chrono::Utc>::try_from(v).map_err(|e| (e, text(e))),
                _ => panic!("harness: not a NavPvt"),
            })?;
            let bad_date = chrono::NaiveDate::from_ymd_opt(*year as i32, *month as u32, *day as u32).is_none();
            let bad_time = *h > 23 || *m > 59 || *s > 59;
            let bad_ns = (*ns as i64).abs() > 999_999_999;
            match r {
                Ok(t) => ensure!(!bad_date && !bad_time && !bad_ns, "kind:time", "{x:?} gives {t:?}"),
                Err((e, t)) => {
                    let l = t.to_lowercase();
                    let says = [("date", bad_date), ("time", bad_time), ("nanosecond", bad_ns)];
                    let named: Vec<_> = says.iter().filter(|s| l.contains(s.0)).collect();
                    ensure!(!named.is_empty(), "text:time", "{x:?}: {e:?} is told as {t:?}, which names no part");
                    ensure!(named.iter().any(|s| s.1), "text:time", "{x:?}: told as {t:?}, but that part is possible");
                },
            }
            Ok(())
        },
        Trouble::Writer { pkt, at, code, full } => {
            o.class("writer");
            let mut w = W { left: *at, code: *code, full: *full };
            let r = match pkt % 3 {
                0 => CfgRateBuilder { measure_rate_ms: 1000, nav_rate: 1, time_ref: AlignmentToReferenceTime::Utc }.create_packet(&mut w),
                1 => CfgMsgSinglePortBuilder::set_rate_for::<NavPvt>(1).create_packet(&mut w),
                _ => CfgRstBuilder { nav_bbr_mask: NavBbrPredefinedMask::COLD_START.into(), reset_mode: ResetMode::ControlledGpsStart, reserved1: 0 }.create_packet(&mut w),
            };
            match r {
                Ok(()) => {
                    o.class("writer not reached");
                    Ok(())
                },
                Err(e) => {
                    let (inner, t) = (if let MemWriterError::Custom(Refusal(c)) = &e { Some(*c) } else { None }, text(e));
                    ensure!(inner == if *full { None } else { Some(*code) }, "kind:writer", "a writer refusing with {code} (full: {full}) gives {inner:?}");
                    if *full {
                        ensure!(t.to_lowercase().contains("mem"), "text:writer", "a full writer is told as {t:?}");
                    } else {
                        ensure!(words(&t).contains(&format!("refusal_{code}")), "text:writer", "a writer refusing with refusal_{code} is told as {t:?}");
                    }
                    Ok(())
                },
            }
        },
        Trouble::Field { packet, field } => {
            o.class("field");
            let (p, f) = (PACKETS[*packet], FIELDS[*field]);
            let t = text(ParserError::InvalidField { packet: p, field: f });
            let w = words(&t);
            ensure!(w.iter().any(|x| x == p) && w.iter().any(|x| x == f), "text:field", "field {f} of {p} is told as {t:?}");
            Ok(())
        },
        Trouble::Len { packet, expect, got } => {
            o.class("length");
            let p = PACKETS[*packet];
            let t = text(ParserError::InvalidPacketLen { packet: p, expect: *expect, got: *got });
            let w = words(&t);
            let (a, b) = (w.iter().position(|x| *x == expect.to_string()), w.iter().rposition(|x| *x == got.to_string()));
            ensure!(w.iter().any(|x| x == p) && a.is_some() && b.is_some() && (a < b || (expect == got && a <= b)), "text:length", "{got} instead of {expect} bytes of {p} is told as {t:?}");
            Ok(())
        },
    }
}
fn gen_trouble(g: &mut Gen) -> Trouble {
    match g.weighted(&[5, 4, 4, 2, 1, 2]) {
        0 => {
            let f = if g.bool() {
                let d = dispatched();
                let p = *g.pick(&d);
                frame(p.class, p.id, &gens::payload(g, p, false))
            } else {
                let n = g.range(0, 300);
                let b = g.bytes(n);
                frame(g.byte(), g.byte(), &b)
            };
            let flip = match g.below(3) {
                0 => (1 + g.upto(254) as u8, 0),
                1 => (0, 1 + g.upto(254) as u8),
                _ => (1 + g.upto(254) as u8, g.byte()),
            };
            let cut = g.range(0, f.len());
            Trouble::Sum { frame: f, flip, cut }
        },
        1 => {
            let cap = g.range(7, 300);
            let more = if g.bool() { 4 } else { 2000 };
            let len = cap - 7 + g.below(more);
            Trouble::Space { class: g.upto(0xb4) as u8, id: g.upto(0xb4) as u8, len, cap, cut: g.range(0, cap), seen: g.range(6, len + 8) }
        },
        2 => Trouble::Time {
            year: if g.bool() { 2024 } else { g.upto(65535) as u16 },
            month: if g.bool() { 2 } else { g.upto(14) as u8 },
            day: if g.bool() { 1 } else { g.upto(33) as u8 },
            h: if g.bool() { 1 } else { g.upto(26) as u8 },
            m: if g.bool() { 1 } else { g.upto(62) as u8 },
            s: if g.bool() { 1 } else { g.upto(62) as u8 },
            ns: if g.bool() { 0 } else { g.upto(u32::MAX as u64) as u32 as i32 },
        },
        3 => Trouble::Writer { pkt: g.below(3), at: g.below(8), code: g.upto(u64::MAX), full: g.one_in(3) },
        4 => Trouble::Field { packet: g.below(4), field: g.below(4) },
        _ => Trouble::Len { packet: g.below(4), expect: g.range(0, 9000), got: g.range(0, 66000) },
    }
}

pub fn c26(c: &mut Ctx) {
    c.sub(
        "troubles",
        "damaged checksums, frames longer than the store, impossible times, refusing writers, and the error values as such: the error names the actual cause and its text carries the facts (both checksum values, the size needed, the impossible part, the writer's own text); non-trivial: always",
        c.n(60_000, 2_000_000),
        gen_trouble,
        check,
    );
    c.all("checksums", "every pair of low or high bytes of the two checksum values in the text; non-trivial: always", 65536 * 2, |i, o| {
        o.nt();
        o.check();
        let (k, j) = ((i / 65536) as u32, (i % 65536) as u16);
        let (a, b) = ((j & 255) << (8 * k), (j >> 8) << (8 * k));
        if a == b {
            return Ok(());
        }
        sum_text(ParserError::InvalidChecksum { expect: a, got: b }, a, b)
    });
}

//! C09–C14, C22: what is sent.
use super::stream::with_packet;
use crate::access;
use crate::cfgtab;
use crate::cfgv::Kt;
use crate::driver::*;
use crate::emit::*;
use crate::ensure;
use crate::gen::Gen;
use crate::gens::*;
use crate::model::{fletcher, frame};
use crate::spec::*;
use crate::val::*;
use chrono::{DateTime, Utc};
use ublox::cfg_val::CfgVal;
use ublox::*;

#[derive(Clone, Debug, Hash)]
pub struct Build {
    pub pkt: &'static str,
    pub values: Vec<Fv>,
    /// protocol integers the scaled values stand for
    pub grid: Vec<i128>,
}
fn senders() -> Vec<&'static Pkt> {
    crate::tables::PKTS.iter().filter(|p| p.send && p.name != "CfgValSet").collect()
}
/// Values for all fields; scaled fields get a value on the protocol's grid.
fn on_grid(g: &mut Gen, p: &'static Pkt) -> Build {
    let mut values = vec![];
    let mut grid = vec![];
    for f in p.fields {
        match f.map {
            Map::Float { single, scale } => {
                let (lo, hi) = limits(f);
                // single precision cannot tell neighbours apart beyond 2^22
                let (lo, hi) = if single { (lo.max(-(1 << 22)), hi.min(1 << 22)) } else { (lo, hi) };
                let r = match g.weighted(&[2, 5, 2]) {
                    0 => g.upto(6) as i128 - if lo < 0 { 3 } else { 0 },
                    1 => lo + g.upto((hi - lo) as u64) as i128,
                    _ => {
                        if g.bool() {
                            hi
                        } else {
                            lo
                        }
                    },
                };
                let x = r as f64 * scale;
                values.push(Fv::Float(if single { (x as f32 as f64).to_bits() } else { x.to_bits() }));
                grid.push(r);
            },
            _ => {
                values.push(value(g, f));
                grid.push(0);
            },
        }
    }
    Build { pkt: p.name, values, grid }
}

fn itfm1(p: &[u32]) -> u64 {
    (p[0] as u64) << 31 | 0x16B156 << 9 | (p[2] as u64) << 4 | p[1] as u64
}
fn itfm2(p: &[u32]) -> u64 {
    0x31E | (p[0] as u64) << 12 | (p[1] as u64) << 14
}
fn uart(p: &[u32]) -> u64 {
    ([2u64, 3][p[0] as usize]) << 6 | ([0u64, 1, 4][p[1] as usize]) << 9 | (p[2] as u64) << 12
}
/// The payload the protocol asks for.
fn golden_payload(b: &Build) -> Vec<u8> {
    let p = pkt(b.pkt);
    let mut v = vec![];
    for (i, f) in p.fields.iter().enumerate() {
        assert_eq!(v.len(), f.off, "harness: layout");
        let w = match (&b.values[i], f.map) {
            (Fv::Bytes(x), _) => {
                v.extend_from_slice(x);
                continue;
            },
            (Fv::Float(_), _) => b.grid[i] as i64 as u64,
            (Fv::Parts(x), Map::Custom(Custom::CfgItfmConfig)) => itfm1(x),
            (Fv::Parts(x), Map::Custom(Custom::CfgItfmConfig2)) => itfm2(x),
            (Fv::Parts(x), Map::Custom(Custom::UartMode)) => uart(x),
            (Fv::Raw(x), _) => *x,
            x => panic!("harness: {x:?}"),
        };
        v.extend_from_slice(&w.to_le_bytes()[..f.size]);
    }
    v
}
fn diff_bytes(p: &Pkt, got: &[u8], want: &[u8]) -> String {
    if got.len() != want.len() {
        return format!("{} bytes instead of {}", got.len(), want.len());
    }
    let k = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(0);
    let wher = match k {
        0 | 1 => "sync".to_string(),
        2 => "class".into(),
        3 => "id".into(),
        4 | 5 => "length".into(),
        k if k + 2 >= want.len() => "checksum".into(),
        k => p.fields.iter().find(|f| f.off <= k - 6 && k - 6 < f.off + f.size).map(|f| format!("field {}", f.name)).unwrap_or_default(),
    };
    format!("first difference at byte {k} ({wher}): {got:02x?} instead of {want:02x?}")
}

pub fn c09(c: &mut Ctx) {
    let s = senders();
    c.sub(
        "builders",
        "each builder with boundary-biased values in every field (scaled fields on the grid), against a frame laid out by the golden table; non-trivial: the payload is not all zero",
        c.n(300_000, 10_000_000),
        |g| {
            let p = *g.pick(&s);
            on_grid(g, p)
        },
        |b, o| {
            let p = pkt(b.pkt);
            let want = frame(p.class, p.id, &golden_payload(b));
            if want[6..want.len() - 2].iter().any(|x| *x != 0) || want.len() == 8 {
                o.nt();
            }
            o.class(b.pkt);
            o.check();
            let got = access::emit(b.pkt, &b.values, &mut How::Bytes);
            ensure!(got == want, format!("frame:{}", b.pkt), "{}: {}", b.pkt, diff_bytes(p, &got, &want));
            Ok(())
        },
    );
    // one field at a time: every value of every byte position
    let mut idx = vec![];
    for p in &s {
        for (i, f) in p.fields.iter().enumerate() {
            idx.push((*p, i, f));
        }
    }
    let idx = &idx;
    c.all("single-fields", "each builder field alone set to 65536 spread values with the rest at zero or first value; non-trivial: the field is an integer, flag word, enumeration or byte array", idx.len() as u64 * 65536, |i, o| {
        let (p, k, f) = idx[(i / 65536) as usize];
        let x = i % 65536;
        let v = match f.map {
            Map::Enum(e) => {
                if x >= e.variants.len() as u64 {
                    return Ok(());
                }
                Fv::Raw(e.variants[x as usize].1)
            },
            Map::Flags(_) | Map::None => match f.ty {
                Ty::Bytes(n) => {
                    if x >= 256 * n as u64 {
                        return Ok(());
                    }
                    let mut b = vec![0; n];
                    b[(x / 256) as usize] = x as u8;
                    Fv::Bytes(b)
                },
                _ => match f.size {
                    1 if x > 255 => return Ok(()),
                    4 => Fv::Raw(x << [0, 16, 8, 12][(x % 4) as usize] & 0xffff_ffff),
                    _ => Fv::Raw(x),
                },
            },
            _ => return Ok(()),
        };
        o.nt();
        let mut g = Gen::replay(&[]);
        let mut b = on_grid(&mut g, p);
        // zero the scaled fields: the simplest grid value may be negative
        for (j, q) in p.fields.iter().enumerate() {
            if matches!(q.map, Map::Float { .. }) {
                b.values[j] = Fv::Float(0f64.to_bits());
                b.grid[j] = 0;
            }
        }
        b.values[k] = v;
        let want = frame(p.class, p.id, &golden_payload(&b));
        let got = access::emit(b.pkt, &b.values, &mut How::Bytes);
        ensure!(got == want, format!("frame:{}.{}", b.pkt, f.name), "{}.{} = {:?}: {}", b.pkt, f.name, b.values[k], diff_bytes(p, &got, &want));
        Ok(())
    });
    let uarts = 2 * 3 * 4;
    c.all("uart-modes", "every data bits, parity, stop bits combination; non-trivial: always", uarts, |i, o| {
        o.nt();
        let parts = vec![(i % 2) as u32, (i / 2 % 3) as u32, (i / 6) as u32];
        let p = pkt("CfgPrtUart");
        let mut b = on_grid(&mut Gen::replay(&[]), p);
        let k = p.fields.iter().position(|f| f.name == "mode").unwrap();
        b.values[k] = Fv::Parts(parts);
        let want = frame(p.class, p.id, &golden_payload(&b));
        let got = access::emit(b.pkt, &b.values, &mut How::Bytes);
        ensure!(got == want, "frame:CfgPrtUart.mode", "{}", diff_bytes(p, &got, &want));
        Ok(())
    });
    let p = pkt("CfgItfm");
    c.all("itfm-words", "every enable, broadband and continuous-wave threshold, antenna and band combination; non-trivial: always", 2 * 16 * 32 * 3 * 2, |i, o| {
        o.nt();
        let i = i as u32;
        let b = Build { pkt: "CfgItfm", values: vec![Fv::Parts(vec![i % 2, i / 2 % 16, i / 32 % 32]), Fv::Parts(vec![i / 1024 % 3, i / 3072])], grid: vec![0, 0] };
        let want = frame(p.class, p.id, &golden_payload(&b));
        let got = access::emit(b.pkt, &b.values, &mut How::Bytes);
        ensure!(got == want, "frame:CfgItfm", "{}", diff_bytes(p, &got, &want));
        Ok(())
    });
    c.sub(
        "itfm-beyond",
        "interference thresholds beyond their four and five bits: nothing outside their own bits changes; non-trivial: one threshold is beyond its bits",
        c.n(20_000, 400_000),
        |g| (g.bool(), g.int(32) as u32, g.int(32) as u32),
        |(en, bb, cw), o| {
            if *bb > 15 || *cw > 31 {
                o.nt();
            }
            let e = |en: bool, bb: u32, cw: u32| {
                let b = CfgItfmBuilder { config: CfgItfmConfig::new(en, bb, cw), config2: CfgItfmConfig2::new(CfgItfmAntennaSettings::Active, true) };
                b.into_packet_bytes()[6..14].to_vec()
            };
            let (a, z) = (e(*en, *bb, *cw), e(*en, bb & 15, cw & 31));
            // bits 0-3 and 4-8
            let own = (if *bb > 15 { 0xf } else { 0 }) | (if *cw > 31 { 0x1f0 } else { 0 });
            let d: Vec<u8> = a.iter().zip(&z).map(|(x, y)| x ^ y).collect();
            ensure!(le(&d) & !own == 0, "frame:CfgItfm", "thresholds {bb} and {cw} are sent as {a:02x?}, in range ones as {z:02x?}");
            Ok(())
        },
    );
    let masks = [("HOT_START", NavBbrPredefinedMask::HOT_START, 0u16), ("WARM_START", NavBbrPredefinedMask::WARM_START, 1), ("COLD_START", NavBbrPredefinedMask::COLD_START, 0xffff)];
    c.all("start-masks", "the predefined masks for hot, warm and cold start with every reset mode; non-trivial: always", 3 * 6, move |i, o| {
        o.nt();
        let (n, m, w) = masks[i as usize / 6];
        let p = pkt("CfgRst");
        let r = match p.fields.iter().find(|f| f.name == "reset_mode").unwrap().map {
            Map::Enum(e) => e.variants[i as usize % 6].1,
            _ => panic!("harness: reset modes"),
        };
        let mode = [
            ResetMode::HardwareResetImmediately,
            ResetMode::ControlledSoftwareReset,
            ResetMode::ControlledSoftwareResetGpsOnly,
            ResetMode::HardwareResetAfterShutdown,
            ResetMode::ControlledGpsStop,
            ResetMode::ControlledGpsStart,
        ][i as usize % 6];
        let got = CfgRstBuilder { nav_bbr_mask: m.into(), reset_mode: mode, reserved1: 0 }.into_packet_bytes().to_vec();
        let want = frame(p.class, p.id, &[w as u8, (w >> 8) as u8, r as u8, 0]);
        ensure!(got == want, format!("start:{n}"), "{n}: {}", diff_bytes(p, &got, &want));
        Ok(())
    });
    c.sub(
        "configuration-sets",
        "configuration-set messages of no, few, hundreds and as many items as a frame can carry, against the frame laid out by hand; non-trivial: there is an item",
        c.n(40_000, 1_000_000),
        |g| (items(g), g.byte(), g.byte(), g.upto(65535) as u16),
        |(items, ver, layers, res), o| {
            if !items.is_empty() {
                o.nt();
            }
            let vals: Vec<CfgVal> = items.iter().map(|(i, r)| cfgtab::make(*i, *r)).collect();
            let mut pl = vec![*ver, *layers, *res as u8, (*res >> 8) as u8];
            for (i, r) in items {
                pl.extend(item_bytes(*i, *r));
            }
            o.class(match pl.len() {
                0..=255 => "payload up to 255 bytes",
                256..=511 => "payload up to 511 bytes",
                512..=8176 => "payload up to 8176 bytes",
                _ => "payload above 8176 bytes",
            });
            o.check();
            let want = frame(6, 0x8a, &pl);
            let mut got = vec![];
            CfgValSetBuilder { version: *ver, layers: CfgLayer::from_bits_truncate(*layers), reserved1: *res, cfg_data: &vals }.extend_to(&mut got);
            ensure!(got == want, "frame:CfgValSet", "{}", diff_bytes(pkt("CfgValSet"), &got, &want));
            Ok(())
        },
    );
    // defaults are well-formed frames
    let d = access::default_bytes();
    c.all("defaults", "every default builder: well-formed, right class, id, length, checksum, and enumerations at their declared default; non-trivial: always", d.len() as u64, |i, o| {
        o.nt();
        let (n, b) = &d[i as usize];
        let p = pkt(n);
        ensure!(b.len() == p.fixed.unwrap() + 8, format!("default:{n}"), "length {}", b.len());
        let want = frame(p.class, p.id, &b[6..b.len() - 2]);
        ensure!(*b == want, format!("default:{n}"), "{}", diff_bytes(p, b, &want));
        for f in p.fields {
            if let Map::Enum(e) = f.map {
                if let Some(x) = e.default {
                    ensure!(b[6 + f.off] as u64 == x, format!("default:{n}.{}", f.name), "{n}.{} defaults to {}, declared {x}", f.name, b[6 + f.off]);
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C10

/// What the accessor of a field must return for the value given to the builder.
fn given(f: &Field, v: &Fv, grid: i128) -> Val {
    match (f.map, v) {
        (Map::Float { single, scale }, _) => Val::F(grid as f64 * scale, single),
        (_, Fv::Bytes(b)) => Val::Bytes(b.clone()),
        (Map::Custom(c), Fv::Parts(x)) => custom_val(
            c,
            match c {
                Custom::CfgItfmConfig => itfm1(x),
                Custom::CfgItfmConfig2 => itfm2(x),
                _ => uart(x),
            },
        )
        .unwrap(),
        (_, Fv::Raw(w)) => field_val(f, &w.to_le_bytes()[..f.size]).unwrap(),
        x => panic!("harness: {x:?}"),
    }
}

fn c10_check(b: &Build, o: &mut Obs) -> Res {
    let p = pkt(b.pkt);
    let sent = access::emit(b.pkt, &b.values, &mut How::Bytes);
    o.class(b.pkt);
    let n = sent.len();
    let mut parser = Parser::<Vec<u8>>::default();
    let mut it = parser.consume(&sent);
    let Some(Ok(x)) = it.next() else { return fail(format!("not-received:{}", b.pkt), format!("{}: the built frame is not received: {sent:02x?}", b.pkt)) };
    let name = access::raw_of(&x).0;
    o.check();
    ensure!(name == b.pkt, format!("received-as:{}", b.pkt), "{} is received as {name}: {sent:02x?}", b.pkt);
    o.nt();
    let got = access::fields_of(&x).unwrap();
    for (i, f) in p.fields.iter().enumerate() {
        let want = given(f, &b.values[i], b.grid[i]);
        let t = &got.iter().find(|g| g.0 == f.getter).unwrap().1;
        match t {
            Ok(v) => {
                let ok = v.same(&want) || matches!((v, &want), (Val::F(a, _), Val::F(b, _)) if (a - b).abs() <= grid_unit(f) * 0.51);
                ensure!(ok, format!("roundtrip:{}.{}", b.pkt, f.name), "{}.{}: given {want:?}, received {v:?}", b.pkt, f.name)
            },
            Err(e) => return fail(format!("panic:{}.{}", b.pkt, f.name), e.clone()),
        }
    }
    let again = access::rebuild(&x).unwrap();
    ensure!(again == sent, format!("rebuild:{}", b.pkt), "{} rebuilt from its decoded values: {}", b.pkt, diff_bytes(p, &again, &sent));
    ensure!(sent.len() == n && it.next().is_none(), "extra", "more than one result");
    Ok(())
}
fn grid_unit(f: &Field) -> f64 {
    match f.map {
        Map::Float { scale, .. } => scale,
        _ => 0.0,
    }
}

pub fn c10(c: &mut Ctx) {
    let s: Vec<_> = senders().into_iter().filter(|p| p.recv && p.dispatch.is_some()).collect();
    c.sub(
        "roundtrip",
        "each message that can be sent and received, boundary-biased values in every field: build, parse, compare every accessor with the value given, rebuild, compare bytes; non-trivial: received as its type",
        c.n(250_000, 8_000_000),
        |g| {
            let p = *g.pick(&s);
            on_grid(g, p)
        },
        c10_check,
    );
    // arbitrary accepted payloads rebuild to themselves
    c.sub(
        "received",
        "an arbitrary accepted payload of each such message: rebuilding from the decoded values reproduces the bytes; words with parts that have no meaning for the message are kept to their defined form; non-trivial: always",
        c.n(250_000, 8_000_000),
        |g| {
            let p = *g.pick(&s);
            let mut pl = payload(g, p, false);
            for f in p.fields {
                match f.map {
                    // undefined mode combinations and unused bits have no decoded form
                    Map::Custom(Custom::UartMode) => {
                        let w = uart(&[g.below(2) as u32, g.below(3) as u32, g.below(4) as u32]);
                        pl[f.off..f.off + 4].copy_from_slice(&(w as u32).to_le_bytes());
                    },
                    Map::Custom(Custom::CfgItfmConfig2) => {
                        let w = (le(&pl[f.off..f.off + 4]) & 0x4fff) | (g.below(3) as u64) << 12;
                        pl[f.off..f.off + 4].copy_from_slice(&(w as u32).to_le_bytes());
                    },
                    Map::Enum(e) if e.rest == Rest::Reserved => pl[f.off] = e.variants[g.below(e.variants.len())].1 as u8,
                    // single precision holds 24 bits
                    Map::Float { single: true, .. } if f.size == 4 => {
                        pl[f.off + 3] = 0;
                        pl[f.off + 2] &= 0x3f;
                    },
                    _ => (),
                }
            }
            (p.name, pl)
        },
        |(n, pl), o| {
            let p = pkt(n);
            o.nt();
            o.class(n);
            with_packet(p.class, p.id, pl, |x| {
                ensure!(access::raw_of(x).0 == *n, "dispatch", "{n} delivered as {}", access::raw_of(x).0);
                let again = access::rebuild(x).unwrap();
                let want = frame(p.class, p.id, pl);
                ensure!(again == want, format!("rebuild:{n}"), "{n} rebuilt from its decoded values: {}", diff_bytes(p, &again, &want));
                Ok(())
            })?
        },
    );
}

// ------------------------------------------------------------------------------------------------ C11

#[derive(Clone, Debug, Hash)]
struct Emit {
    b: Build,
    prefix: Vec<u8>,
    fail_reserve: u8,
    fail_write: u64,
    custom: bool,
}

fn writer_of(e: &Emit, fail: bool) -> WriterRun {
    let w = ScriptWriter {
        out: e.prefix.clone(),
        prefix: e.prefix.len(),
        fail_reserve: if fail && e.fail_reserve == 1 { Some(e.custom) } else { None },
        fail_write: if fail && e.fail_reserve != 1 { Some((e.fail_write as usize, e.custom)) } else { None },
        ..Default::default()
    };
    WriterRun { w, result: None }
}

fn items(g: &mut Gen) -> Vec<(usize, u64)> {
    cfg_items(g, cfg_item, |i| cfgtab::KEYS[i].2.width())
}
fn cfg_item(g: &mut Gen) -> (usize, u64) {
    let i = g.below(cfgtab::KEYS.len());
    (i, cfg_raw(g, i))
}
fn cfg_raw(g: &mut Gen, i: usize) -> u64 {
    let t = cfgtab::KEYS[i].2;
    match t.codes() {
        Some(n) => g.below(n as usize) as u64,
        None => g.int(8 * t.width() as u32),
    }
}
fn item_bytes(i: usize, raw: u64) -> Vec<u8> {
    let (_, key, t) = cfgtab::KEYS[i];
    let mut v = key.to_le_bytes().to_vec();
    v.extend_from_slice(&raw.to_le_bytes()[..t.width()]);
    v
}

/// A growable byte store of the caller's own: appends go in one byte at a time.
#[derive(Clone)]
struct Own(Vec<u8>);
impl Extend<u8> for Own {
    fn extend<I: IntoIterator<Item = u8>>(&mut self, it: I) {
        for x in it {
            self.0.push(x);
        }
    }
}
impl core::ops::Deref for Own {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl core::ops::DerefMut for Own {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}

pub fn c11(c: &mut Ctx) {
    let s = senders();
    c.sub(
        "ways",
        "each builder, random values: byte array, conversion, writer, standard growable writer, behind random existing content; then the same through a writer that fails when reserving or at a random write with one of two errors; non-trivial: the failure is reached or existing content is not empty",
        c.n(200_000, 6_000_000),
        |g| {
            let p = *g.pick(&s);
            let b = on_grid(g, p);
            let prefix = existing(g);
            let fields = p.fields.len() as u64 + 2;
            Emit { b, prefix, fail_reserve: g.below(5) as u8, fail_write: g.upto(fields), custom: g.bool() }
        },
        |e, o| {
            let n = e.b.pkt;
            let p = pkt(n);
            let v = &e.b.values;
            let a = access::emit(n, v, &mut How::Bytes);
            o.check();
            for (how, what) in [(How::From, "From"), (How::Into, "Into")] {
                let mut how = how;
                let x = access::emit(n, v, &mut how);
                ensure!(x == a, format!("ways:{n}"), "{n} through {what}: {}", diff_bytes(p, &x, &a));
            }
            let len = access::emit(n, v, &mut How::Len).len();
            ensure!(len == a.len(), format!("packet-len:{n}"), "{n}: PACKET_LEN {len}, {} bytes", a.len());
            let mut w = writer_of(e, false);
            access::emit(n, v, &mut How::Writer(&mut w));
            ensure!(w.result == Some(Ok(())), format!("writer-result:{n}"), "{n}: a writer that accepts everything gave {:?}", w.result);
            ensure!(w.w.out.starts_with(&e.prefix), format!("prefix:{n}"), "{n}: existing content changed");
            let x = &w.w.out[e.prefix.len()..];
            ensure!(x == &a[..], format!("ways:{n}"), "{n} through a writer: {}", diff_bytes(p, x, &a));
            ensure!(w.w.max_over == 0, format!("reserve:{n}"), "{n}: wrote {} bytes beyond the {} asked for", w.w.max_over, w.w.reserved);
            ensure!(w.w.reserve_calls > 0, format!("reserve:{n}"), "{n}: no capacity asked for");
            let mut vec = e.prefix.clone();
            access::emit(n, v, &mut How::VecWriter(&mut vec));
            ensure!(vec[..e.prefix.len()] == e.prefix[..] && vec[e.prefix.len()..] == a[..], format!("ways:{n}"), "{n} through the growable writer: {vec:02x?}");
            // failing writer
            let total = w.w.writes;
            let mut f = writer_of(e, true);
            access::emit(n, v, &mut How::Writer(&mut f));
            let reached = e.fail_reserve == 1 || (e.fail_write as usize) < total;
            if reached || !e.prefix.is_empty() {
                o.nt();
            }
            o.class(match (reached, e.fail_reserve == 1) {
                (true, true) => "reserving fails",
                (true, false) => "a write fails",
                _ => "no failure reached",
            });
            let want = if !reached {
                Ok(())
            } else {
                Err(match (e.custom, e.fail_reserve == 1) {
                    (false, _) => WErr::NotEnoughMem,
                    (true, true) => WErr::Custom(7),
                    (true, false) => WErr::Custom(1000 + e.fail_write as u32),
                })
            };
            ensure!(f.result == Some(want.clone()), format!("failure:{n}"), "{n}: the writer failed with {want:?}, reported {:?}", f.result);
            if reached {
                ensure!(f.w.calls_after_failure == 0, format!("after-failure:{n}"), "{n}: {} calls after the failure", f.w.calls_after_failure);
                let sofar = &f.w.out[e.prefix.len()..];
                ensure!(f.w.out.starts_with(&e.prefix) && a.starts_with(sofar), format!("partial:{n}"), "{n}: what was written before the failure is not a prefix of the frame");
            }
            Ok(())
        },
    );
    c.sub(
        "configuration-set",
        "a configuration-set message of random items through into_packet_vec and extend_to (standard and own destination) behind random existing content, against the frame of the items; non-trivial: there is an item",
        c.n(100_000, 3_000_000),
        |g| {
            let items = items(g);
            (items, existing(g), g.byte(), g.byte(), g.upto(65535) as u16)
        },
        |(items, prefix, ver, layers, res), o| {
            if !items.is_empty() {
                o.nt();
            }
            if !prefix.is_empty() {
                o.class("behind existing content");
            }
            let vals: Vec<CfgVal> = items.iter().map(|(i, r)| cfgtab::make(*i, *r)).collect();
            let mk = || CfgValSetBuilder { version: *ver, layers: CfgLayer::from_bits_truncate(*layers), reserved1: *res, cfg_data: &vals };
            let mut pl = vec![*ver, *layers, *res as u8, (*res >> 8) as u8];
            for (i, r) in items {
                pl.extend(item_bytes(*i, *r));
            }
            let want = frame(6, 0x8a, &pl);
            o.check();
            let a = mk().into_packet_vec();
            ensure!(a == want, "ways:CfgValSet", "into_packet_vec gives {a:02x?}, expected {want:02x?}");
            let mut b = prefix.clone();
            mk().extend_to(&mut b);
            ensure!(b[..prefix.len()] == prefix[..], "prefix:CfgValSet", "extend_to changed the existing content {prefix:02x?} to {:02x?}", &b[..prefix.len()]);
            ensure!(b[prefix.len()..] == want[..], "extend:CfgValSet", "extend_to behind {} bytes gives {:02x?}, expected {want:02x?}", prefix.len(), &b[prefix.len()..]);
            let mut own = Own(prefix.clone());
            mk().extend_to(&mut own);
            ensure!(own.0 == b, "extend:CfgValSet", "extend_to gives {:02x?} on one destination and {b:02x?} on another", own.0);
            // twice in a row
            mk().extend_to(&mut b);
            ensure!(b[prefix.len()..] == [&want[..], &want[..]].concat(), "extend:CfgValSet", "appending twice does not give two frames");
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------------ C12

pub fn c12(c: &mut Ctx) {
    let mut fs: Vec<(&'static Pkt, usize, &'static Field)> = vec![];
    for p in senders() {
        for (i, f) in p.fields.iter().enumerate() {
            if matches!(f.map, Map::Float { .. }) {
                fs.push((p, i, f));
            }
        }
    }
    let fs = &fs;
    c.sub(
        "scaled",
        "each scaled builder field with values on the grid, between grid points (halves included), at the limits, beyond them, infinite and extreme; nearest protocol integer with a tolerance of the float type's rounding, limits outside the range, and every other field of the message untouched; NaN is outside the domain; non-trivial: the value is not on the grid or not in the range",
        c.n(400_000, 12_000_000),
        |g| {
            let k = g.below(fs.len());
            let Map::Float { single, scale } = fs[k].2.map else { unreachable!() };
            (k, scaled(g, fs[k].2, single, scale).to_bits())
        },
        |(k, bits), o| {
            let (p, i, f) = fs[*k];
            let Map::Float { single, scale } = f.map else { unreachable!() };
            let x = f64::from_bits(*bits);
            let mut b = on_grid(&mut Gen::replay(&[]), p);
            for (j, q) in p.fields.iter().enumerate() {
                if matches!(q.map, Map::Float { .. }) {
                    b.values[j] = Fv::Float(0f64.to_bits());
                    b.grid[j] = 0;
                }
            }
            let zero = access::emit(p.name, &b.values, &mut How::Bytes);
            b.values[i] = Fv::Float(*bits);
            let got = access::emit(p.name, &b.values, &mut How::Bytes);
            let by = &got[6 + f.off..6 + f.off + f.size];
            let raw = raw_int(f.ty, by) as f64;
            let (lo, hi) = limits(f);
            let (lo, hi) = (lo as f64, hi as f64);
            let ideal = x / scale;
            let tol = 1e-6 + ideal.abs().min(1e12) * if single { 4e-7 } else { 1e-14 };
            let sig = |s: &str| format!("{s}:{}.{}", p.name, f.name);
            o.check();
            o.class(if single { "single precision" } else { "double precision" });
            if !(ideal >= lo && ideal <= hi) {
                o.nt();
                o.class("outside the range");
            } else if (ideal - ideal.round()).abs() > 1e-3 {
                o.nt();
                o.class("between grid points");
            }
            if ideal >= hi + tol {
                ensure!(raw == hi || (ideal < hi + 0.5 + tol && (raw - ideal).abs() <= 1.0 + tol), sig("saturate"), "{}.{} = {x}: sent as {raw}, expected the largest value {hi}", p.name, f.name);
            } else if ideal <= lo - tol {
                ensure!(raw == lo || (ideal > lo - 0.5 - tol && (raw - ideal).abs() <= 1.0 + tol), sig("saturate"), "{}.{} = {x}: sent as {raw}, expected the smallest value {lo}", p.name, f.name);
            } else {
                ensure!((raw - ideal).abs() <= 0.5 + tol, sig("nearest"), "{}.{} = {x}: sent as {raw}, the nearest is {}", p.name, f.name, ideal.round());
            }
            // nothing else changes
            for j in 6..got.len() - 2 {
                if j < 6 + f.off || j >= 6 + f.off + f.size {
                    ensure!(got[j] == zero[j], sig("other-bytes"), "{}.{} = {x} changes byte {}", p.name, f.name, j - 6);
                }
            }
            // and what a receiver reads is within half a unit
            if p.dispatch.is_some() && ideal >= lo && ideal <= hi {
                with_packet(p.class, p.id, &got[6..got.len() - 2], |q| {
                    if let Some(fs) = access::fields_of(q) {
                        if let Some((_, Ok(Val::F(y, _)))) = fs.iter().find(|t| t.0 == f.getter) {
                            ensure!((y - x).abs() <= scale * (0.5 + tol) * 1.0001, sig("resolution"), "{}.{}: given {x}, a receiver reads {y}", p.name, f.name);
                        }
                    }
                    Ok(())
                })??;
            }
            Ok(())
        },
    );
    // every raw value of 8 and 16 bit fields goes through unchanged; a lattice for 32 bit
    c.all("all-grid", "each scaled field, 65536 grid values (all of them for 8 and 16 bit fields, evenly spread with both ends for 32 bit); non-trivial: always", fs.len() as u64 * 65536, |n, o| {
        let (p, i, f) = fs[(n / 65536) as usize];
        let Map::Float { single, scale } = f.map else { unreachable!() };
        let (lo, hi) = limits(f);
        let (lo, hi) = if single && f.size == 4 { (lo.max(-(1 << 22)), 1 << 22) } else { (lo, hi) };
        let k = (n % 65536) as i128;
        let raw = if f.size == 4 { lo + (hi - lo) * k / 65535 } else { lo + k };
        if raw > hi {
            return Ok(());
        }
        o.nt();
        let x = raw as f64 * scale;
        let x = if single { x as f32 as f64 } else { x };
        let mut b = on_grid(&mut Gen::replay(&[]), p);
        b.values[i] = Fv::Float(x.to_bits());
        let got = access::emit(p.name, &b.values, &mut How::Bytes);
        let r = raw_int(f.ty, &got[6 + f.off..6 + f.off + f.size]);
        ensure!(r == raw, format!("grid:{}.{}", p.name, f.name), "{}.{} = {x}: sent as {r}, expected {raw}", p.name, f.name);
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C13, C14

pub fn c13(c: &mut Ctx) {
    let keys = cfgtab::KEYS;
    let one = |i: usize, raw: u64, o: &mut Obs| -> Res {
        let (name, _, t) = keys[i];
        let v = cfgtab::make(i, raw);
        let want = item_bytes(i, raw);
        let sig = |s: &str| format!("{s}:{name}");
        o.check();
        ensure!(v.len() == want.len(), sig("len"), "{name}({raw:#x}) announces {} bytes, expected {}", v.len(), want.len());
        ensure!(!v.is_empty(), sig("is_empty"), "{name} claims to be empty");
        let mut buf = vec![0xee; want.len() + 6];
        let n = v.write_to(&mut buf);
        ensure!(n == want.len() && buf[..n] == want[..], sig("write_to"), "{name}({raw:#x}) written as {:02x?}, expected {want:02x?}", &buf[..n.min(buf.len())]);
        ensure!(buf[want.len()..].iter().all(|x| *x == 0xee), sig("write_to"), "{name} writes beyond its item");
        let mut ext = vec![1u8, 2];
        let n = v.extend_to(&mut ext);
        ensure!(n == want.len() && ext[..2] == [1, 2] && ext[2..] == want[..], sig("extend_to"), "{name}({raw:#x}) appended as {:02x?}, expected {want:02x?}", &ext[2..]);
        for tail in [0usize, 3, 9] {
            let mut src = want.clone();
            src.extend(std::iter::repeat(0xff).take(tail));
            let d = CfgVal::parse(&src);
            let got = cfgtab::unmake(&d);
            ensure!(got == Some((i, raw)), sig("parse"), "{want:02x?} decodes to {d:?}, expected {name} with {raw:#x}");
        }
        let _ = t;
        Ok(())
    };
    c.all("values", "every key with every value of its type up to 16 bits, and 65536 spread values (ends, bit patterns) of the wider ones; non-trivial: always", keys.len() as u64 * 65536, |n, o| {
        let (i, x) = ((n / 65536) as usize, n % 65536);
        let t = keys[i].2;
        let raw = match (t.codes(), t.width()) {
            (Some(k), _) => {
                if x >= k {
                    return Ok(());
                }
                x
            },
            (None, 1) => {
                if x > 255 {
                    return Ok(());
                }
                x
            },
            (None, 2) => x,
            (None, 4) => {
                if x % 8 != 0 {
                    return Ok(());
                }
                match x / 8 % 3 {
                    0 => x,
                    1 => u32::MAX as u64 - x,
                    _ => (x << 16 | x.reverse_bits() >> 48) & 0xffff_ffff,
                }
            },
            _ => {
                if x % 8 != 0 {
                    return Ok(());
                }
                match x / 8 % 3 {
                    0 => x,
                    1 => u64::MAX - x,
                    _ => x.wrapping_mul(0x9e37_79b9_7f4a_7c15),
                }
            },
        };
        o.nt();
        one(i, raw, o)
    });
    c.sub("random-values", "random keys with boundary-biased values; non-trivial: always", c.n(300_000, 10_000_000), cfg_item, move |(i, raw), o| {
        o.nt();
        one(*i, *raw, o)
    });
    c.sub(
        "lists",
        "lists of random items: the configuration-set message contains each in order, and walking its data gives the same list back; the item iterator over a caller's buffer does the same; non-trivial: at least two items",
        c.n(100_000, 3_000_000),
        |g| (items(g), g.byte(), g.byte(), g.upto(65535) as u16, g.range(0, 20)),
        |(items, ver, layers, res, slack), o| {
            if items.len() > 1 {
                o.nt();
            }
            o.class(match items.len() {
                0..=20 => "up to 20 items",
                21..=400 => "21 to 400 items",
                _ => "more than 400 items",
            });
            let vals: Vec<CfgVal> = items.iter().map(|(i, r)| cfgtab::make(*i, *r)).collect();
            let fr = CfgValSetBuilder { version: *ver, layers: CfgLayer::from_bits_truncate(*layers), reserved1: *res, cfg_data: &vals }.into_packet_vec();
            let body: Vec<u8> = items.iter().flat_map(|(i, r)| item_bytes(*i, *r)).collect();
            o.check();
            ensure!(fr.len() == 12 + body.len() && fr[..4] == [0xb5, 0x62, 6, 0x8a], "set-header", "frame {:02x?}", &fr[..fr.len().min(12)]);
            ensure!(u16::from_le_bytes([fr[4], fr[5]]) as usize == body.len() + 4, "set-length", "length field {}", u16::from_le_bytes([fr[4], fr[5]]));
            ensure!(fr[6..10] == [*ver, *layers, *res as u8, (*res >> 8) as u8], "set-fields", "version, layers, reserved sent as {:02x?}", &fr[6..10]);
            ensure!(fr[10..fr.len() - 2] == body[..], "set-items", "items sent as {:02x?}, expected {body:02x?}", &fr[10..fr.len() - 2]);
            let (a, b) = fletcher(&fr[2..fr.len() - 2]);
            ensure!(fr[fr.len() - 2..] == [a, b], "set-checksum", "checksum {:02x?}", &fr[fr.len() - 2..]);
            let mut at = 0;
            let mut back = vec![];
            while at < body.len() {
                let v = CfgVal::parse(&fr[10 + at..fr.len() - 2]);
                ensure!(v.len() > 0, "set-walk", "empty item");
                at += v.len();
                back.push(cfgtab::unmake(&v).unwrap());
            }
            ensure!(back == *items, "set-walk", "walking the data gives {back:?}, sent {items:?}");
            // iterator over a caller's buffer
            let mut buf = vec![0xee; body.len() + slack];
            let it = CfgValIter::new(&mut buf, &vals);
            let got: Vec<_> = it.clone().take(items.len() + 2).map(|v| cfgtab::unmake(&v).unwrap()).collect();
            ensure!(got == *items, "iter", "the iterator gives {got:?}, built from {items:?} ({it:?})");
            ensure!(buf[..body.len()] == body[..] && buf[body.len()..].iter().all(|x| *x == 0xee), "iter-buffer", "the buffer holds {buf:02x?}, expected {body:02x?}");
            Ok(())
        },
    );
}

pub fn c14(c: &mut Ctx) {
    let keys = cfgtab::KEYS;
    let key_of = |i: usize| -> Result<(u32, usize), Fail> {
        let v = cfgtab::make(i, if keys[i].2.codes().is_some() { 0 } else { 1 });
        let mut b = vec![];
        v.extend_to(&mut b);
        if b.len() < 5 {
            return fail(format!("item:{}", keys[i].0), "shorter than a key and a value");
        }
        Ok((u32::from_le_bytes(b[..4].try_into().unwrap()), b.len() - 4))
    };
    let width_of = |key: u32| match key >> 28 & 7 {
        1 | 2 => 1,
        3 => 2,
        4 => 4,
        5 => 8,
        _ => 0,
    };
    c.all("keys", "every key: identifier against the golden table, width announced by the identifier against the width of the encoded value and of the value type; non-trivial: always", keys.len() as u64, |i, o| {
        let i = i as usize;
        let (name, want, t) = keys[i];
        o.nt();
        let (key, w) = key_of(i)?;
        ensure!(key == want, format!("key:{name}"), "{name} has identifier {key:#010x}, the interface description says {want:#010x}");
        ensure!(width_of(key) == w && w == t.width(), format!("width:{name}"), "{name}: identifier announces {} bytes, {w} are sent, the type has {}", width_of(key), t.width());
        ensure!((key >> 28 & 7 == 1) == (t == Kt::Bool), format!("width:{name}"), "{name}: one-bit items and only they are booleans");
        ensure!(key & 0x8f00_f000 == 0, format!("key:{name}"), "{name}: reserved bits set in {key:#010x}");
        Ok(())
    });
    let n = keys.len() as u64;
    c.all("pairs", "every pair of keys has different identifiers and decodes to its own item; non-trivial: a pair of different keys", n * n, |k, o| {
        let (i, j) = ((k / n) as usize, (k % n) as usize);
        let (a, _) = key_of(i)?;
        if i == j {
            let mut b = a.to_le_bytes().to_vec();
            b.extend([0; 8]);
            let got = cfgtab::unmake(&CfgVal::parse(&b)).map(|x| x.0);
            ensure!(got == Some(i), format!("key:{}", keys[i].0), "identifier {a:#010x} decodes to {:?}", got.map(|g| keys[g].0));
            return Ok(());
        }
        o.nt();
        let (b, _) = key_of(j)?;
        ensure!(a != b, format!("same-key:{}", keys[i].0), "{} and {} share {a:#010x}", keys[i].0, keys[j].0);
        Ok(())
    });
    // output rate families
    let mut fam: std::collections::BTreeMap<String, [Option<usize>; 5]> = Default::default();
    for (i, (name, key, _)) in keys.iter().enumerate() {
        if key >> 16 & 0xff == 0x91 {
            for (k, p) in ["I2c", "Uart1", "Uart2", "Usb", "Spi"].iter().enumerate() {
                if let Some(s) = name.strip_suffix(p).or_else(|| name.strip_suffix(&p.to_uppercase())) {
                    fam.entry(s.to_string()).or_default()[k] = Some(i);
                }
            }
        }
    }
    let fam: Vec<_> = fam.into_iter().collect();
    c.all("rate-families", "the per-port identifiers of every output-rate item are consecutive in the order I2C, UART1, UART2, USB, SPI; non-trivial: at least two ports", fam.len() as u64, |i, o| {
        let (name, f) = &fam[i as usize];
        let mut base = None;
        let mut k_seen = 0;
        for (k, x) in f.iter().enumerate() {
            if let Some(x) = x {
                let (key, _) = key_of(*x)?;
                let b = key.wrapping_sub(k as u32);
                ensure!(base.is_none_or(|v| v == b), format!("family:{name}"), "{}: identifier {key:#010x} is not at place {k} of its family", keys[*x].0);
                base = Some(b);
                k_seen += 1;
            }
        }
        if k_seen > 1 {
            o.nt();
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C22

#[derive(Clone, Debug, Hash)]
enum Op {
    Pos { lat: u64, lon: u64, alt: u64 },
    Time { secs: i64, ns: u32 },
}
#[derive(Clone, Debug, Hash)]
struct Aid {
    start: Vec<u64>,
    ops: Vec<Op>,
}
fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
fn aid(start: &[u64]) -> AidIniBuilder {
    access::mk_AidIni(&start.iter().map(|x| Fv::Raw(*x)).collect::<Vec<_>>())
}
fn apply(b: AidIniBuilder, op: &Op) -> AidIniBuilder {
    match op {
        Op::Pos { lat, lon, alt } => b.set_position(Position { lat: f64::from_bits(*lat), lon: f64::from_bits(*lon), alt: f64::from_bits(*alt) }),
        Op::Time { secs, ns } => b.set_time(DateTime::<Utc>::from_timestamp(*secs, *ns).expect("harness: instant")),
    }
}

pub fn c22(c: &mut Ctx) {
    // seconds of 2000-01-01 and of the last second of 2099
    const T0: i64 = 946_684_800;
    const T1: i64 = 4_102_444_799;
    let gen_op = |g: &mut Gen, which: usize| -> Op {
        if which == 0 {
            let deg = |g: &mut Gen, m: f64| -> u64 {
                let x = match g.weighted(&[4, 4, 1]) {
                    0 => (g.upto(2 * m as u64 * 10) as f64 / 10.0) - m,
                    1 => (g.upto((2.0 * m * 1e9) as u64) as f64) * 1e-9 - m,
                    _ => *g.pick(&[0.0, m, -m, 0.0000001, -0.0000001, 45.99999995]),
                };
                x.clamp(-m, m).to_bits()
            };
            let (lat, lon) = (deg(g, 90.0), deg(g, 180.0));
            let alt = (g.upto(30_000_000) as f64 / 1000.0 - 1000.0).to_bits();
            Op::Pos { lat, lon, alt }
        } else {
            let secs = match g.weighted(&[2, 6, 2]) {
                0 => T0 + g.upto(86400 * 3) as i64,
                1 => T0 + g.upto((T1 - T0) as u64) as i64,
                _ => {
                    // around the ends of months
                    let y = 2000 + g.below(100) as i64;
                    let m = 1 + g.below(12) as i64;
                    let d = super::decode::days(y, m, 1);
                    (d * 86400 + g.upto(4) as i64 - 2).clamp(T0, T1)
                },
            };
            let ns = if g.bool() { 0 } else { g.upto(999_999_999) as u32 };
            Op::Time { secs, ns }
        }
    };
    c.sub(
        "setters",
        "a message with arbitrary fields, then a history of position and time settings (WGS84 range, years 2000 to 2099); the frame against a hand-made encoding of the last position and the last time, valid bits set, every other field as before; setting twice and in another order compared; non-trivial: at least one setting",
        c.n(200_000, 6_000_000),
        |g| {
            let start: Vec<u64> = pkt("AidIni").fields.iter().map(|f| if g.bool() { 0 } else { g.int(8 * f.size as u32) }).collect();
            let ops = g.list(0, 6, 2, |g| {
                let w = g.below(2);
                gen_op(g, w)
            });
            Aid { start, ops }
        },
        |a, o| {
            let p = pkt("AidIni");
            let fix = |i: usize| p.fields.iter().position(|f| f.name == ["ecef_x_or_lat", "ecef_y_or_lon", "ecef_z_or_alt", "week_or_ym", "tow_or_hms", "tow_ns", "flags"][i]).unwrap();
            if !a.ops.is_empty() {
                o.nt();
            }
            let mut b = aid(&a.start);
            for op in &a.ops {
                b = apply(b, op);
            }
            let got = b.into_packet_bytes().to_vec();
            let mut want: Vec<u64> = a.start.clone();
            let mut flags = want[fix(6)];
            let mut pos = None;
            for op in &a.ops {
                match op {
                    Op::Pos { .. } => {
                        flags |= 1 | 1 << 5;
                        pos = Some(op);
                    },
                    Op::Time { secs, ns } => {
                        flags |= 1 << 1 | 1 << 10;
                        let (y, m, d) = civil(secs.div_euclid(86400));
                        let s = secs.rem_euclid(86400);
                        want[fix(3)] = ((y - 2000) * 100 + m) as u64;
                        want[fix(4)] = (d * 1_000_000 + s / 3600 * 10_000 + s / 60 % 60 * 100 + s % 60) as u64;
                        want[fix(5)] = *ns as u64;
                    },
                }
            }
            want[fix(6)] = flags;
            o.class(match (pos.is_some(), a.ops.iter().any(|x| matches!(x, Op::Time { .. }))) {
                (true, true) => "position and time",
                (true, false) => "position",
                (false, true) => "time",
                _ => "nothing",
            });
            o.check();
            for (i, f) in p.fields.iter().enumerate() {
                let w = &got[6 + f.off..6 + f.off + f.size];
                let raw = raw_int(f.ty, w);
                if let (Some(Op::Pos { lat, lon, alt }), true) = (pos, i == fix(0) || i == fix(1) || i == fix(2)) {
                    let x = if i == fix(0) {
                        f64::from_bits(*lat) * 1e7
                    } else if i == fix(1) {
                        f64::from_bits(*lon) * 1e7
                    } else {
                        f64::from_bits(*alt) * 100.0
                    };
                    // either neighbour of the exact value is in the unit
                    ensure!((raw as f64 - x).abs() <= 1.0 + 1e-6, format!("position:{}", f.name), "{} sent as {raw}, expected about {x}", f.name);
                    continue;
                }
                let ww = &want[i].to_le_bytes()[..f.size];
                ensure!(w == ww, format!("field:{}", f.name), "{} sent as {raw}, expected {}", f.name, raw_int(f.ty, ww));
            }
            let fr = frame(p.class, p.id, &got[6..got.len() - 2]);
            ensure!(got == fr, "frame", "not a well-formed frame: {got:02x?}");
            // the last of each kind decides, in any order
            let last: Vec<&Op> = {
                let mut v = vec![];
                if let Some(p) = pos {
                    v.push(p);
                }
                if let Some(t) = a.ops.iter().rev().find(|x| matches!(x, Op::Time { .. })) {
                    v.push(t);
                }
                v
            };
            for rev in [false, true] {
                let mut b = aid(&a.start);
                let it: Vec<_> = if rev { last.iter().rev().collect() } else { last.iter().collect() };
                for op in it {
                    b = apply(b, op);
                }
                let x = b.into_packet_bytes().to_vec();
                ensure!(x == got, "history", "the last settings alone (reversed: {rev}) give another message");
            }
            Ok(())
        },
    );
    c.all("all-days", "every day of 2000 to 2099 at its first and last second; non-trivial: always", 36525 * 2, |i, o| {
        o.nt();
        let secs = T0 + (i / 2) as i64 * 86400 + if i % 2 == 1 { 86399 } else { 0 };
        let b = apply(aid(&[0; 13]), &Op::Time { secs, ns: 0 }).into_packet_bytes();
        let (y, m, d) = civil(secs.div_euclid(86400));
        let ym = u16::from_le_bytes([b[24], b[25]]) as i64;
        let hms = u32::from_le_bytes(b[26..30].try_into().unwrap()) as i64;
        ensure!(ym == (y - 2000) * 100 + m, "field:week_or_ym", "{y}-{m}-{d} sent as year-month {ym}");
        let t = if i % 2 == 1 { 235959 } else { 0 };
        ensure!(hms == d * 1_000_000 + t, "field:tow_or_hms", "{y}-{m}-{d} {t:06} sent as {hms}");
        Ok(())
    });
}

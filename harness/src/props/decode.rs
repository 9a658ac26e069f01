//! C06–C08, C15–C17: what is read from a delivered message.
use super::stream::{gen_one, with_packet, OnePayload};
use crate::access;
use crate::driver::*;
use crate::ensure;
use crate::gen::Gen;
use crate::gens::*;
use crate::json::{self, J};
use crate::model::{fletcher, frame};
use crate::spec::*;
use crate::val::*;
use chrono::{DateTime, Utc};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use ublox::*;

/// Delivers the payload and calls every accessor: field name -> value or panic.
fn decoded(p: &Pkt, pl: &[u8]) -> Result<BTreeMap<&'static str, Thunk>, Fail> {
    with_packet(p.class, p.id, pl, |x| {
        let n = access::raw_of(x).0;
        if n != p.name {
            return fail("dispatch", format!("payload of {} delivered as {n}", p.name));
        }
        Ok(access::fields_of(x).unwrap().into_iter().collect())
    })?
}
fn show(pl: &[u8]) -> String {
    let h: String = pl.iter().take(120).map(|b| format!("{b:02x}")).collect();
    format!("{h}{}", if pl.len() > 120 { "…" } else { "" })
}
/// Compares accessors with the golden decoder for the fields that `want` selects.
fn compare(p: &Pkt, pl: &[u8], o: &mut Obs, want: impl Fn(&Field) -> bool) -> Res {
    compare_strict(p, pl, o, false, want)
}
fn compare_strict(p: &Pkt, pl: &[u8], o: &mut Obs, strict: bool, want: impl Fn(&Field) -> bool) -> Res {
    let mut undefined = Ok(());
    let got = decoded(p, pl)?;
    let names: Vec<(&str, &Field)> = p.fields.iter().filter(|f| want(f)).map(|f| (f.getter, f)).collect();
    for (e, v) in expect(p, pl) {
        let base = names.iter().find(|(n, f)| e == *n || (e.strip_suffix("_raw") == Some(*n) && !matches!(f.map, Map::None)));
        let Some((_, f)) = base else { continue };
        let Some(v) = v else {
            o.class("value without a meaning");
            // no value is defined, but there must be some decoding
            if let (true, Some(Err(m))) = (strict, got.get(e.as_str())) {
                undefined = fail(super::stream::panic_sig(p.name, pl, f.getter), format!("{}.{e}() panicked: {m}; payload {}", p.name, show(pl)));
            }
            continue;
        };
        let Some(t) = got.get(e.as_str()) else { panic!("harness: {} has no accessor {e}", p.name) };
        o.check();
        match t {
            Err(m) => return fail(format!("panic:{}.{e}", p.name), format!("{}.{e}() panicked: {m}; payload {}", p.name, show(pl))),
            Ok(g) => ensure!(
                g.same(&v),
                format!("value:{}.{e}", p.name),
                "{}.{e}() returned {g:?}, the bytes {} at {} mean {v:?}; payload {}",
                p.name,
                show(field_bytes(p, f, pl)),
                f.off,
                show(pl)
            ),
        }
    }
    undefined
}
fn is_word(f: &Field) -> bool {
    f.size > 0 && matches!(f.map, Map::Enum(_) | Map::Flags(_) | Map::Custom(_))
}

pub fn c06(c: &mut Ctx) {
    let r = reachable();
    c.sub(
        "fields",
        "for each message type, a payload of its shape with boundary-biased field values; every fixed-position field and its raw form against the golden layout; non-trivial: a payload byte is not zero",
        c.n(400_000, 12_000_000),
        |g| {
            let pk = *g.pick(&r);
            gen_one(g, pk, false)
        },
        |p, o| {
            if p.payload.iter().any(|b| *b != 0) {
                o.nt();
            }
            o.class(p.pkt);
            compare(pkt(p.pkt), &p.payload, o, |_| true)
        },
    );
    // one byte at a time: each byte of each payload alone decides its field
    let mut idx = vec![];
    for p in &r {
        let n = p.fields.iter().filter(|f| f.size > 0).map(|f| f.off + f.size).max().unwrap_or(0);
        for k in 0..n {
            idx.push((*p, k));
        }
    }
    let idx = &idx;
    c.all(
        "single-bytes",
        "each byte of the fixed part of each message set to each of 256 values with the rest zero (selectors kept valid); non-trivial: accepted by its type",
        idx.len() as u64 * 256,
        |i, o| {
            let (p, k) = idx[(i / 256) as usize];
            let mut pl = vec![0u8; p.fixed.unwrap_or(p.min.max(fixed_part(p)))];
            for f in p.fields {
                if let Map::Enum(e) = f.map {
                    if e.rest == Rest::Error {
                        pl[f.off] = e.variants[0].1 as u8;
                    }
                }
            }
            pl[k] = (i % 256) as u8;
            if p.name == "EsfMeas" {
                let (a, b, c) = esf_meas_parts(&pl);
                pl.resize(a + b + c, 0);
            }
            if !accepts(p, &pl) {
                return Ok(());
            }
            o.nt();
            compare(p, &pl, o, |_| true)
        },
    );
}
fn fixed_part(p: &Pkt) -> usize {
    p.fields.iter().filter(|f| f.size > 0).map(|f| f.off + f.size).max().unwrap_or(0)
}

pub fn c07(c: &mut Ctx) {
    let r = reachable();
    let mut words: Vec<(&'static Pkt, &'static Field)> = vec![];
    for p in &r {
        for f in p.fields.iter().filter(|f| is_word(f)) {
            words.push((p, f));
        }
    }
    let base = |p: &Pkt| {
        let mut pl = vec![0u8; p.fixed.unwrap_or(p.min.max(fixed_part(p)))];
        for f in p.fields {
            if let Map::Enum(e) = f.map {
                if e.rest == Rest::Error {
                    pl[f.off] = e.variants[0].1 as u8;
                }
            }
        }
        pl
    };
    let check = |p: &'static Pkt, f: &'static Field, w: u64, noise: Option<&mut Gen>, o: &mut Obs| -> Res {
        let mut pl = base(p);
        if let Some(g) = noise {
            pl = payload(g, p, false);
        }
        pl[f.off..f.off + f.size].copy_from_slice(&w.to_le_bytes()[..f.size]);
        if !accepts(p, &pl) {
            o.class("code refused");
            // a code outside a closed enumeration makes the message unknown
            return with_packet(p.class, p.id, &pl, |x| {
                let n = access::raw_of(x).0;
                let want = classify(p.class, p.id, &pl).map(|q| q.name).unwrap_or("Unknown");
                ensure!(n == want, "dispatch", "code {w} of {}.{}: delivered as {n}, expected {want}", p.name, f.name);
                Ok(())
            })?;
        }
        o.nt();
        o.class(match f.map {
            Map::Enum(_) => "enumeration",
            Map::Flags(_) => "bit flags",
            _ => "composed word",
        });
        compare_strict(p, &pl, o, true, |x| x.name == f.name)
    };
    let small: Vec<_> = words.iter().filter(|w| w.1.size == 1).copied().collect();
    c.all("bytes", "every value of every one-byte status, flag and enumeration field of every message; non-trivial: the message is accepted", small.len() as u64 * 256, |i, o| {
        let (p, f) = small[(i / 256) as usize];
        check(p, f, i % 256, None, o)
    });
    let mid: Vec<_> = words.iter().filter(|w| w.1.size == 2).copied().collect();
    c.all("words16", "every value of every two-byte flag field; non-trivial: the message is accepted", mid.len() as u64 * 65536, |i, o| {
        let (p, f) = mid[(i / 65536) as usize];
        check(p, f, i % 65536, None, o)
    });
    let big: Vec<_> = words.iter().filter(|w| w.1.size == 4).copied().collect();
    let mut pats: Vec<u64> = vec![0, u32::MAX as u64];
    for a in 0..32 {
        for b in 0..32 {
            pats.push(1 << a | 1 << b);
            pats.push(u32::MAX as u64 ^ (1 << a | 1 << b));
        }
    }
    for sh in 0..30 {
        for v in 0..8 {
            pats.push((v << sh) & 0xffff_ffff);
        }
    }
    let pats = &pats;
    c.all("words32", "every pattern of at most two set or two clear bits and every three-bit group of every four-byte word; non-trivial: the message is accepted", big.len() as u64 * pats.len() as u64, |i, o| {
        let (p, f) = big[(i / pats.len() as u64) as usize];
        check(p, f, pats[(i % pats.len() as u64) as usize], None, o)
    });
    // words inside the records of lists: list, its field, offset and size of the word, size of a record
    let rw: Vec<(&'static Pkt, usize, usize, usize)> = vec![
        (pkt("NavSat"), 8, 4, 12),
        (pkt("RxmRawx"), 27, 1, 32),
        (pkt("RxmRawx"), 28, 1, 32),
        (pkt("RxmRawx"), 29, 1, 32),
        (pkt("RxmRawx"), 30, 1, 32),
        (pkt("EsfMeas"), 0, 4, 4),
        (pkt("EsfRaw"), 0, 4, 8),
    ];
    let np = pats.len() as u64;
    c.all("record-words", "every status word inside list records (all values of one-byte words, the patterns above for four-byte words) in each place of lists of one to three records with the rest all zero or all one; non-trivial: the message is accepted", rw.len() as u64 * 12 * np, |i, o| {
        let (p, off, size, k) = rw[(i / (12 * np)) as usize];
        let (at, n) = [(0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3)][(i / np % 6) as usize];
        let fill = if i / np / 6 % 2 == 0 { 0 } else { 0xff };
        let j = i % np;
        let w = match size {
            1 if j > 255 => return Ok(()),
            1 => j,
            _ => pats[j as usize],
        };
        let mut pl = base(p);
        if p.name == "EsfMeas" {
            pl[4..6].copy_from_slice(&((n as u16) << 11).to_le_bytes());
        }
        let f = pl.len();
        pl.resize(f + n * k, fill);
        pl[f + at * k + off..f + at * k + off + size].copy_from_slice(&w.to_le_bytes()[..size]);
        if !accepts(p, &pl) {
            return Ok(());
        }
        o.nt();
        compare_strict(p, &pl, o, true, |x| x.size == 0)
    });
    let words = &words;
    c.sub(
        "words-random",
        "a random word for a random status field inside an otherwise random message; non-trivial: accepted",
        c.n(300_000, 10_000_000),
        |g| {
            let k = g.below(words.len());
            let w = g.int(8 * words[k].1.size as u32);
            (k, w, g.upto(u32::MAX as u64))
        },
        |(k, w, s), o| {
            let mut r = crate::gen::Rng::new(*s);
            let mut g = Gen::fresh(&mut r);
            check(words[*k].0, words[*k].1, *w, Some(&mut g), o)
        },
    );
    // the public constants
    let fc = access::flag_consts();
    let want: BTreeMap<(&str, &str), u64> = crate::tables::ALL_FLAGS.iter().flat_map(|f| f.consts.iter().map(move |x| ((f.name, x.0), x.1))).collect();
    c.all("flag-constants", "every public flag constant, reserved ones included, against the golden bits; non-trivial: always", fc.len() as u64, |i, o| {
        o.nt();
        let (t, n, v) = fc[i as usize];
        let w = want.get(&(t, n)).copied().unwrap_or_else(|| 1 << n.strip_prefix("RESERVED").unwrap().parse::<u32>().unwrap());
        ensure!(v == Some(w), format!("constant:{t}::{n}"), "{t}::{n} is {v:#x?}, the protocol has {w:#x}");
        Ok(())
    });
    let ec = access::enum_consts();
    c.all("enum-constants", "every public enumeration name against its golden code; non-trivial: always", ec.len() as u64, |i, o| {
        o.nt();
        let (t, n, v, d) = &ec[i as usize];
        let e = crate::tables::ALL_ENUMS.iter().find(|e| e.name == *t).unwrap();
        let w = e.variants.iter().find(|x| x.0 == *n).unwrap().1;
        ensure!(*v as u64 == w && d == n, format!("constant:{t}::{n}"), "{t}::{n} is {v} and prints {d}, the protocol has {w}");
        Ok(())
    });
    let fl = crate::tables::ALL_FLAGS;
    c.all("flag-words", "every flag set, every 16-bit pattern in each half: conversion from the raw bits keeps all of them; non-trivial: always", fl.len() as u64 * 65536, |i, o| {
        let f = fl[(i / 65536) as usize];
        o.nt();
        let h = i % 65536;
        for w in [h, h << 16] {
            let w = if f.bits == 32 { w } else { h & ((1 << f.bits) - 1) };
            let g = access::flag_trunc(f.name, w).unwrap();
            ensure!(g == w, format!("bits:{}", f.name), "{} keeps {g:#x} of {w:#x}", f.name);
        }
        Ok(())
    });
}

pub fn c08(c: &mut Ctx) {
    let r: Vec<_> = reachable().into_iter().filter(|p| p.fields.iter().any(|f| f.size == 0 || matches!(f.map, Map::Cstr | Map::OptStr))).collect();
    c.sub(
        "records",
        "for each message with repeated blocks, text or optional parts, a payload with a random number of records (0 to the largest that fits); every record, string and option against the golden decoder; non-trivial: the variable part is not empty",
        c.n(150_000, 5_000_000),
        |g| {
            let pk = *g.pick(&r);
            gen_one(g, pk, false)
        },
        |p, o| {
            let pk = pkt(p.pkt);
            if p.payload.len() > fixed_part(pk) || pk.fixed.is_some() {
                o.nt();
            }
            o.class(p.pkt);
            compare(pk, &p.payload, o, |f| f.size == 0 || matches!(f.map, Map::Cstr | Map::OptStr))
        },
    );
    c.sub(
        "shapes",
        "the same payloads cut, extended or altered: delivered as the type exactly when the variable part has the required shape, and then decoded alike; non-trivial: the payload differs from a well-shaped one in length or is refused",
        c.n(150_000, 5_000_000),
        |g| {
            let pk = *g.pick(&r);
            gen_one(g, pk, true)
        },
        |p, o| {
            let pk = pkt(p.pkt);
            let want = classify(pk.class, pk.id, &p.payload);
            o.nt();
            o.class(if want.is_some() { "still well-shaped" } else { "refused" });
            let name = with_packet(p.class, p.id, &p.payload, |x| access::raw_of(x).0)?;
            ensure!(
                name == want.map(|w| w.name).unwrap_or("Unknown"),
                format!("shape:{}", p.pkt),
                "payload of {} bytes delivered as {name}, expected {:?}: {}",
                p.payload.len(),
                want.map(|w| w.name),
                show(&p.payload)
            );
            match want {
                Some(w) => compare(w, &p.payload, o, |_| true),
                None => Ok(()),
            }
        },
    );
    // each list message: every record count, with position-dependent content
    let lists: Vec<(&'static Pkt, usize)> = [("NavSat", 12), ("RxmRawx", 32), ("MonVer", 30), ("EsfRaw", 8), ("RxmSfrbx", 4)].iter().map(|(n, k)| (pkt(n), *k)).collect();
    c.all("all-counts", "each list message with every record count 0..=255 that fits, and record sizes off by every remainder; non-trivial: always", lists.len() as u64 * 256 * 4, |i, o| {
        let (p, k) = lists[(i / 1024) as usize];
        let n = (i / 4 % 256) as usize;
        let extra = [0, 1, k / 2, k - 1][(i % 4) as usize];
        let f = fixed_part(p);
        let len = f + n * k + extra;
        if len > 8176 {
            return Ok(());
        }
        o.nt();
        let mut pl: Vec<u8> = (0..len).map(|j| (j * 37 % 251) as u8).collect();
        if p.name == "MonVer" {
            for s in pl.chunks_mut(1) {
                s[0] = b'a' + s[0] % 26;
            }
            pl[29] = 0;
            pl[39] = 0;
            for j in 0..n {
                pl[f + j * 30 + 5 + j % 25] = 0;
            }
        }
        let want = classify(p.class, p.id, &pl);
        let name = with_packet(p.class, p.id, &pl, |x| access::raw_of(x).0)?;
        ensure!(name == want.map(|w| w.name).unwrap_or("Unknown"), format!("shape:{}", p.name), "{} records plus {extra} bytes delivered as {name}, expected {:?}", n, want.map(|w| w.name));
        match want {
            Some(w) => compare(w, &pl, o, |_| true),
            None => Ok(()),
        }
    });
    // EsfMeas: the flag word decides what follows
    let em = pkt("EsfMeas");
    c.all("esf-meas", "every measurement count and time-tag flag of the sensor message with every variable length 0..=140; non-trivial: always", 32 * 2 * 141, |i, o| {
        let (n, c, len) = ((i / 282) as u16, (i / 141 % 2) as u16, (i % 141) as usize);
        let mut pl = vec![1, 2, 3, 4, 0, 0, 7, 8];
        let w = n << 11 | c << 3 | 0x17 & 0x7f7;
        pl[4..6].copy_from_slice(&(w & !8 | c << 3).to_le_bytes());
        pl.extend((0..len).map(|j| (j * 73 % 255) as u8));
        o.nt();
        let want = classify(em.class, em.id, &pl);
        let name = with_packet(em.class, em.id, &pl, |x| access::raw_of(x).0)?;
        ensure!(name == want.map(|w| w.name).unwrap_or("Unknown"), "shape:EsfMeas", "{n} measurements, time tag {c}, {len} bytes: delivered as {name}, expected {:?}", want.map(|w| w.name));
        match want {
            Some(w) => compare(w, &pl, o, |_| true),
            None => Ok(()),
        }
    });
}

// ------------------------------------------------------------------------------------------------ C15

pub fn days(y: i64, m: i64, d: i64) -> i64 {
    days_from_civil(y, m, d)
}
fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
fn near(a: f64, b: f64, unit: f64) -> bool {
    (a - b).abs() <= unit * 1e-3 + 1e-12 * b.abs().max(a.abs())
}
fn iat(pl: &[u8], o: usize) -> f64 {
    i32::from_le_bytes(pl[o..o + 4].try_into().unwrap()) as f64
}
fn uat(pl: &[u8], o: usize) -> f64 {
    u32::from_le_bytes(pl[o..o + 4].try_into().unwrap()) as f64
}
fn hp(pl: &[u8], o: usize) -> f64 {
    pl[o] as i8 as f64
}

pub fn c15(c: &mut Ctx) {
    // Quantities are computed here straight from the payload bytes by the units of the interface description.
    let names = ["NavPosLlh", "NavHpPosLlh", "NavPvt", "NavHpPosEcef", "NavVelNed"];
    c.sub(
        "positions",
        "random and boundary payloads of the convertible messages; degrees, metres and metres per second computed directly from the raw bytes; non-trivial: a position or velocity field is not zero",
        c.n(300_000, 10_000_000),
        |g| {
            let pk = pkt(names[g.below(names.len())]);
            gen_one(g, pk, false)
        },
        |p, o| {
            let pl = &p.payload;
            o.class(p.pkt);
            if pl[4..28].iter().any(|b| *b != 0) {
                o.nt();
            }
            with_packet(p.class, p.id, pl, |x| {
                let pos = |q: Position, lon: f64, lat: f64, alt: f64, du: f64, hu: f64| -> Res {
                    ensure!(near(q.lon, lon, du), format!("lon:{}", p.pkt), "longitude {} expected {lon} degrees", q.lon);
                    ensure!(near(q.lat, lat, du), format!("lat:{}", p.pkt), "latitude {} expected {lat} degrees", q.lat);
                    ensure!(near(q.alt, alt, hu), format!("alt:{}", p.pkt), "altitude {} expected {alt} m", q.alt);
                    Ok(())
                };
                o.check();
                match x {
                    PacketRef::NavPosLlh(r) => pos(r.into(), iat(pl, 4) * 1e-7, iat(pl, 8) * 1e-7, iat(pl, 16) * 1e-3, 1e-7, 1e-3),
                    PacketRef::NavHpPosLlh(r) => pos(
                        r.into(),
                        iat(pl, 8) * 1e-7 + hp(pl, 24) * 1e-9,
                        iat(pl, 12) * 1e-7 + hp(pl, 25) * 1e-9,
                        iat(pl, 20) * 1e-3 + hp(pl, 27) * 1e-4,
                        // the single-precision part of the sum limits the resolution
                        1e-9,
                        1e-4,
                    ),
                    PacketRef::NavPvt(r) => {
                        pos(r.into(), iat(pl, 24) * 1e-7, iat(pl, 28) * 1e-7, iat(pl, 36) * 1e-3, 1e-7, 1e-3)?;
                        let v: Velocity = r.into();
                        // a ground speed is not negative: words with the top bit set are outside the domain
                        let sp = uat(pl, 60) * 1e-3;
                        ensure!(iat(pl, 60) < 0.0 || near(v.speed, sp, 1e-3), "speed:NavPvt", "speed {} expected {sp} m/s", v.speed);
                        ensure!(near(v.heading, iat(pl, 64) * 1e-5, 1e-5), "heading:NavPvt", "heading {} expected {} degrees", v.heading, iat(pl, 64) * 1e-5);
                        Ok(())
                    },
                    PacketRef::NavHpPosEcef(r) => {
                        let q: PositionECEF = r.into();
                        for (i, (got, axis)) in [(q.x, "x"), (q.y, "y"), (q.z, "z")].into_iter().enumerate() {
                            let want = iat(pl, 8 + 4 * i) * 1e-2 + hp(pl, 20 + i) * 1e-4;
                            ensure!(near(got, want, 1e-4), format!("ecef:{axis}"), "{axis} {got} expected {want} m");
                        }
                        Ok(())
                    },
                    PacketRef::NavVelNed(r) => {
                        let v: Velocity = r.into();
                        ensure!(near(v.speed, uat(pl, 20) * 1e-2, 1e-2), "speed:NavVelNed", "speed {} expected {} m/s", v.speed, uat(pl, 20) * 1e-2);
                        ensure!(near(v.heading, iat(pl, 24) * 1e-5, 1e-5), "heading:NavVelNed", "heading {} expected {} degrees", v.heading, iat(pl, 24) * 1e-5);
                        Ok(())
                    },
                    _ => panic!("harness: C15 message"),
                }
            })?
        },
    );
    #[derive(Clone, Debug, Hash)]
    struct Tm {
        y: u16,
        mo: u8,
        d: u8,
        h: u8,
        mi: u8,
        s: u8,
        n: i32,
        rest: u64,
    }
    let tm_check = |t: &Tm, o: &mut Obs| -> Res {
        let mut r = crate::gen::Rng::new(t.rest);
        let mut pl = payload(&mut Gen::fresh(&mut r), pkt("NavPvt"), false);
        pl[4..6].copy_from_slice(&t.y.to_le_bytes());
        pl[6..11].copy_from_slice(&[t.mo, t.d, t.h, t.mi, t.s]);
        pl[16..20].copy_from_slice(&t.n.to_le_bytes());
        let bad_date = !(1..=12).contains(&t.mo) || t.d < 1 || t.d as i64 > month_len(t.y as i64, t.mo as i64);
        let bad_time = t.h > 23 || t.mi > 59 || t.s > 59;
        let bad_ns = (t.n as i64).abs() >= 1_000_000_000;
        o.class(match (bad_date, bad_time, bad_ns) {
            (false, false, false) => "possible instant",
            (true, false, false) => "impossible date",
            (false, true, false) => "impossible time",
            (false, false, true) => "impossible nanoseconds",
            _ => "several impossible parts",
        });
        if !(bad_date || bad_time || bad_ns) || (bad_date as u8 + bad_time as u8 + bad_ns as u8 == 1) {
            o.nt();
        }
        with_packet(1, 7, &pl, |x| {
            let PacketRef::NavPvt(r) = x else { return fail("dispatch", "not a NavPvt") };
            let got = DateTime::<Utc>::try_from(r);
            o.check();
            match got {
                Ok(dt) => {
                    // second 60 denotes a leap second; taking it as the next minute's start would still be that instant
                    let leap = t.s == 60 && t.h < 24 && t.mi < 60;
                    ensure!(!bad_date && (!bad_time || leap) && !bad_ns, "wrong-instant", "{t:?} gives {dt:?} instead of an error");
                    let secs = days_from_civil(t.y as i64, t.mo as i64, t.d as i64) * 86400 + t.h as i64 * 3600 + t.mi as i64 * 60 + t.s as i64;
                    let want = secs as i128 * 1_000_000_000 + t.n as i128;
                    let got = dt.timestamp() as i128 * 1_000_000_000 + dt.timestamp_subsec_nanos() as i128;
                    ensure!(got == want, "instant", "{t:?} gives {dt:?}: {got} ns since 1970, expected {want}");
                },
                Err(DateTimeError::InvalidDate) => ensure!(bad_date, "error-kind", "{t:?} refused as an invalid date"),
                Err(DateTimeError::InvalidTime) => ensure!(bad_time, "error-kind", "{t:?} refused as an invalid time"),
                Err(DateTimeError::InvalidNanoseconds) => ensure!(bad_ns, "error-kind", "{t:?} refused for its nanoseconds"),
            }
            Ok(())
        })?
    };
    c.sub(
        "instants",
        "year, month, day, hour, minute, second, nanosecond around and beyond their limits; own civil calendar; non-trivial: a possible instant, or exactly one impossible part",
        c.n(300_000, 10_000_000),
        |g| {
            let pickb = |g: &mut Gen, v: &[u8], m: u64| if g.chance(60) { *g.pick(v) } else { g.upto(m) as u8 };
            let y = match g.weighted(&[4, 4, 2]) {
                0 => 1999 + g.below(40) as u16,
                1 => *g.pick(&[1900u16, 2000, 2004, 2100, 2400, 1, 4, 9999, 65535, 1970, 1969]),
                _ => 1 + g.upto(65534) as u16,
            };
            let n = match g.weighted(&[3, 4, 2, 1]) {
                0 => g.upto(2_000_000) as i64 - 1_000_000,
                1 => g.upto(1_999_999_998) as i64 - 999_999_999,
                2 => *g.pick(&[999_999_999i64, -999_999_999, 1_000_000_000, -1_000_000_000, 0, -1, 1, i32::MIN as i64, i32::MAX as i64]),
                _ => g.upto(u32::MAX as u64) as u32 as i32 as i64,
            };
            Tm {
                y,
                mo: pickb(g, &[0, 1, 2, 12, 13, 255], 13),
                d: pickb(g, &[0, 1, 28, 29, 30, 31, 32, 255], 31),
                h: pickb(g, &[0, 23, 24, 255], 24),
                mi: pickb(g, &[0, 59, 60, 255], 60),
                s: pickb(g, &[0, 59, 60, 61, 255], 60),
                n: n as i32,
                rest: g.upto(255),
            }
        },
        tm_check,
    );
    c.all("all-days", "every day of every month 0..=13, day 0..=32, for years 1995..2105 with a negative and a positive nanosecond part at midnight and at the last second; non-trivial as before", 110 * 14 * 33 * 2, |i, o| {
        let k = i / 2;
        let (y, mo, d) = (1995 + (k / (14 * 33)) as u16, (k / 33 % 14) as u8, (k % 33) as u8);
        let t = if i % 2 == 0 { Tm { y, mo, d, h: 0, mi: 0, s: 0, n: -1, rest: 0 } } else { Tm { y, mo, d, h: 23, mi: 59, s: 59, n: 999_999_999, rest: 0 } };
        tm_check(&t, o)
    });
}

// ------------------------------------------------------------------------------------------------ C16

fn num_is(j: &J, x: f64, single: bool) -> bool {
    match j {
        J::Num(t) => close(t.parse().unwrap(), x, single),
        J::Null => !x.is_finite(),
        _ => false,
    }
}
fn int_is(j: &J, x: i128) -> bool {
    matches!(j, J::Num(t) if t.parse::<i128>() == Ok(x))
}
fn name_is(j: &J, s: &str) -> bool {
    matches!(j, J::Str(t) if t == s)
}
fn obj_is(j: &J, want: &[(&str, &dyn Fn(&J) -> bool)]) -> bool {
    match j {
        J::Obj(v) => v.len() == want.len() && want.iter().all(|(n, f)| v.iter().any(|(k, x)| k == n && f(x))),
        _ => false,
    }
}
/// Does this JSON value tell the value of the field? None: the value has no meaning.
fn json_tells(p: &Pkt, f: &Field, bytes: &[u8], j: &J) -> Option<bool> {
    let rec = |name: &str, c: &[u8], j: &J| match j {
        J::Obj(v) => {
            let q = pkt(name);
            v.len() == q.fields.len() && q.fields.iter().all(|f| v.iter().any(|(k, x)| k == f.name && json_tells(q, f, &c[f.off..f.off + f.size], x).unwrap_or(true)))
        },
        _ => false,
    };
    let list = |k: usize, j: &J, f: &dyn Fn(&[u8], &J) -> bool| match j {
        J::Arr(v) => v.len() == bytes.len() / k && bytes.chunks(k).zip(v).all(|(c, x)| f(c, x)),
        _ => false,
    };
    Some(match f.map {
        Map::None => match f.ty {
            Ty::Bytes(_) => matches!(j, J::Arr(v) if v.len() == bytes.len() && v.iter().zip(bytes).all(|(x, b)| int_is(x, *b as i128))),
            Ty::F32 => match (j, f32::from_bits(le(bytes) as u32)) {
                // the shortest text that reads back as the same single-precision number
                (J::Num(t), x) => t.parse::<f32>().is_ok_and(|y| y == x),
                (j, x) => *j == J::Null && !x.is_finite(),
            },
            Ty::F64 => num_is(j, f64::from_bits(le(bytes)), false),
            t => int_is(j, raw_int(t, bytes)),
        },
        Map::Float { single, scale } => num_is(j, raw_int(f.ty, bytes) as f64 * scale, single),
        Map::Enum(_) | Map::Flags(_) => int_is(j, le(bytes) as i128),
        Map::Custom(Custom::UartMode) => {
            let (d, pa, s) = uart_parts(le(bytes))?;
            obj_is(j, &[("data_bits", &|x| name_is(x, d)), ("parity", &|x| name_is(x, pa)), ("stop_bits", &|x| name_is(x, s))])
        },
        Map::Custom(Custom::CfgItfmConfig) => {
            let w = le(bytes);
            obj_is(
                j,
                &[
                    ("enable", &|x| *x == J::Bool(w >> 31 & 1 == 1)),
                    ("bb_threshold", &|x| int_is(x, (w & 15) as i128)),
                    ("cw_threshold", &|x| int_is(x, (w >> 4 & 31) as i128)),
                    ("algorithm_bits", &|x| int_is(x, (w >> 9 & 0x3fffff) as i128)),
                ],
            )
        },
        Map::Custom(Custom::CfgItfmConfig2) => {
            let w = le(bytes);
            let a = [0, 1, 2, 0][(w >> 12 & 3) as usize];
            obj_is(j, &[("general", &|x| int_is(x, (w & 0xfff) as i128)), ("antenna", &|x| int_is(x, a)), ("scan_aux_bands", &|x| *x == J::Bool(w >> 14 & 1 == 1))])
        },
        Map::Custom(_) => int_is(j, le(bytes) as i128),
        Map::Cstr => name_is(j, &cstr(bytes)),
        Map::OptStr => match std::str::from_utf8(bytes) {
            Ok(s) => name_is(j, s),
            Err(_) => *j == J::Null,
        },
        Map::OptU32 => {
            if bytes.len() == 4 {
                int_is(j, le(bytes) as i128)
            } else {
                *j == J::Null
            }
        },
        Map::List(k) => match k {
            ListKind::NavSat => list(12, j, &|c, x| rec("NavSatSvInfo", c, x)),
            ListKind::RxmRawx => list(32, j, &|c, x| rec("RxmRawxInfo", c, x)),
            ListKind::MonVer => list(30, j, &|c, x| name_is(x, &cstr(c))),
            ListKind::EsfMeas => list(4, j, &|c, x| {
                let w = le(c) as i128;
                obj_is(x, &[("data_type", &|y| int_is(y, w >> 24 & 0x3f)), ("data_field", &|y| int_is(y, w & 0xffffff))])
            }),
            ListKind::EsfRaw => list(8, j, &|c, x| {
                let w = le(&c[..4]) as i128;
                obj_is(x, &[("data_type", &|y| int_is(y, w >> 24 & 0xff)), ("data_field", &|y| int_is(y, w & 0xffffff)), ("sensor_time_tag", &|y| int_is(y, le(&c[4..]) as i128))])
            }),
            ListKind::Dwrd => list(4, j, &|c, x| int_is(x, le(c) as i128)),
        },
    })
}

fn c16_check(p: &OnePayload, o: &mut Obs) -> Res {
    let pk = classify(p.class, p.id, &p.payload);
    o.class(pk.map(|x| x.name).unwrap_or("Unknown"));
    with_packet(p.class, p.id, &p.payload, |x| -> Res {
        let name = pk.map(|k| k.name).unwrap_or("Unknown");
        let text = match guard(|| serde_json::to_string(x)) {
            Err(e) => return fail(super::stream::panic_sig(name, &p.payload, "json"), format!("serialising {name} panicked: {e}; payload {}", show(&p.payload))),
            Ok(r) => r.map_err(|e| Fail { sig: format!("error:{name}.json"), msg: e.to_string() })?,
        };
        let J::Obj(mut entries) = json::parse(&text).map_err(|e| Fail { sig: format!("json:{name}"), msg: format!("{e} in {text}") })? else {
            return fail(format!("json:{name}"), format!("not an object: {text}"));
        };
        o.check();
        let Some(pk) = pk else {
            let ok = entries.len() == 3
                && entries.iter().any(|(k, v)| k == "class" && int_is(v, p.class as i128))
                && entries.iter().any(|(k, v)| k == "msg_id" && int_is(v, p.id as i128))
                && entries.iter().any(|(k, v)| k == "payload" && matches!(v, J::Arr(a) if a.len() == p.payload.len() && a.iter().zip(&p.payload).all(|(x, b)| int_is(x, *b as i128))));
            ensure!(ok, "json:Unknown", "unknown message serialised as {text}");
            return Ok(());
        };
        o.nt();
        // class and id come first; a field of the same name is a second entry of that name
        let mut dup = None;
        for (k, v) in [("class", p.class), ("msg_id", p.id)] {
            let i = entries.iter().position(|e| e.0 == k && int_is(&e.1, v as i128));
            let Some(i) = i else { return fail(format!("json:{name}.{k}"), format!("{name}: no entry {k} = {v} in {text}")) };
            entries.remove(i);
        }
        for f in pk.fields {
            let by = field_bytes(pk, f, &p.payload);
            let all: Vec<usize> = (0..entries.len()).filter(|i| entries[*i].0 == f.name).collect();
            ensure!(all.len() == 1, format!("json:{name}.{}", f.name), "{name}: {} entries named {} in {text}", all.len(), f.name);
            if f.name == "class" || f.name == "msg_id" {
                dup = Some(f.name);
            }
            let (_, v) = entries.remove(all[0]);
            if let Some(ok) = json_tells(pk, f, by, &v) {
                ensure!(ok, format!("json:{name}.{}", f.name), "{name}.{}: bytes {} serialised as {v:?}", f.name, show(by));
            }
        }
        ensure!(entries.is_empty(), format!("json-extra:{name}"), "{name}: extra entries {entries:?}");
        // debug forms
        for alt in [false, true] {
            let got = match guard(|| access::debug_inner(x, alt)) {
                Ok(t) => t.unwrap(),
                Err(e) => return fail(super::stream::panic_sig(name, &p.payload, "debug"), format!("Debug of {name} panicked: {e}; payload {}", show(&p.payload))),
            };
            let want = access::debug_of(x, alt).unwrap();
            ensure!(got == want, format!("debug:{name}"), "{name} prints {got}, its accessors say {want}");
            let outer = if alt { format!("{x:#?}") } else { format!("{x:?}") };
            ensure!(outer.contains(name) && (alt || outer.contains(&got)), format!("debug-outer:{name}"), "the packet prints {outer}");
        }
        if let Some(d) = dup {
            return fail(format!("duplicate-name:{name}"), format!("{name}: two entries named {d} in {text}"));
        }
        Ok(())
    })?
}

/// The entries of a flat debug form.
fn debug_parts(t: &str) -> Vec<(String, String)> {
    let Some((_, t)) = t.split_once('{') else { return vec![] };
    t.trim_end().trim_end_matches('}').split(',').filter_map(|x| x.split_once(':')).map(|(a, b)| (a.trim().to_string(), b.trim().to_string())).collect()
}
fn flag_words_check((sat, w): &(bool, u32), o: &mut Obs) -> Res {
    if *w != 0 {
        o.nt();
    }
    let (name, text, custom, raw) = match sat {
        true => ("NavSatSvFlags", format!("{:?}", ublox::NavSatSvFlags::from(*w)), Custom::NavSatSvFlags, *w as u64),
        false => ("FixStatusInfo", format!("{:?}", ublox::FixStatusInfo::from(*w as u8)), Custom::FixStatusInfo, *w as u64 & 0xff),
    };
    o.class(name);
    ensure!(text.contains(name), format!("debug-parts:{name}"), "the debug form of {name} is {text}");
    let got = debug_parts(&text);
    let Some(Val::Rec(want)) = crate::spec::custom_val(custom, raw) else { panic!("harness: {name}") };
    for (part, v) in want {
        let plain = match v {
            Val::Int(x) => (x == 1).to_string(),
            Val::Name(x) => x,
            x => panic!("harness: {x:?}"),
        };
        let mine: Vec<&str> = got.iter().filter(|x| x.0 == part).map(|x| x.1.as_str()).collect();
        ensure!(mine == [plain.as_str()], format!("debug-parts:{name}.{part}"), "{name} of {raw:#x}: {part} is {plain}, the debug form says {mine:?} ({text})");
    }
    Ok(())
}

pub fn c16(c: &mut Ctx) {
    let r = reachable();
    c.sub(
        "forms",
        "random payloads of every message type (and unknown ones): the JSON text, read without tolerance for duplicates, against the golden decoder entry by entry, and both debug forms against the accessors; non-trivial: a typed message",
        c.n(120_000, 4_000_000),
        |g| {
            if g.chance(8) {
                let n = g.range(0, 40);
                return OnePayload { pkt: "Unknown", class: g.byte(), id: g.byte(), payload: g.bytes(n) };
            }
            let pk = *g.pick(&r);
            gen_one(g, pk, false)
        },
        c16_check,
    );
    c.sub(
        "flag-words",
        "random and sparse words as flag words whose debug form names the parts: every part under its name with the value of its bits; non-trivial: a word other than 0",
        c.n(20_000, 1_000_000),
        |g| (g.bool(), if g.bool() { g.upto(u32::MAX as u64) as u32 } else { (0..g.below(4)).fold(0, |a, _| a | 1 << g.below(32)) }),
        flag_words_check,
    );
    let r = &r;
    c.all("all-types", "every message type with a zero payload of its shape and with a patterned one; non-trivial: a typed message", r.len() as u64 * 8, |i, o| {
        let pk = r[(i / 8) as usize];
        let mut rng = crate::gen::Rng::new(i % 8 * 977);
        let pl = if i % 8 == 0 { payload(&mut Gen::replay(&[]), pk, false) } else { payload(&mut Gen::fresh(&mut rng), pk, false) };
        c16_check(&OnePayload { pkt: pk.name, class: pk.class, id: pk.id, payload: pl }, o)
    });
}

// ------------------------------------------------------------------------------------------------ C17

pub fn c17(c: &mut Ctx) {
    let pk = crate::tables::PKTS;
    let req: BTreeMap<_, _> = access::requests().into_iter().collect();
    let metas = access::metas();
    c.all("meta", "every message type: declared class, id, fixed length and largest length against the golden table, and its poll request; non-trivial: always", pk.len() as u64, |i, o| {
        let p = &pk[i as usize];
        o.nt();
        let m = metas.iter().find(|m| m.0 == p.name).unwrap_or_else(|| panic!("harness: no meta"));
        ensure!((m.1, m.2) == (p.class, p.id), format!("meta:{}", p.name), "{} declares {:#x}/{:#x}, the protocol has {:#x}/{:#x}", p.name, m.1, m.2, p.class, p.id);
        ensure!(m.3.map(|x| x as usize) == p.fixed, format!("meta:{}", p.name), "{} declares fixed length {:?}, the protocol has {:?}", p.name, m.3, p.fixed);
        ensure!(m.4 as usize == p.max, format!("meta:{}", p.name), "{} declares largest length {}, the protocol has {}", p.name, m.4, p.max);
        let want = frame(p.class, p.id, &[]);
        ensure!(req[p.name][..] == want[..], format!("request:{}", p.name), "the request for {} is {:02x?}, expected {:02x?}", p.name, req[p.name], want);
        Ok(())
    });
    c.all("requests", "the poll request for each of the 65536 explicit class/id pairs, parsed back; non-trivial: always", 65536, |i, o| {
        let (cl, id) = ((i >> 8) as u8, i as u8);
        o.nt();
        let b = UbxPacketRequest::request_for_unknown(cl, id).into_packet_bytes();
        let want = frame(cl, id, &[]);
        ensure!(b[..] == want[..], "request", "request for {cl:#x}/{id:#x} is {b:02x?}, expected {want:02x?}");
        let (x, y) = fletcher(&b[2..6]);
        ensure!(b[6] == x && b[7] == y, "request-checksum", "wrong checksum");
        ensure!(b.len() == UbxPacketRequest::PACKET_LEN, "request-len", "length");
        Ok(())
    });
    c.all("rates", "each rate 0..=255 for each message type through the single-port setting, and derived port vectors through the all-ports setting; non-trivial: always", 256, |r, o| {
        let r = r as u8;
        o.nt();
        for (n, b) in access::rate_single(r) {
            let p = pkt(n);
            let want = frame(6, 1, &[p.class, p.id, r]);
            ensure!(b == want, format!("rate:{n}"), "rate {r} for {n} is {b:02x?}, expected {want:02x?}");
            o.check();
        }
        let rs = [r, r.wrapping_mul(3).wrapping_add(1), r.wrapping_mul(5).wrapping_add(2), !r, r.rotate_left(3), r ^ 0x5a];
        for (n, b) in access::rate_all(rs) {
            let p = pkt(n);
            let want = frame(6, 1, &[&[p.class, p.id], &rs[..]].concat());
            ensure!(b == want, format!("rates:{n}"), "rates {rs:?} for {n} are {b:02x?}, expected {want:02x?}");
            o.check();
        }
        Ok(())
    });
    c.all("acks", "an acknowledgement and a refusal for each of the 65536 class/id pairs, asked about every message type; non-trivial: always", 65536, |i, o| {
        let (cl, id) = ((i >> 8) as u8, i as u8);
        o.nt();
        for nak in [false, true] {
            with_packet(5, !nak as u8, &[cl, id], |x| {
                let v = match x {
                    PacketRef::AckAck(r) if !nak => access::ack_for(r),
                    PacketRef::AckNak(r) if nak => access::nak_for(r),
                    _ => return fail("dispatch", format!("acknowledgement delivered as {}", access::raw_of(x).0)),
                };
                for (n, b) in v {
                    let p = pkt(n);
                    o.check();
                    ensure!(b == (p.class == cl && p.id == id), format!("ack:{n}"), "acknowledgement (nak: {nak}) of {cl:#x}/{id:#x} is for {n}: {b}");
                }
                Ok(())
            })??;
        }
        Ok(())
    });
}

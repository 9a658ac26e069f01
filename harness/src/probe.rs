//! Runs the cases of property C21 against the crate built with one feature set. Reads tapes (one per line, numbers
//! separated by spaces), writes one line per case: the digests of what each interface returned, `-` for interfaces the
//! feature set does not have. With `--full` the texts are written instead.
#![allow(dead_code, unused_imports)]
mod access;
mod cases;
mod cfgtab;
mod cfgv;
mod dict;
mod emit;
mod gen;
mod gens;
mod model;
mod panics;
mod spec;
mod tables;
mod val;

use cases::*;
use emit::*;
use panics::guard;
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use ublox::*;

/// Positions, velocities and times computed from a message, and what an acknowledgement is for.
fn means(x: &PacketRef) -> String {
    match x {
        PacketRef::NavPosLlh(m) => format!("{:?}", Position::from(m)),
        PacketRef::NavHpPosLlh(m) => format!("{:?}", Position::from(m)),
        PacketRef::NavHpPosEcef(m) => format!("{:?}", PositionECEF::from(m)),
        PacketRef::NavVelNed(m) => format!("{:?}", Velocity::from(m)),
        PacketRef::NavPvt(m) => {
            let t = chrono::DateTime::<chrono::Utc>::try_from(m);
            let why = t.as_ref().err().map(|e| e.to_string());
            format!("{:?} {:?} {t:?} {why:?}", Position::from(m), Velocity::from(m))
        },
        PacketRef::AckAck(m) => format!("{} {} {}", m.is_ack_for::<CfgRate>(), m.is_ack_for::<CfgPrtUart>(), m.is_ack_for::<CfgMsgAllPorts>()),
        _ => String::new(),
    }
}
fn show<T: UnderlyingBuffer>(p: &mut Parser<T>, data: &[u8], chunks: &[usize], text: &mut String, json: &mut Option<String>) {
    let mut at = 0;
    let mut n = 0;
    for c in chunks.iter().copied().chain([0]) {
        let mut it = p.consume(&data[at..at + c]);
        at += c;
        loop {
            n += 1;
            if n > data.len() + 100 {
                text.push_str("unbounded\n");
                return;
            }
            match it.next() {
                None => break,
                Some(Ok(x)) => {
                    let (name, raw) = access::raw_of(&x);
                    writeln!(text, "{name} {:?} {raw:02x?}", x.class_and_msg_id()).unwrap();
                    if let Some(fs) = access::fields_of(&x) {
                        for (k, v) in fs {
                            // positions of panics differ between feature sets
                            writeln!(text, " {k} {:?}", v.map_err(|_| "panic")).unwrap();
                        }
                    }
                    writeln!(text, " {:?}", guard(|| format!("{x:?} {x:#?}")).map_err(|_| "panic")).unwrap();
                    writeln!(text, " is {:?}", guard(|| means(&x)).map_err(|_| "panic")).unwrap();
                    writeln!(text, " again {:?}", guard(|| access::rebuild(&x)).map_err(|_| "panic")).unwrap();
                    #[cfg(feature = "serde")]
                    if let Some(j) = json {
                        writeln!(j, "{:?}", guard(|| serde_json::to_string(&x).map_err(|e| e.to_string())).map_err(|_| "panic")).unwrap();
                        writeln!(j, "{:?}", guard(|| access::json_inner(&x)).map_err(|_| "panic")).unwrap();
                    }
                },
                Some(Err(e)) => writeln!(text, "{e:?} {e}").unwrap(),
            }
        }
        drop(it);
        writeln!(text, "left {} {}", p.buffer_len(), p.is_buffer_empty()).unwrap();
    }
    let _ = json;
}

/// Always present; growable parser; growable writer; own vector; JSON.
fn run(c: &Case) -> [Option<String>; 5] {
    let mut out: [Option<String>; 5] = Default::default();
    let mut base = String::new();
    let mut json = if cfg!(feature = "serde") { Some(String::new()) } else { None };
    match c {
        Case::Stream { .. } | Case::Packet { .. } => {
            let (data, chunks, cap) = match c {
                Case::Stream { data, chunks, cap } => (data.clone(), chunks.clone(), *cap),
                Case::Packet { class, id, payload, .. } => {
                    let d = packet_stream(*class, *id, payload);
                    let n = d.len();
                    (d, vec![n], n)
                },
                _ => unreachable!(),
            };
            let mut mem = vec![0u8; cap];
            let mut p = Parser::new(FixedLinearBuffer::new(&mut mem));
            show(&mut p, &data, &chunks, &mut base, &mut json);
            #[cfg(any(feature = "std", feature = "alloc"))]
            {
                let mut t = String::new();
                show(&mut Parser::<Vec<u8>>::default(), &data, &chunks, &mut t, &mut None);
                out[1] = Some(t);
            }
        },
        Case::Build { pkt, values, prefix, fail_reserve, fail_write } => {
            for mut h in [How::Bytes, How::From, How::Into, How::Len] {
                writeln!(base, "{:02x?}", guard(|| access::emit(pkt, values, &mut h)).map_err(|_| "panic")).unwrap();
            }
            let w = ScriptWriter { out: prefix.clone(), prefix: prefix.len(), fail_reserve: fail_reserve.then_some(true), fail_write: fail_write.map(|n| (n, n % 2 == 0)), ..Default::default() };
            let mut w = WriterRun { w, result: None };
            let b = guard(|| access::emit(pkt, values, &mut How::Writer(&mut w))).map_err(|_| "panic");
            writeln!(base, "{b:02x?} {:?} {:?}", w.result, w.w).unwrap();
            if let Ok(Ok(f)) = guard(|| Ok::<_, ()>(access::emit(pkt, values, &mut How::Bytes))) {
                let mut mem = vec![0u8; f.len()];
                let mut p = Parser::new(FixedLinearBuffer::new(&mut mem));
                show(&mut p, &f, &[f.len()], &mut base, &mut json);
            }
            let r = prefix.iter().fold(prefix.len() as u8, |a, b| a.wrapping_mul(31).wrapping_add(*b));
            let of = |v: Vec<(&'static str, Vec<u8>)>| v.into_iter().find(|x| x.0 == *pkt);
            writeln!(base, "{:?}", access::requests().into_iter().find(|x| x.0 == *pkt)).unwrap();
            writeln!(base, "{:?} {:?}", of(access::rate_single(r)), of(access::rate_all([r, 1, r ^ 0xff, 0, r / 2, 255]))).unwrap();
            #[cfg(feature = "std")]
            {
                let mut v = prefix.clone();
                out[2] = Some(format!("{:02x?}", guard(|| access::emit(pkt, values, &mut How::VecWriter(&mut v))).map_err(|_| "panic")));
            }
        },
        Case::ConfigSet { items, prefix } => {
            let vals: Vec<_> = items.iter().map(|(i, r)| cfgtab::make(*i, *r)).collect();
            let mk = || CfgValSetBuilder { version: 0, layers: CfgLayer::RAM, reserved1: 0, cfg_data: &vals };
            let mut v = prefix.clone();
            let r = guard(|| mk().extend_to(&mut v)).map_err(|_| "panic");
            writeln!(base, "{r:?} {v:02x?}").unwrap();
            for x in &vals {
                let mut b = [0u8; 16];
                let n = x.write_to(&mut b);
                writeln!(base, "{n} {b:02x?} {} {:?} {:?}", x.len(), x.is_empty(), cfgtab::unmake(&cfg_val::CfgVal::parse(&b[..n]))).unwrap();
            }
            #[cfg(feature = "alloc")]
            {
                out[3] = Some(format!("{:02x?}", guard(|| mk().into_packet_vec()).map_err(|_| "panic")));
            }
        },
    }
    out[0] = Some(base);
    out[4] = json;
    out
}
fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn main() {
    let full = std::env::args().any(|a| a == "--full");
    panics::install_panic_hook();
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).collect();
    let per = lines.len().div_ceil(8).max(1);
    let outs: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = lines
            .chunks(per)
            .map(|ls| {
                s.spawn(move || {
                    let mut o = String::new();
                    for l in ls {
                        let tape: Vec<u64> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
                        let c = gen_case(&mut gen::Gen::replay(&tape));
                        let r = run(&c);
                        let w: Vec<String> = r.iter().map(|x| x.as_ref().map(|t| if full { t.replace('\n', "\\n").replace('\t', " ") } else { format!("{:016x}", fnv(t)) }).unwrap_or("-".into())).collect();
                        o.push_str(&w.join("\t"));
                        o.push('\n');
                    }
                    o
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut so = std::io::stdout().lock();
    for o in outs {
        so.write_all(o.as_bytes()).unwrap();
    }
}

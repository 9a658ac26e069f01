//! C01–C05: the stream parser.
use crate::driver::*;
use crate::ensure;
use crate::gen::Gen;
use crate::gens::*;
use crate::model::*;
use crate::spec::*;
use std::cell::Cell;
use std::rc::Rc;
use ublox::*;

#[derive(Clone, Debug, Hash)]
pub struct Feed {
    pub data: Vec<u8>,
    /// (length, how many results to take; MAX: all)
    pub chunks: Vec<(usize, usize)>,
    pub tail: Vec<u8>,
}
fn gen_feed(g: &mut Gen, big: bool, partial: bool) -> Feed {
    let data = stream(g, 24, big);
    let c = cuts(g, data.len());
    let abandon = partial && g.chance(120);
    let chunks = c.into_iter().map(|n| (n, if abandon && g.chance(140) { g.below(4) } else { usize::MAX })).collect();
    let tail = if g.chance(100) { stream(g, 4, false) } else { vec![] };
    Feed { data, chunks, tail }
}

/// A stream of up to 200 000 bytes in few chunks.
fn gen_long(g: &mut Gen, partial: bool) -> Feed {
    let data = long_stream(g);
    let c = few_cuts(g, data.len());
    let abandon = partial && g.chance(100);
    let chunks = c.into_iter().map(|n| (n, if abandon && g.chance(140) { g.below(6) } else { usize::MAX })).collect();
    Feed { data, chunks, tail: vec![] }
}
fn one_shot(d: &[u8]) -> Result<(Vec<Item>, Parser<Vec<u8>>), Fail> {
    let mut p = Parser::<Vec<u8>>::default();
    let mut out = vec![];
    feed(&mut p, d, usize::MAX, &mut out).map_err(|m| Fail { sig: "results-unbounded".into(), msg: m })?;
    Ok((out, p))
}
fn diff(a: &[Item], b: &[Item]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("{} vs {} results; first difference at {}: {:?} vs {:?}", a.len(), b.len(), k, a.get(k), b.get(k))
}

fn c01_check(f: &Feed, o: &mut Obs) -> Res {
    let (a, mut pa) = one_shot(&f.data)?;
    let mut pb = Parser::<Vec<u8>>::default();
    let mut b = vec![];
    let mut at = 0;
    let mut partial = false;
    for (n, take) in &f.chunks {
        let m = feed(&mut pb, &f.data[at..at + n], *take, &mut b);
        m.map_err(|m| Fail { sig: "results-unbounded".into(), msg: m })?;
        partial |= *take != usize::MAX;
        at += n;
    }
    let before_flush = b.len();
    feed(&mut pb, &[], usize::MAX, &mut b).map_err(|m| Fail { sig: "results-unbounded".into(), msg: m })?;
    if !a.is_empty() && f.chunks.iter().filter(|c| c.0 > 0).count() > 1 {
        o.nt();
    }
    if partial {
        o.class("iterator abandoned");
        if b.len() > before_flush {
            o.class("results delivered only by a later call");
        }
    } else {
        ensure!(b.len() == before_flush, "late-results", "an empty chunk delivered {} results that were complete before", b.len() - before_flush);
    }
    if f.chunks.iter().all(|c| c.0 <= 1) {
        o.class("byte by byte");
    }
    o.check();
    ensure!(a == b, "chunking-changes-results", "{}", diff(&a, &b));
    ensure!(pa.buffer_len() == pb.buffer_len(), "chunking-changes-waiting", "waiting bytes {} vs {}", pa.buffer_len(), pb.buffer_len());
    ensure!(pa.is_buffer_empty() == (pa.buffer_len() == 0) && pb.is_buffer_empty() == (pb.buffer_len() == 0), "is_buffer_empty", "is_buffer_empty disagrees with buffer_len");
    // what waits is the same bytes: anything that follows is understood alike
    let (mut ta, mut tb) = (vec![], vec![]);
    let mut follow = f.tail.clone();
    follow.extend_from_slice(&[0; 12]);
    feed(&mut pa, &follow, usize::MAX, &mut ta).map_err(|m| Fail { sig: "results-unbounded".into(), msg: m })?;
    feed(&mut pb, &follow, usize::MAX, &mut tb).map_err(|m| Fail { sig: "results-unbounded".into(), msg: m })?;
    ensure!(ta == tb && pa.buffer_len() == pb.buffer_len(), "chunking-changes-continuation", "{}", diff(&ta, &tb));
    Ok(())
}

pub fn c01(c: &mut Ctx) {
    c.sub(
        "chunks",
        "segment-structured stream (frames, damage, truncation, lying lengths, noise, sync runs), cut at random, with iterators partly abandoned; non-trivial: at least one result and at least two non-empty chunks",
        c.n(60_000, 2_500_000),
        |g| gen_feed(g, true, true),
        c01_check,
    );
    c.sub(
        "long",
        "streams of up to 200 000 bytes (runs of noise and of sync bytes, repeated and large frames, damage near the end of large frames) in few chunks, iterators partly abandoned; non-trivial as before",
        c.n(1500, 60_000),
        |g| gen_long(g, true),
        c01_check,
    );
    c.sub(
        "drip",
        "streams of up to 12 000 bytes in thousands of chunks of a few bytes, a few calls leaving results unread; non-trivial as before",
        c.n(700, 30_000),
        |g| {
            let (data, v) = drip(g);
            let lazy = if g.bool() { 0 } else { *g.pick(&[1usize, 7, 100, 1000]) };
            let chunks = v.into_iter().enumerate().map(|(i, n)| (n, if lazy > 0 && i % lazy == 0 { i / lazy % 2 } else { usize::MAX })).collect();
            Feed { data, chunks, tail: vec![] }
        },
        c01_check,
    );
    // all cut positions of a two-frame stream: every pair of cuts
    let base: Vec<Vec<u8>> = vec![
        [frame(5, 1, &[6, 1]), frame(1, 0x61, &[1, 2, 3, 4])].concat(),
        [vec![0xb5, 0xb5, 0x62, 1], frame(0xb5, 0x62, &[0xb5, 0x62]), vec![0xb5]].concat(),
        {
            let mut x = frame(6, 1, &[0xb5, 0x62, 1, 0, 0, 0, 1, 3]);
            x[4] = 2;
            [x, frame(5, 0, &[1, 1])].concat()
        },
    ];
    let per = 48u64 * 48;
    c.all("all-cut-pairs", "three fixed streams, every pair of cut positions, and iterator abandonment after 0, 1 or all results; non-trivial: two proper cuts", base.len() as u64 * per * 3, |i, o| {
        let d = &base[(i / (per * 3)) as usize];
        let k = i % (per * 3);
        let take = [0usize, 1, usize::MAX][(k / per) as usize];
        let (a, b) = ((k % per / 48) as usize, (k % 48) as usize);
        if a > b || b > d.len() {
            return Ok(());
        }
        c01_check(&Feed { data: d.clone(), chunks: vec![(a, take), (b - a, take), (d.len() - b, usize::MAX)], tail: vec![] }, o)
    });
}

fn c02_check(f: &Feed, o: &mut Obs) -> Res {
    let (want, rest) = reference(&f.data);
    let waiting = f.data.len() - rest;
    for it in &want {
        match it {
            Item::Frame { .. } => o.class("frame"),
            Item::Bad { .. } => o.class("checksum error"),
            _ => (),
        }
    }
    if !want.is_empty() {
        o.nt();
    }
    let (a, p) = one_shot(&f.data)?;
    o.check();
    ensure!(a == want, "framing", "against the framing rules: {}", diff(&a, &want));
    ensure!(p.buffer_len() == waiting, "waiting", "{} bytes wait, expected {}", p.buffer_len(), waiting);
    let mut pb = Parser::<Vec<u8>>::default();
    let mut b = vec![];
    let mut at = 0;
    for (n, _) in &f.chunks {
        feed(&mut pb, &f.data[at..at + n], usize::MAX, &mut b).map_err(|m| Fail { sig: "results-unbounded".into(), msg: m })?;
        at += n;
        let (w, r) = reference(&f.data[..at]);
        let _ = w;
        ensure!(pb.buffer_len() == at - r, "waiting", "{} bytes wait after {} bytes, expected {}", pb.buffer_len(), at, at - r);
        ensure!(pb.buffer_len() < MAX_PAYLOAD + 8, "retains-too-much", "{} bytes kept", pb.buffer_len());
    }
    ensure!(b == want, "framing-chunked", "against the framing rules: {}", diff(&b, &want));
    Ok(())
}

#[derive(Clone, Debug, Hash)]
struct Damage {
    a: Vec<u8>,
    b: Vec<u8>,
    c: Vec<u8>,
    pos: usize,
    bit: u8,
}

pub fn c02(c: &mut Ctx) {
    c.sub(
        "reference",
        "segment-structured streams against an independent recogniser, at once and in chunks; non-trivial: at least one frame or checksum error",
        c.n(60_000, 2_000_000),
        |g| {
            let mut f = gen_feed(g, true, false);
            if f.chunks.len() > 200 {
                f.chunks = vec![(f.data.len(), usize::MAX)];
            }
            f
        },
        c02_check,
    );
    c.sub(
        "noise",
        "short streams over the alphabet {sync1, sync2, 0, 1, 2, small} so that syncs and lengths overlap; non-trivial: at least one frame or checksum error",
        c.n(150_000, 4_000_000),
        |g| {
            let data = g.list(0, 60, 24, |g| match g.weighted(&[3, 3, 4, 2, 1]) {
                0 => 0xb5,
                1 => 0x62,
                2 => 0,
                3 => g.below(4) as u8,
                _ => g.byte(),
            });
            let n = data.len();
            Feed { data, chunks: vec![(n / 2, usize::MAX), (n - n / 2, usize::MAX)], tail: vec![] }
        },
        c02_check,
    );
    c.sub(
        "long",
        "streams of up to 200 000 bytes (runs of noise and of sync bytes, repeated and large frames, damage near the end of large frames) against the recogniser, at once and in few chunks; non-trivial as before",
        c.n(1000, 40_000),
        |g| {
            let mut f = gen_long(g, false);
            while f.chunks.len() > 10 {
                let x = f.chunks.pop().unwrap().0;
                f.chunks[9].0 += x;
            }
            f
        },
        c02_check,
    );
    // damage inside one frame of three costs at most that frame and is reported
    c.sub(
        "resync",
        "three frames free of sync bytes, one bit of the middle one flipped outside its length field; the outer frames must be delivered and a flip in class, id, payload or checksum must give exactly one checksum error naming the stored and the computed value; non-trivial: always",
        c.n(40_000, 1_000_000),
        |g| {
            let mut mk = |g: &mut Gen| {
                let n = g.range(0, 40);
                let p: Vec<u8> = (0..n).map(|_| g.upto(0x61) as u8).collect();
                frame(g.upto(0x60) as u8, g.upto(0x60) as u8, &p)
            };
            let (a, b, c) = (mk(g), mk(g), mk(g));
            let mut pos = g.below(b.len());
            if pos == 4 || pos == 5 {
                pos = 2;
            }
            Damage { a, b, c, pos, bit: g.below(8) as u8 }
        },
        |d, o| {
            let mut b = d.b.clone();
            b[d.pos] ^= 1 << d.bit;
            let clean = |f: &[u8]| !f[2..].contains(&0xb5);
            if !clean(&d.a) || !clean(&b) || !clean(&d.c) || (d.pos < 2 && b[..2].iter().filter(|x| **x == 0xb5).count() > 1) {
                return Ok(());
            }
            o.nt();
            o.class(match d.pos {
                0 | 1 => "sync",
                2 | 3 => "class/id",
                p if p + 2 >= b.len() => "checksum",
                _ => "payload",
            });
            let (r, _) = one_shot(&[d.a.clone(), b.clone(), d.c.clone()].concat())?;
            let fr = |f: &[u8]| Item::Frame { class: f[2], id: f[3], payload: f[6..f.len() - 2].to_vec() };
            let mut want = vec![fr(&d.a)];
            if d.pos >= 2 {
                let n = b.len();
                let (x, y) = fletcher(&b[2..n - 2]);
                want.push(Item::Bad { expect: u16::from_le_bytes([b[n - 2], b[n - 1]]), got: u16::from_le_bytes([x, y]) });
            }
            want.push(fr(&d.c));
            ensure!(r == want, "resync", "{}", diff(&r, &want));
            Ok(())
        },
    );
    // every length around the limit
    let lens: Vec<usize> = (0..=70).chain(8100..=8300).chain([9000, 16384, 32767, 32768, 65535]).collect();
    let lens = &lens;
    c.all("lengths", "every declared length 0..=70, 8100..=8300 and some large: a complete frame of that length followed by a short one; non-trivial: always", lens.len() as u64 * 3, |i, o| {
        let n = lens[(i / 3) as usize];
        o.nt();
        let p: Vec<u8> = (0..n).map(|k| (k * 7 % 96) as u8).collect();
        let mut f = frame(0x77, 0x01, &p);
        if i % 3 == 1 {
            let k = f.len() - 1;
            f[k] ^= 0x40;
        }
        let data = [f, frame(5, 1, &[6, 0])].concat();
        let len = data.len();
        let cut = if i % 3 == 2 { len - 9 } else { 3 };
        c02_check(&Feed { data, chunks: vec![(cut, usize::MAX), (len - cut, usize::MAX)], tail: vec![] }, o)
    });
}

#[derive(Clone, Debug, Hash)]
struct Fixed {
    cap: usize,
    data: Vec<u8>,
    chunks: Vec<usize>,
}
fn c03_check(f: &Fixed, o: &mut Obs) -> Res {
    const PAD: usize = 64;
    let mut mem = vec![0xa7u8; f.cap + 2 * PAD];
    let (mut oom, mut frames, mut split) = (0, 0, 0);
    {
        let store = FixedLinearBuffer::new(&mut mem[PAD..PAD + f.cap]);
        let mut p = Parser::new(store);
        let mut m = FixedModel::new(f.cap);
        let mut at = 0;
        for n in &f.chunks {
            let chunk = &f.data[at..at + n];
            at += n;
            if p.buffer_len() > 0 && *n > 0 {
                split += 1;
            }
            let bound = p.buffer_len() + n + 2;
            m.push(chunk);
            let mut it = p.consume(chunk);
            let mut k = 0;
            loop {
                let r = it.next().map(item);
                match &r {
                    Some(Item::Oom { .. }) => oom += 1,
                    Some(Item::Frame { .. }) => frames += 1,
                    _ => (),
                }
                if let Err(e) = m.observe(r.as_ref()) {
                    return fail("fixed-parser", format!("capacity {}, after {} bytes: {e}", f.cap, at));
                }
                if r.is_none() {
                    break;
                }
                k += 1;
                ensure!(k <= bound, "results-unbounded", "more than {bound} results");
            }
            drop(it);
            o.check();
            ensure!(p.buffer_len() <= f.cap, "beyond-capacity", "{} bytes stored in {}", p.buffer_len(), f.cap);
            ensure!(p.buffer_len() == m.waiting(), "waiting", "{} bytes wait, expected {}", p.buffer_len(), m.waiting());
        }
    }
    if frames > 0 && (split > 0 || oom > 0) {
        o.nt();
    }
    if oom > 0 {
        o.class("out of memory reported");
    }
    if frames > 0 {
        o.class("frame delivered");
    }
    if oom > 0 && frames > 0 {
        o.class("both");
    }
    ensure!(mem[..PAD].iter().chain(&mem[PAD + f.cap..]).all(|x| *x == 0xa7), "memory-outside", "memory outside the given slice was written");
    Ok(())
}

pub fn c03(c: &mut Ctx) {
    let mk = |g: &mut Gen, big: bool| {
        let data = stream(g, 16, big);
        let chunks = cuts(g, data.len());
        let cap = match g.weighted(&[6, 4, 3, if big { 2 } else { 0 }]) {
            0 => g.range(6, 40),
            1 => g.range(6, 120),
            2 => {
                // near the length of some frame in the stream
                let (it, _) = reference(&data);
                let l: Vec<usize> = it.iter().filter_map(|i| if let Item::Frame { payload, .. } = i { Some(payload.len() + 8) } else { None }).collect();
                if l.is_empty() {
                    8
                } else {
                    (*g.pick(&l) + g.below(5)).saturating_sub(2).max(6)
                }
            },
            _ => g.range(6, 8200),
        };
        Fixed { cap, data, chunks }
    };
    c.sub(
        "fixed",
        "segment-structured streams, capacities 6.. (biased to the lengths of the frames present), cut at random, always drained; each observed result is judged by a model that permits an out-of-memory report only for a frame longer than the store; canaries around the slice; non-trivial: a frame is delivered and either a frame crosses chunks or an out-of-memory report occurs",
        c.n(60_000, 2_500_000),
        move |g| mk(g, false),
        c03_check,
    );
    c.sub("fixed-big", "the same with frames up to the largest length; non-trivial as before", c.n(8_000, 300_000), move |g| mk(g, true), c03_check);
    c.sub(
        "long",
        "streams of up to 200 000 bytes through stores of up to 9000 bytes, in few chunks; non-trivial as before",
        c.n(1000, 40_000),
        |g| {
            let data = long_stream(g);
            let chunks = few_cuts(g, data.len());
            let cap = match g.weighted(&[2, 2, 1]) {
                0 => g.range(6, 9000),
                1 => 8184 + g.below(20) - 10,
                _ => g.range(6, 200),
            };
            Fixed { cap, data, chunks }
        },
        c03_check,
    );
    c.sub(
        "drip",
        "streams of up to 12 000 bytes in thousands of chunks of a few bytes; non-trivial as before",
        c.n(500, 20_000),
        |g| {
            let (data, chunks) = drip(g);
            let cap = if g.bool() { g.range(6, 300) } else { g.range(6, 9000) };
            Fixed { cap, data, chunks }
        },
        c03_check,
    );
    // every capacity x every cut of a small stream
    let d = [frame(5, 1, &[6, 1]), frame(1, 0x61, &[1, 2, 3, 4, 5, 6, 7, 8]), frame(9, 9, &[])].concat();
    let d = &d;
    let n = d.len() as u64 + 1;
    c.all("all-caps-cuts", "a stream of three frames, every capacity 6..=30, every pair of cuts; non-trivial as before", 25 * n * n, |i, o| {
        let cap = 6 + (i / (n * n)) as usize;
        let (a, b) = ((i / n % n) as usize, (i % n) as usize);
        if a > b {
            return Ok(());
        }
        c03_check(&Fixed { cap, data: d.clone(), chunks: vec![a, b - a, d.len() - b] }, o)
    });
}

// ------------------------------------------------------------------------------------------------ C04

/// A growable store that counts the work done on it and refuses to work forever.
struct Fuel {
    v: Vec<u8>,
    cap: usize,
    left: Rc<Cell<u64>>,
}
impl Fuel {
    fn burn(&self, n: usize) {
        let l = self.left.get();
        if l < n as u64 + 1 {
            panic!("work budget used up");
        }
        self.left.set(l - n as u64 - 1);
    }
}
impl core::ops::Index<usize> for Fuel {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        self.burn(0);
        &self.v[i]
    }
}
impl core::ops::Index<core::ops::Range<usize>> for Fuel {
    type Output = [u8];
    fn index(&self, i: core::ops::Range<usize>) -> &[u8] {
        self.burn(i.len());
        &self.v[i]
    }
}
impl UnderlyingBuffer for Fuel {
    fn clear(&mut self) {
        self.burn(0);
        self.v.clear()
    }
    fn len(&self) -> usize {
        self.burn(0);
        self.v.len()
    }
    fn max_capacity(&self) -> usize {
        self.cap
    }
    fn extend_from_slice(&mut self, o: &[u8]) -> usize {
        self.burn(o.len());
        let n = o.len().min(self.cap - self.v.len());
        self.v.extend_from_slice(&o[..n]);
        o.len() - n
    }
    fn drain(&mut self, n: usize) {
        self.burn(self.v.len());
        let n = n.min(self.v.len());
        self.v.drain(..n);
    }
}

#[derive(Clone, Debug, Hash)]
struct Hostile {
    feed: Feed,
    cap: usize,
}

/// Signature of a panic. Undefined UART mode words (see KNOWN_FINDINGS.txt) are told apart by the input.
pub fn panic_sig(name: &str, pl: &[u8], what: &str) -> String {
    if name == "CfgPrtUart" && ["mode", "debug", "json"].contains(&what) && uart_parts(le(&pl[4..8])).is_none() {
        return "CfgPrtUart-mode-undefined-bits".into();
    }
    format!("panic:{name}.{what}")
}
/// Every accessor, list element, debug and serialised form of a delivered packet.
fn exercise(p: &PacketRef, o: &mut Obs) -> Res {
    let mut first: Res = Ok(());
    for r in exercise_all(p, o) {
        let known = |r: &Res| matches!(r, Err(f) if !f.sig.starts_with("panic:") && !f.sig.starts_with("error:"));
        if first.is_ok() || (known(&first) && !known(&r)) {
            first = r;
        }
    }
    first
}
fn exercise_all(p: &PacketRef, o: &mut Obs) -> Vec<Res> {
    let mut out = vec![];
    let (name, pl) = crate::access::raw_of(p);
    if let Some(fs) = crate::access::fields_of(p) {
        for (n, t) in fs {
            o.check();
            if let Err(e) = t {
                out.push(fail(panic_sig(name, pl, n), format!("accessor {n} of {name} panicked: {e}; payload {:02x?}", pl)));
            }
        }
    }
    for alt in [false, true] {
        if let Err(e) = guard(|| if alt { format!("{p:#?}") } else { format!("{p:?}") }) {
            out.push(fail(panic_sig(name, pl, "debug"), format!("Debug of {name} panicked: {e}; payload {:02x?}", pl)));
        }
    }
    // the quantities computed from it
    let derived = guard(|| match p {
        PacketRef::NavPosLlh(r) => format!("{:?}", Position::from(r)),
        PacketRef::NavHpPosLlh(r) => format!("{:?}", Position::from(r)),
        PacketRef::NavHpPosEcef(r) => format!("{:?}", PositionECEF::from(r)),
        PacketRef::NavVelNed(r) => format!("{:?}", Velocity::from(r)),
        PacketRef::NavPvt(r) => format!("{:?} {:?} {:?}", Position::from(r), Velocity::from(r), chrono::DateTime::<chrono::Utc>::try_from(r).map_err(|e| e.to_string())),
        _ => String::new(),
    });
    if let Err(e) = derived {
        out.push(fail(panic_sig(name, pl, "derived"), format!("a quantity computed from {name} panicked: {e}; payload {:02x?}", pl)));
    }
    match guard(|| serde_json::to_string(p).map(|s| s.len())) {
        Err(e) => out.push(fail(panic_sig(name, pl, "json"), format!("serialising {name} panicked: {e}; payload {:02x?}", pl))),
        Ok(Err(e)) => out.push(fail(format!("error:{name}.json"), format!("serialising {name} failed: {e}"))),
        Ok(Ok(_)) => (),
    }
    out
}

fn c04_stream(h: &Hostile, o: &mut Obs) -> Res {
    let f = &h.feed;
    let n = f.data.len() as u64 + 64;
    let budget = n * n * 40 + 200_000;
    for capped in [false, true] {
        let left = Rc::new(Cell::new(budget));
        let mut p = Parser::new(Fuel { v: vec![], cap: if capped { h.cap } else { usize::MAX }, left: left.clone() });
        let mut at = 0;
        let mut items = 0;
        for (n, take) in &f.chunks {
            let mut it = p.consume(&f.data[at..at + n]);
            at += n;
            let mut k = 0;
            while k < *take {
                match it.next() {
                    None => break,
                    Some(_) => items += 1,
                }
                k += 1;
                ensure!(items <= f.data.len() + 1, "results-unbounded", "more results than bytes");
            }
        }
        let spent = budget - left.get();
        o.class(match spent as f64 / n as f64 {
            x if x < 100.0 => "work per byte < 100",
            x if x < 10_000.0 => "work per byte < 10000",
            _ => "work per byte >= 10000",
        });
    }
    // the real stores, everything delivered is exercised
    let mut p = Parser::<Vec<u8>>::default();
    let mut mem = vec![0u8; h.cap];
    let mut q = Parser::new(FixedLinearBuffer::new(&mut mem));
    let mut at = 0;
    for (n, take) in &f.chunks {
        let chunk = &f.data[at..at + n];
        at += n;
        let mut it = p.consume(chunk);
        let mut k = 0;
        while k < *take {
            match it.next() {
                None => break,
                Some(Ok(x)) => {
                    if !matches!(x, PacketRef::Unknown(_)) {
                        o.nt();
                    }
                    exercise(&x, o)?
                },
                Some(Err(e)) => {
                    let _ = (e.to_string(), format!("{e:?}"));
                },
            }
            k += 1;
        }
        drop(it);
        let mut it = q.consume(chunk);
        let mut k = 0;
        while k < *take {
            match it.next() {
                None => break,
                Some(Ok(x)) => exercise(&x, o)?,
                Some(Err(_)) => (),
            }
            k += 1;
            ensure!(k <= f.data.len() + 1, "results-unbounded", "more results than bytes");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Hash)]
pub struct OnePayload {
    pub pkt: &'static str,
    pub class: u8,
    pub id: u8,
    pub payload: Vec<u8>,
}
pub fn with_packet<R>(class: u8, id: u8, payload: &[u8], f: impl FnOnce(&PacketRef) -> R) -> Result<R, Fail> {
    let fr = frame(class, id, payload);
    let mut p = Parser::<Vec<u8>>::default();
    let mut it = p.consume(&fr);
    match it.next() {
        Some(Ok(x)) => Ok(f(&x)),
        r => fail("not-delivered", format!("frame {class:#04x}/{id:#04x} with {} payload bytes was not delivered: {r:?}", payload.len())),
    }
}
pub fn gen_one(g: &mut Gen, pk: &'static Pkt, damage: bool) -> OnePayload {
    OnePayload { pkt: pk.name, class: pk.class, id: pk.id, payload: payload(g, pk, damage) }
}

fn deep_run(root: &str, unit: &[u8], len: usize, chunk: usize, store: &str) -> Result<usize, String> {
    use std::process::*;
    let hex: String = unit.iter().map(|b| format!("{b:02x}")).collect();
    let mut ch = Command::new(format!("{root}/.build/deep/deep"))
        .args([&hex, &len.to_string(), &chunk.to_string(), store])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("harness: deep");
    let t0 = std::time::Instant::now();
    loop {
        match ch.try_wait().expect("harness: deep") {
            Some(st) => {
                let mut s = String::new();
                std::io::Read::read_to_string(&mut ch.stdout.take().unwrap(), &mut s).unwrap();
                return match st.code() {
                    Some(0) => Ok(s.trim().parse().expect("harness: deep output")),
                    Some(3) => Err("a panic".into()),
                    _ => Err(format!("{st}: the stack is used up or the process was ended")),
                };
            },
            None if t0.elapsed().as_secs() > 120 => {
                ch.kill().ok();
                ch.wait().ok();
                return Err("no end within 120 s".into());
            },
            None => std::thread::sleep(std::time::Duration::from_millis(5)),
        }
    }
}
fn deep(root: &str, replay: Option<serde_json::Value>, long: usize, seed: u64, o: &mut Obs) -> Vec<(serde_json::Value, Fail)> {
    use serde_json::json;
    let b = std::process::Command::new("cargo")
        .args(["build", "--offline", "--profile", "deep", "--no-default-features", "--features", "std,alloc", "--bin", "deep"])
        .current_dir(format!("{root}/harness"))
        .env("CARGO_TARGET_DIR", format!("{root}/.build"))
        .output()
        .expect("harness: cargo");
    if !b.status.success() {
        eprintln!("HARNESS ERROR: the unoptimised parser does not build:\n{}", String::from_utf8_lossy(&b.stderr));
        std::process::exit(2);
    }
    // (unit, length, chunk, store)
    let mut cases: Vec<(Vec<u8>, usize, usize, String)> = vec![];
    if let Some(r) = replay {
        let u = r["unit"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        cases.push((u, r["length"].as_u64().unwrap() as usize, r["chunk"].as_u64().unwrap() as usize, r["store"].as_str().unwrap().into()));
    } else {
        let mut bad = frame(1, 2, &[1, 2, 3]);
        bad[7] ^= 1;
        let mut units: Vec<Vec<u8>> = vec![
            vec![0xb5],
            vec![0xb5, 0xb5, 0x62],
            vec![0xb5, 0x62],
            vec![0],
            vec![0xb5, 0],
            vec![0xb5, 0x62, 1, 2, 0xff, 0xff],
            frame(0xf0, 0xf0, &[]),
            frame(5, 1, &[6, 1]),
            bad,
            [vec![0xb5, 0x62, 1, 2, 9, 0], frame(9, 9, &[0])].concat(),
        ];
        let mut r = crate::gen::Rng::new(seed);
        for _ in 0..6 {
            let mut g = Gen::fresh(&mut r);
            let mut u = segment(&mut g, false, 2);
            u.truncate(200);
            if !u.is_empty() {
                units.push(u);
            }
        }
        for u in units {
            for (chunk, store) in [(long, "vec"), (long, "64"), (1000, "vec"), (1000, "64")] {
                // a frame that claims much and is wrong costs its length at every step
                let cost = u.chunks(6).filter(|x| x.len() == 6 && x[..2] == [0xb5, 0x62] && x[5] > 4 && x[5] < 32).count();
                cases.push((u.clone(), if cost > 0 { 50_000 } else { long }, chunk, store.into()));
            }
        }
    }
    let next = std::sync::atomic::AtomicUsize::new(0);
    let fails = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some((u, len, chunk, store)) = cases.get(k) else { return };
                let want = |len: usize| {
                    let d: Vec<u8> = u.iter().copied().cycle().take(len).collect();
                    reference(&d).0.len()
                };
                let judge = |len: usize| match deep_run(root, u, len, *chunk, store) {
                    Err(e) => Some(e),
                    Ok(n) if store == "vec" && n != want(len) => Some(format!("{n} results instead of {}", want(len))),
                    Ok(_) => None,
                };
                let Some(mut e) = judge(*len) else { continue };
                // the shortest stream that fails
                let (mut lo, mut hi) = (0, *len);
                while lo + 1 < hi && !e.starts_with("no end") {
                    let mid = lo + (hi - lo) / 2;
                    match judge(mid) {
                        Some(x) => {
                            hi = mid;
                            e = x;
                        },
                        None => lo = mid,
                    }
                }
                fails.lock().unwrap().push((k, json!({"unit": u, "length": hi, "chunk": chunk, "store": store}), Fail { sig: "unoptimised".into(), msg: format!("{hi} bytes repeating {u:02x?} in chunks of {chunk} (store {store}): {e}") }));
            });
        }
    });
    for c in &cases {
        o.check();
        o.count(c, true);
    }
    let mut f = fails.into_inner().unwrap();
    f.sort_by_key(|x| x.0);
    f.into_iter().map(|x| (x.1, x.2)).collect()
}

pub fn c04(c: &mut Ctx) {
    c.sub(
        "streams",
        "hostile streams in random chunks (iterators abandoned at random) through a work-counting store with a polynomial budget, the growable and the fixed parser (capacity 4..), exercising every accessor of everything delivered; non-trivial: a typed packet was delivered",
        c.n(25_000, 1_200_000),
        |g| {
            let feed = gen_feed(g, true, true);
            let cap = match g.weighted(&[3, 3, 1]) {
                0 => g.range(4, 40),
                1 => g.range(4, 400),
                _ => g.range(4, 9000),
            };
            Hostile { feed, cap }
        },
        c04_stream,
    );
    c.sub(
        "long",
        "the same with streams of up to 200 000 bytes: runs of noise and of sync bytes, repeated and large frames, headers that each claim the rest; non-trivial as before",
        c.n(600, 20_000),
        |g| {
            let feed = gen_long(g, true);
            let cap = if g.bool() { g.range(4, 400) } else { g.range(4, 9000) };
            Hostile { feed, cap }
        },
        c04_stream,
    );
    let root = c.root().to_string();
    let replay = c.replay_value().cloned();
    let (long, seed) = (if c.thorough { 4_000_000 } else { 1_000_000 }, c.seed);
    c.stage(
        "unoptimised",
        "streams of up to a million bytes (four million in the thorough tier) repeating one unit (sync bytes, noise, good, damaged and over-long frames) through an unoptimised build of the parser on a two megabyte stack: it must come to an end by itself with the recogniser's number of results; non-trivial: always",
        move |o| deep(&root, replay, long, seed, o),
    );
    let r = reachable();
    c.sub(
        "payloads",
        "for each message type a payload of its shape or nearly so, arbitrary content; every accessor, list element, debug and JSON form of what is delivered is produced; non-trivial: a typed packet was delivered",
        c.n(120_000, 4_000_000),
        |g| {
            let pk = *g.pick(&r);
            let d = g.chance(60);
            gen_one(g, pk, d)
        },
        |p, o| {
            let mut typed = false;
            let r = with_packet(p.class, p.id, &p.payload, |x| {
                typed = !matches!(x, PacketRef::Unknown(_));
                exercise(x, o)
            })?;
            if typed {
                o.nt();
                o.class(p.pkt);
            }
            r
        },
    );
    c.sub(
        "random-payloads",
        "for each message type uniformly random payload bytes of any length near the expected one; non-trivial: a typed packet was delivered",
        c.n(120_000, 4_000_000),
        |g| {
            let pk = *g.pick(&r);
            let n = match pk.fixed {
                Some(n) if g.chance(200) => n,
                _ => g.range(0, pk.min + 70),
            };
            let mut payload = g.bytes(n);
            // satisfy selectors often
            for f in pk.fields {
                if let Map::Enum(e) = f.map {
                    if e.rest == Rest::Error && f.off < n && g.chance(200) {
                        payload[f.off] = e.variants[g.below(e.variants.len())].1 as u8;
                    }
                }
            }
            OnePayload { pkt: pk.name, class: pk.class, id: pk.id, payload }
        },
        |p, o| {
            let mut typed = false;
            let r = with_packet(p.class, p.id, &p.payload, |x| {
                typed = !matches!(x, PacketRef::Unknown(_));
                exercise(x, o)
            })?;
            if typed {
                o.nt();
                o.class(p.pkt);
            }
            r
        },
    );
}

// ------------------------------------------------------------------------------------------------ C05

fn c05_check(class: u8, id: u8, pl: &[u8], o: &mut Obs) -> Res {
    let want = classify(class, id, pl);
    let has_type = dispatched().iter().any(|p| p.class == class && p.id == id);
    if has_type {
        o.nt();
    }
    o.class(match (want, has_type) {
        (Some(_), _) => "typed",
        (None, true) => "malformed for its type",
        (None, false) => "no such type",
    });
    o.check();
    with_packet(class, id, pl, |p| {
        let (name, bytes) = crate::access::raw_of(p);
        let want_name = want.map(|p| p.name).unwrap_or("Unknown");
        ensure!(name == want_name, "dispatch", "{class:#04x}/{id:#04x} with {} bytes {:02x?}: delivered as {name}, expected {want_name}", pl.len(), &pl[..pl.len().min(64)]);
        ensure!(bytes == pl, "payload-bytes", "{name}: payload bytes differ");
        ensure!(p.class_and_msg_id() == (class, id), "class-id", "{name}: class and id {:?}, on the wire {:?}", p.class_and_msg_id(), (class, id));
        if let PacketRef::Unknown(u) = p {
            ensure!(u.class == class && u.msg_id == id && u.payload == pl, "unknown-fields", "Unknown carries {:?}/{:?}", u.class, u.msg_id);
        }
        Ok(())
    })?
}

pub fn c05(c: &mut Ctx) {
    let r = dispatched();
    c.sub(
        "types",
        "for each type a payload of its shape, slightly damaged, or of nearby length, against the golden acceptance predicate; non-trivial: the class and id belong to a known type",
        c.n(250_000, 8_000_000),
        |g| {
            let pk = *g.pick(&r);
            let d = g.bool();
            let mut p = gen_one(g, pk, d);
            if g.chance(20) {
                // the payload of one type under the name of another
                let q = *g.pick(&r);
                p.class = q.class;
                p.id = q.id;
            }
            p
        },
        |p, o| c05_check(p.class, p.id, &p.payload, o),
    );
    c.all("all-ids", "all 65536 class/id pairs with an empty payload and with zero payloads of three lengths; non-trivial: known type", 65536 * 4, |i, o| {
        let n = [0usize, 4, 20, 28][(i % 4) as usize];
        let k = i / 4;
        c05_check((k >> 8) as u8, k as u8, &vec![0; n], o)
    });
    // every length around each type's, zero and patterned content
    let r = &r;
    c.all("all-lengths", "each type, every payload length 0..=160 with zero and with repeating content; non-trivial: known type", r.len() as u64 * 161 * 2, |i, o| {
        let p = r[(i / 322) as usize];
        let n = (i % 322 / 2) as usize;
        let pl: Vec<u8> = if i % 2 == 0 { vec![0; n] } else { (0..n).map(|k| (k % 29) as u8).collect() };
        c05_check(p.class, p.id, &pl, o)
    });
    // every value of every byte of a zero payload of each fixed-size type
    let mut idx = vec![];
    for p in r {
        if let Some(n) = p.fixed {
            for k in 0..n {
                idx.push((*p, k));
            }
        }
    }
    let idx = &idx;
    c.all("all-byte-values", "each fixed-size type, each payload byte set to each of 256 values in an otherwise acceptable payload; non-trivial: known type", idx.len() as u64 * 256, |i, o| {
        let (p, k) = idx[(i / 256) as usize];
        let mut pl = vec![0u8; p.fixed.unwrap()];
        for f in p.fields {
            if let Map::Enum(e) = f.map {
                if e.rest == Rest::Error {
                    pl[f.off] = e.variants[0].1 as u8;
                }
            }
        }
        pl[k] = (i % 256) as u8;
        c05_check(p.class, p.id, &pl, o)
    });
}

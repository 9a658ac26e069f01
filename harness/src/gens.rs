//! Generators of byte streams, payloads and builder values.
use crate::emit::Fv;
use crate::gen::Gen;
use crate::model::frame;
use crate::spec::*;

/// A byte stream made of meaningful pieces.
pub fn stream(g: &mut Gen, max_seg: usize, big: bool) -> Vec<u8> {
    let mut out = vec![];
    let segs = g.list(0, max_seg, 6, |g| segment(g, big, 0));
    for s in segs {
        out.extend_from_slice(&s);
    }
    out
}

fn payload_len(g: &mut Gen, big: bool) -> usize {
    match g.weighted(&[20, 20, 6, if big { 2 } else { 0 }, if big { 1 } else { 0 }]) {
        0 => g.range(0, 4),
        1 => g.range(0, 40),
        2 => g.range(0, 300),
        3 => g.range(0, 8176),
        _ => 8170 + g.range(0, 6),
    }
}

fn any_frame(g: &mut Gen, big: bool, depth: u32) -> Vec<u8> {
    match g.weighted(&[6, 6, 2, 2]) {
        0 => {
            let n = payload_len(g, big);
            let (c, i) = (g.byte(), g.byte());
            let p = g.bytes(n);
            frame(c, i, &p)
        },
        1 => {
            let d = dispatched();
            let p = *g.pick(&d);
            let pl = payload(g, p, false);
            frame(p.class, p.id, &pl)
        },
        2 if depth < 2 => {
            // a frame carrying a stream
            let mut inner = segment(g, false, depth + 1);
            inner.truncate(4000);
            let (c, i) = (g.byte(), g.byte());
            frame(c, i, &inner)
        },
        _ => {
            let n = g.range(0, 12);
            let p: Vec<u8> = (0..n).map(|_| *g.pick(&[0xb5u8, 0x62, 0, 1, 2, 0xff])).collect();
            let (c, i) = (*g.pick(&[1u8, 0xb5, 0x62, 5]), *g.pick(&[1u8, 0xb5, 0x62, 0]));
            frame(c, i, &p)
        },
    }
}

pub fn segment(g: &mut Gen, big: bool, depth: u32) -> Vec<u8> {
    match g.weighted(&[30, 10, 8, 8, 5, 8, 8, 3, 6, 2, 3]) {
        0 => any_frame(g, big, depth),
        8 => {
            // a checksum that some other reading of the protocol would take
            let mut f = any_frame(g, big, depth);
            miscount(g, &mut f);
            f
        },
        9 => {
            // another sync pair, the rest intact
            let mut f = any_frame(g, big, depth);
            match g.below(4) {
                0 => f[0] = g.byte(),
                1 => f.swap(0, 1),
                _ => f[1] = g.byte(),
            }
            f
        },
        10 => foreign(g, depth),
        1 => {
            // flipped bit(s)
            let mut f = any_frame(g, big, depth);
            let i = g.below(f.len());
            f[i] ^= 1 << g.below(8);
            f
        },
        2 => {
            let mut f = any_frame(g, big, depth);
            let n = g.below(f.len());
            f.truncate(n);
            f
        },
        3 => {
            // wrong length field, checksum right or wrong for it
            let mut f = any_frame(g, big, depth);
            let n = f.len() - 8;
            let lie = match g.below(5) {
                0 => n.saturating_sub(1 + g.below(3)),
                1 => n + 1 + g.below(8),
                2 => g.range(0, 8178),
                3 => *g.pick(&[8175usize, 8176, 8177, 8178, 65535, 0]),
                _ => g.upto(65535) as usize,
            };
            f[4] = lie as u8;
            f[5] = (lie >> 8) as u8;
            if g.bool() {
                let e = f.len() - 2;
                let (a, b) = crate::model::fletcher(&f[2..e]);
                f[e] = a;
                f[e + 1] = b;
            }
            f
        },
        4 => {
            // a lying length that nevertheless ends on a matching checksum
            let n = g.range(0, 30);
            let p = g.bytes(n);
            let (c, i) = (g.byte(), g.byte());
            let mut f = frame(c, i, &p);
            let extra = g.range(0, 6);
            let m = g.bytes(extra);
            f.extend_from_slice(&m);
            f
        },
        5 => {
            let n = g.range(0, 12);
            g.bytes(n)
        },
        6 => {
            let n = g.range(0, 10);
            (0..n).map(|_| *g.pick(&[0xb5u8, 0x62, 0, 0xb5])).collect()
        },
        _ => {
            // declared length beyond the largest supported one
            let n = 8177 + match g.below(3) {
                0 => g.below(4),
                1 => g.below(65535 - 8177),
                _ => 65535 - 8177 - g.below(3),
            };
            let (c, i) = (g.byte(), g.byte());
            let mut v = vec![0xb5, 0x62, c, i, n as u8, (n >> 8) as u8];
            let k = g.range(0, 20);
            let t = g.bytes(k);
            v.extend_from_slice(&t);
            v
        },
    }
}

/// Changes an intact frame so that its checksum is wrong in one of the ways in which sums are mistaken for right.
pub fn miscount(g: &mut Gen, f: &mut Vec<u8>) {
    use crate::model::fletcher;
    let e = f.len() - 2;
    let (a, b) = (f[e], f[e + 1]);
    let (x, y) = match g.below(14) {
        0 => (0, 0),
        1 => (0xff, 0xff),
        2 => (b, a),
        3 => (a, g.byte()),
        4 => (g.byte(), b),
        5 => (!a, !b),
        6 => (a, 0),
        7 => (0, b),
        8 => fletcher(&f[..e]),
        9 => fletcher(&f[6..e]),
        10 => fletcher(&f[2..e - 1]),
        11 => {
            // the sum modulo 255
            let (mut x, mut y) = (0u32, 0u32);
            for v in &f[2..e] {
                x = (x + *v as u32) % 255;
                y = (y + x) % 255;
            }
            (x as u8, y as u8)
        },
        12 => {
            // bytes exchanged: the first sum stays
            if e > 4 {
                let (i, j) = (g.range(2, e - 1), g.range(2, e - 1));
                if !(4..6).contains(&i) && !(4..6).contains(&j) {
                    f.swap(i, j);
                }
            }
            (a, b)
        },
        _ => (a.wrapping_add(*g.pick(&[0u8, 1, 0xff])), b.wrapping_add(*g.pick(&[1u8, 0xff, 0x80]))),
    };
    f[e] = x;
    f[e + 1] = y;
}
/// What else is on such a line: sentences of text, correction messages, and both with UBX frames inside.
fn foreign(g: &mut Gen, depth: u32) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    let inside = |g: &mut Gen| if depth < 2 && g.chance(40) { any_frame(g, false, depth + 1) } else { vec![] };
    if g.chance(60) {
        let t: &str = g.pick(&["$GNGGA,092725.00,4717.11399,N,00833.91590,E,1,08,1.01,499.6,M,48.0,M,,*5B", "$GPTXT,01,01,02,u-blox ag - www.u-blox.com*50", "$", "!AIVDM,1,1,,A,14eG;o@034o8sd<L9i:a;WF>062D,0*7D", "$PUBX,00"]);
        v.extend_from_slice(t.as_bytes());
        v.extend(inside(g));
        if g.chance(70) {
            v.extend_from_slice(b"\r\n");
        }
    } else {
        let mut p = inside(g);
        let n = g.range(0, 30);
        p.extend(g.bytes(n));
        v.extend_from_slice(&[0xd3, (p.len() >> 8) as u8, p.len() as u8]);
        v.extend(p);
        v.extend(g.bytes(3));
    }
    v
}

/// Content that is there before something is appended: mostly none or little, rarely a lot.
pub fn existing(g: &mut Gen) -> Vec<u8> {
    let n = match g.weighted(&[450, 530, 12, 6, 2]) {
        0 => 0,
        1 => g.range(0, 24),
        2 => g.range(200, 1100),
        3 => *g.pick(&[255usize, 256, 4096, 8184, 32768, 65535, 65536, 131072]) + g.below(17) - 8,
        _ => g.range(0, 200_000),
    };
    g.bytes(n)
}
/// Items of a configuration set: mostly few, sometimes hundreds, rarely as many as a frame can carry.
pub fn cfg_items(g: &mut Gen, item: fn(&mut Gen) -> (usize, u64), width: fn(usize) -> usize) -> Vec<(usize, u64)> {
    let n = match g.weighted(&[960, 34, 6]) {
        0 => return g.list(0, 64, 6, item),
        1 => g.range(40, 400),
        _ => g.range(400, 11_000),
    };
    // one choice for the whole content
    let mut r = crate::gen::Rng::new(g.upto(u32::MAX as u64));
    let mut v = vec![];
    let mut bytes = 4;
    for _ in 0..n {
        let it = item(&mut Gen::plain(&mut r));
        bytes += 4 + width(it.0);
        if bytes > 65535 {
            break;
        }
        v.push(it);
    }
    v
}

/// Chunk lengths adding up to `total`.
pub fn cuts(g: &mut Gen, total: usize) -> Vec<usize> {
    let mut v = vec![];
    match g.weighted(&[3, 3, 4, 2]) {
        0 => {
            // everything at once
            v.push(total);
        },
        1 => {
            let k = 1 + g.below(9);
            let mut left = total;
            while left > 0 {
                let n = k.min(left);
                v.push(n);
                left -= n;
            }
        },
        2 => {
            let k = g.list(1, 40, 6, |g| g.upto(u16::MAX as u64) as usize);
            let mut pts: Vec<usize> = k.into_iter().map(|x| if total == 0 { 0 } else { x * (total + 1) >> 16 }).collect();
            pts.sort();
            let mut at = 0;
            for p in pts {
                v.push(p - at);
                at = p;
            }
            v.push(total - at);
        },
        _ => {
            // small pieces first, then the rest, with empty pieces
            let mut left = total;
            while left > 0 && v.len() < 64 {
                let n = g.below(24).min(left);
                v.push(n);
                left -= n;
            }
            v.push(left);
        },
    }
    v
}

/// Streams far longer than any buffer: runs of noise, of sync bytes, of repeated and large frames.
pub fn long_stream(g: &mut Gen) -> Vec<u8> {
    let k = g.range(1, 5);
    let mut out = vec![];
    for _ in 0..k {
        let n = match g.weighted(&[4, 3, 2, 1]) {
            0 => g.range(0, 300),
            1 => g.range(1000, 9000),
            2 => *g.pick(&[1024usize, 2048, 4096, 8192, 16384, 32768, 65536]) + g.below(33) - 16,
            _ => g.range(9000, 70_000),
        };
        let rep = |u: &[u8]| -> Vec<u8> { u.iter().copied().cycle().take(n).collect() };
        let seg = match g.weighted(&[4, 2, 1, 2, 3, 2, 2, 6, 6, 1]) {
            0 => g.fill(n).into_iter().map(|x| x & 0x7f).collect(),
            1 => rep(&[0xb5]),
            2 => rep(&[0xb5, 0x62]),
            3 => g.fill(n),
            4 => {
                let f = any_frame(g, false, 2);
                let c = n.div_ceil(f.len()).min(3000);
                f.repeat(c)
            },
            5 => {
                let mut f = any_frame(g, false, 2);
                let i = f.len() - 1 - g.below(f.len() - 6);
                f[i] ^= 1 << g.below(8);
                let c = n.div_ceil(f.len()).min(1000);
                f.repeat(c)
            },
            6 => {
                let l = 8177 + g.below(65536 - 8177);
                rep(&[0xb5, 0x62, 1, 2, l as u8, (l >> 8) as u8])
            },
            7 => {
                // large frames, half of them damaged by one bit anywhere
                let m = if g.bool() { g.range(300, 8176) } else { 8176 - g.below(12) };
                let (c, i) = (g.byte(), g.byte());
                let p = g.fill(m);
                let mut f = frame(c, i, &p);
                if g.bool() {
                    let at = if g.bool() { f.len() - 1 - g.below(40) } else { g.below(f.len()) };
                    f[at] ^= 1 << g.below(8);
                }
                f
            },
            8 => segment(g, true, 0),
            _ => {
                // every header claims the rest
                let l = 8176 - g.below(300);
                let mut v = rep(&[0xb5, 0x62, 1, 2, l as u8, (l >> 8) as u8]);
                v.truncate(11_000);
                v
            },
        };
        out.extend(seg);
    }
    out.truncate(200_000);
    out
}
/// A stream of some thousand bytes and very many small chunks of it.
pub fn drip(g: &mut Gen) -> (Vec<u8>, Vec<usize>) {
    let mut d = if g.bool() { long_stream(g) } else { (0..3).flat_map(|_| stream(g, 24, true)).collect() };
    let from = if d.len() > 12_000 { g.below(d.len() - 12_000) } else { 0 };
    d.drain(..from);
    d.truncate(12_000);
    let most = *g.pick(&[1u64, 2, 3, 3, 8, 40]);
    let mut r = crate::gen::Rng::new(g.upto(u32::MAX as u64));
    let mut v = vec![];
    let mut left = d.len();
    while left > 0 {
        let n = (1 + r.next() % most) as usize;
        v.push(n.min(left));
        left -= n.min(left);
    }
    (d, v)
}
/// Few chunks.
pub fn few_cuts(g: &mut Gen, total: usize) -> Vec<usize> {
    let k = match g.weighted(&[2, 4, 3]) {
        0 => return vec![total],
        1 => {
            let m = g.range(1, 3);
            let mut pts: Vec<usize> = (0..m).map(|_| g.upto(total as u64) as usize).collect();
            pts.sort();
            let mut v = vec![];
            let mut at = 0;
            for p in pts {
                v.push(p - at);
                at = p;
            }
            v.push(total - at);
            return v;
        },
        _ => match g.below(3) {
            0 => *g.pick(&[255usize, 256, 1024, 4095, 4096, 4097, 8184, 65536]),
            1 => g.range(500, 9000),
            _ => g.range(9000, 70_000),
        },
    };
    let k = k.max(total / 60 + 1);
    let mut v = vec![];
    let mut left = total;
    while left > 0 {
        v.push(k.min(left));
        left -= k.min(left);
    }
    v
}

/// Bytes of one field.
fn field(g: &mut Gen, f: &Field) -> Vec<u8> {
    match f.map {
        Map::Enum(e) if f.size == 1 => {
            let c = if e.rest == Rest::Error || g.chance(160) { e.variants[g.below(e.variants.len())].1 } else { g.upto(255) };
            vec![c as u8]
        },
        Map::Cstr => cstring(g, f.size),
        Map::OptStr => g.bytes(f.size),
        _ => match f.ty {
            Ty::Bytes(n) => g.bytes(n),
            Ty::F32 => (float(g, true) as f32).to_le_bytes().to_vec(),
            Ty::F64 => float(g, false).to_le_bytes().to_vec(),
            _ => g.int(8 * f.size as u32).to_le_bytes()[..f.size].to_vec(),
        },
    }
}
pub fn float(g: &mut Gen, single: bool) -> f64 {
    match g.weighted(&[4, 4, 1]) {
        0 => (g.upto(2000) as f64 - 1000.0) / 8.0,
        1 => {
            if single {
                f32::from_bits(g.upto(u32::MAX as u64) as u32) as f64
            } else {
                f64::from_bits(g.upto(u64::MAX))
            }
        },
        _ => *g.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE]),
    }
}
fn cstring(g: &mut Gen, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(n);
    let want = match g.below(3) {
        0 => g.below(n),
        1 => n - 1,
        _ => g.below(4).min(n - 1),
    };
    while v.len() < want {
        let left = want - v.len();
        match g.weighted(&[8, 1, 1, 1, 1, 1]) {
            1 if left >= 2 => v.extend_from_slice("é".as_bytes()),
            2 if left >= 3 => v.extend_from_slice("€".as_bytes()),
            3 if left >= 4 => v.extend_from_slice("🛰".as_bytes()),
            4 => v.push(1 + g.below(127) as u8),
            5 => {
                let mut t = [0; 4];
                let t = char::from_u32(1 + g.upto(0x10fffe) as u32).unwrap_or('\u{7f}').encode_utf8(&mut t).as_bytes();
                if t.len() <= left {
                    v.extend_from_slice(t);
                }
            },
            _ => v.push(32 + g.below(95) as u8),
        }
    }
    v.push(0);
    // behind the terminator anything may follow
    let junk = g.bool();
    while v.len() < n {
        v.push(if junk { g.byte() } else { 0 });
    }
    v
}

/// A payload of the shape of message `p` (a valid one; with `damage`, one that is likely slightly wrong).
pub fn payload(g: &mut Gen, p: &Pkt, damage: bool) -> Vec<u8> {
    let mut v = vec![];
    for f in p.fields {
        if f.size > 0 {
            v.extend(field(g, f));
            continue;
        }
        match f.map {
            Map::List(ListKind::NavSat) => block(g, &mut v, 12),
            Map::List(ListKind::RxmRawx) => block(g, &mut v, 32),
            Map::List(ListKind::EsfRaw) => block(g, &mut v, 8),
            Map::List(ListKind::Dwrd) => block(g, &mut v, 4),
            Map::List(ListKind::MonVer) => {
                let k = g.list(0, 12, 3, |g| cstring(g, 30));
                v.extend(k.concat());
            },
            Map::List(ListKind::EsfMeas) => {
                let w = le(&v[4..6]);
                let n = (w >> 11 & 31) as usize * 4;
                let b = g.bytes(n);
                v.extend(b);
            },
            Map::OptU32 => {
                let n = if v[4] & 8 != 0 { 4 } else { 0 };
                let b = g.bytes(n);
                v.extend(b);
                if g.chance(40) {
                    let k = 4 * g.below(4);
                    let x = g.bytes(k);
                    v.extend(x);
                }
            },
            Map::OptStr | Map::None => {
                let n = match g.weighted(&[4, 4, 1]) {
                    0 => g.range(0, 8),
                    1 => g.range(0, 120),
                    _ => g.range(0, 1200),
                };
                if g.bool() {
                    let mut s = String::new();
                    while s.len() < n.min(200) {
                        s.push(*g.pick(&['a', 'Z', '\n', 'ü', '→', '😀', '"', '\\', '\0', ' ']));
                    }
                    v.extend(s.as_bytes());
                } else {
                    let b = g.bytes(n);
                    v.extend(b);
                }
            },
            _ => panic!("harness: variable field {} of {}", f.name, p.name),
        }
    }
    if damage {
        match g.below(6) {
            0 => {
                let n = g.range(0, v.len());
                v.truncate(n);
            },
            1 => {
                let k = 1 + g.below(33);
                let b = g.bytes(k);
                v.extend(b);
            },
            2 if !v.is_empty() => {
                v.pop();
            },
            3 if !v.is_empty() => {
                let i = g.below(v.len());
                v[i] = g.byte();
            },
            4 if !v.is_empty() => {
                // favour the checked positions
                let fs: Vec<&Field> = p.fields.iter().filter(|f| matches!(f.map, Map::Enum(_) | Map::Cstr)).collect();
                if !fs.is_empty() {
                    let f = *g.pick(&fs);
                    if matches!(f.map, Map::Cstr) {
                        let fillz = g.bool();
                        for b in &mut v[f.off..f.off + f.size] {
                            if *b == 0 && fillz {
                                *b = b'x';
                            }
                        }
                        let i = f.off + g.below(f.size);
                        v[i] = g.byte();
                    } else {
                        v[f.off] = g.byte();
                    }
                }
            },
            _ => {
                let b = g.byte();
                v.push(b);
            },
        }
    }
    v.truncate(8176);
    v
}
fn block(g: &mut Gen, v: &mut Vec<u8>, k: usize) {
    let n = if g.chance(20) { g.range(0, (8000 - v.len()) / k) } else { g.range(0, 9) };
    let b = g.bytes(n * k);
    v.extend(b);
}

// ------------------------------------------------------------------------------------------------ builders

/// Values for every field of a builder.
pub fn values(g: &mut Gen, p: &Pkt) -> Vec<Fv> {
    p.fields.iter().map(|f| value(g, f)).collect()
}
pub fn value(g: &mut Gen, f: &Field) -> Fv {
    match f.map {
        Map::Enum(e) => Fv::Raw(e.variants[g.below(e.variants.len())].1),
        Map::Float { single, scale } => Fv::Float(scaled(g, f, single, scale).to_bits()),
        Map::Flags(_) => Fv::Raw(g.int(8 * f.size as u32)),
        Map::Custom(Custom::UartMode) => Fv::Parts(vec![g.below(2) as u32, g.below(3) as u32, g.below(4) as u32]),
        Map::Custom(Custom::CfgItfmConfig) => {
            let (bb, cw) = (g.upto(15) as u32, g.upto(31) as u32);
            Fv::Parts(vec![g.below(2) as u32, bb, cw])
        },
        Map::Custom(Custom::CfgItfmConfig2) => Fv::Parts(vec![g.below(3) as u32, g.below(2) as u32]),
        Map::None => match f.ty {
            Ty::Bytes(n) => Fv::Bytes(g.bytes(n)),
            Ty::F32 | Ty::F64 => panic!("harness: raw float builder field"),
            _ => Fv::Raw(g.int(8 * f.size as u32)),
        },
        _ => panic!("harness: builder field {}", f.name),
    }
}
pub fn limits(f: &Field) -> (i128, i128) {
    match f.ty {
        Ty::U8 => (0, 255),
        Ty::I8 => (-128, 127),
        Ty::U16 => (0, 65535),
        Ty::I16 => (-32768, 32767),
        Ty::U32 => (0, u32::MAX as i128),
        Ty::I32 => (i32::MIN as i128, i32::MAX as i128),
        _ => panic!("harness: limits"),
    }
}
/// A physical value for a scaled field: on the grid, between grid points, at and beyond the limits, extreme.
pub fn scaled(g: &mut Gen, f: &Field, single: bool, scale: f64) -> f64 {
    let (lo, hi) = limits(f);
    let raw = match g.weighted(&[3, 5, 3, 2]) {
        0 => (g.upto(20) as i128 - 10).clamp(lo, hi),
        1 => lo + g.upto((hi - lo) as u64) as i128,
        2 => {
            if g.bool() {
                hi - g.upto(3) as i128
            } else {
                lo + g.upto(3) as i128
            }
        },
        _ => {
            // beyond
            let k = 1 + g.upto(1 << 20) as i128;
            if g.bool() {
                hi + k
            } else {
                lo - k
            }
        },
    };
    let frac = match g.weighted(&[4, 3, 2]) {
        0 => 0.0,
        1 => (g.upto(1000) as f64 - 500.0) / 1000.0,
        _ => *g.pick(&[0.49, -0.49, 0.25, -0.25, 0.4999, 0.5, -0.5]),
    };
    let x = match g.weighted(&[20, 1]) {
        0 => (raw as f64 + frac) * scale,
        _ => *g.pick(&[1e30, -1e30, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE]),
    };
    if single {
        x as f32 as f64
    } else {
        x
    }
}

//! C18: byte stores against an ideal byte queue.
use crate::driver::*;
use crate::ensure;
use crate::gen::Gen;
use crate::gens::*;
use crate::model::*;
use std::collections::VecDeque;
use std::ops::Range;
use ublox::*;

#[derive(Clone, Debug, Hash)]
pub enum Op {
    Extend(Vec<u8>),
    Drain(usize),
    Clear,
    Find(u8),
    At(usize),
    Slice(usize, usize),
}
#[derive(Clone, Debug, Hash)]
pub struct History {
    cap: usize,
    ops: Vec<Op>,
}
/// A user's own store: the default search and emptiness of the trait are used.
pub struct Own(Vec<u8>, usize);
impl std::ops::Index<usize> for Own {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        &self.0[i]
    }
}
impl std::ops::Index<Range<usize>> for Own {
    type Output = [u8];
    fn index(&self, i: Range<usize>) -> &[u8] {
        &self.0[i]
    }
}
impl UnderlyingBuffer for Own {
    fn clear(&mut self) {
        self.0.truncate(0)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn max_capacity(&self) -> usize {
        self.1
    }
    fn extend_from_slice(&mut self, o: &[u8]) -> usize {
        let n = o.len().min(self.1 - self.0.len());
        self.0.extend(&o[..n]);
        o.len() - n
    }
    fn drain(&mut self, n: usize) {
        let n = n.min(self.0.len());
        self.0.rotate_left(n);
        let k = self.0.len() - n;
        self.0.truncate(k);
    }
}

fn gen_history(g: &mut Gen) -> History {
    let cap = match g.below(6) {
        0 => g.below(3),
        1 => g.range(3, 12),
        2 | 3 => g.range(4, 48),
        4 => g.range(40, 140),
        _ => g.range(100, 700),
    };
    let mut len = 0usize;
    let ops = g.list(1, 60, 16, |g| {
        let near = |g: &mut Gen, x: usize| match g.below(6) {
            0 => 0,
            1 => x,
            2 => x.saturating_sub(1),
            3 => x + 1,
            4 => g.range(0, x + 2),
            _ => g.range(0, x.max(1)),
        };
        match g.weighted(&[9, 6, 1, 3, 3, 3]) {
            0 => {
                let n = near(g, cap.saturating_sub(len));
                let n = if g.chance(30) { n + g.below(20) } else { n };
                len = (len + n).min(cap);
                // few distinct values, so that searches find something
                Op::Extend(if g.bool() { g.bytes(n) } else { (0..n).map(|i| (i % 5) as u8).collect() })
            },
            1 => {
                let n = near(g, len);
                len = len.saturating_sub(n);
                Op::Drain(if g.chance(6) { usize::MAX - g.below(3) } else { n })
            },
            2 => {
                len = 0;
                Op::Clear
            },
            3 => Op::Find(if g.bool() { g.below(6) as u8 } else { g.byte() }),
            4 => Op::At(near(g, len)),
            _ => {
                let b = near(g, len);
                let a = if g.chance(20) { near(g, len) } else { g.range(0, b) };
                Op::Slice(a, b)
            },
        }
    });
    History { cap, ops }
}

/// Stores as large as a read of a serial port or a long message and beyond, with content that is mostly one byte.
fn gen_large(g: &mut Gen) -> History {
    let cap = match g.below(4) {
        0 => g.range(200, 1300),
        1 => g.range(1000, 9000),
        2 => g.range(8000, 70_000),
        _ => (1usize << g.range(8, 16)) + g.below(3) - 1,
    };
    let base = *g.pick(&[0u8, 0xb5, 0xff, 1]);
    let mut len = 0usize;
    let ops = g.list(1, 10, 16, |g| match g.weighted(&[8, 4, 8, 3, 3]) {
        0 => {
            let room = cap.saturating_sub(len);
            let n = match g.below(4) {
                0 => room,
                1 => room + g.below(3),
                2 => room / 2,
                _ => g.range(0, room),
            };
            let mut v = vec![base; n];
            for _ in 0..g.below(4) {
                if n > 0 {
                    let i = if g.bool() { n - 1 - g.below(n.min(4)) } else { g.below(n) };
                    v[i] = *g.pick(&[7u8, 0x62, 0xb5, 0xfe]);
                }
            }
            len = (len + n).min(cap);
            Op::Extend(v)
        },
        1 => {
            let n = if g.chance(40) { len } else { g.range(0, len) };
            len -= n;
            Op::Drain(n)
        },
        2 => Op::Find(*g.pick(&[7u8, 0x62, 0xb5, 0xfe, 0xff, 0])),
        3 => Op::At(g.range(0, len + 1)),
        _ => {
            let b = g.range(0, len + 1);
            Op::Slice(g.range(b.saturating_sub(40), b), b)
        },
    });
    History { cap, ops }
}

fn drive<T: UnderlyingBuffer>(kind: &str, b: &mut T, cap: usize, max: usize, ops: &[Op], o: &mut Obs) -> Res {
    let mut m: VecDeque<u8> = VecDeque::new();
    for (k, op) in ops.iter().enumerate() {
        let at = |what: &str| format!("{kind}, capacity {cap}, operation {k} ({op:?}): {what}");
        match op {
            Op::Extend(d) => {
                let fit = d.len().min(cap - m.len());
                m.extend(&d[..fit]);
                let r = guard(|| b.extend_from_slice(d)).map_err(|e| Fail { sig: format!("{kind}:append-panic"), msg: at(&e) })?;
                ensure!(r == d.len() - fit, format!("{kind}:append"), "{}", at(&format!("reports {r} bytes not taken, expected {}", d.len() - fit)));
                if r > 0 {
                    o.class("append into a full store");
                }
            },
            Op::Drain(n) => {
                if *n > 0 && *n < m.len() {
                    o.class("partial removal");
                    o.nt();
                }
                m.drain(..(*n).min(m.len()));
                guard(|| b.drain(*n)).map_err(|e| Fail { sig: format!("{kind}:drain-panic"), msg: at(&e) })?;
            },
            Op::Clear => {
                m.clear();
                b.clear();
            },
            Op::Find(v) => {
                let want = m.iter().position(|x| x == v);
                let got = guard(|| b.find(*v)).map_err(|e| Fail { sig: format!("{kind}:find-panic"), msg: at(&e) })?;
                ensure!(got == want, format!("{kind}:find"), "{}", at(&format!("found at {got:?}, expected {want:?}")));
                o.class(if want.is_some() { "search that finds" } else { "search that does not" });
            },
            Op::At(i) => {
                let got = guard(|| b[*i]).ok();
                ensure!(got == m.get(*i).copied(), format!("{kind}:read"), "{}", at(&format!("reads {got:?}, expected {:?}", m.get(*i))));
                if *i >= m.len() {
                    o.class("read past the content");
                }
            },
            Op::Slice(x, y) => {
                let want = if x <= y && *y <= m.len() { Some(m.iter().copied().skip(*x).take(y - x).collect::<Vec<u8>>()) } else { None };
                let got = guard(|| b[*x..*y].to_vec()).ok();
                ensure!(got == want, format!("{kind}:slice"), "{}", at(&format!("reads {got:?}, expected {want:?}")));
                if want.is_none() {
                    o.class("slice past the content");
                }
            },
        }
        o.check();
        ensure!(b.len() == m.len(), format!("{kind}:len"), "{}", at(&format!("length {} expected {}", b.len(), m.len())));
        ensure!(b.is_empty() == m.is_empty(), format!("{kind}:is_empty"), "{}", at("wrong emptiness"));
        ensure!(b.max_capacity() == max, format!("{kind}:capacity"), "{}", at(&format!("capacity {}", b.max_capacity())));
        let all = guard(|| &b[0..m.len()]).map_err(|e| Fail { sig: format!("{kind}:content"), msg: at(&e) })?;
        let (x, y) = m.as_slices();
        ensure!(all.len() == m.len() && all[..x.len()] == *x && all[x.len()..] == *y, format!("{kind}:content"), "{}", at(&format!("content {all:?} expected {m:?}")));
    }
    Ok(())
}
fn canary(i: usize) -> u8 {
    (i as u8).wrapping_mul(37) ^ 0xc5
}
fn history_check(h: &History, o: &mut Obs) -> Res {
    const PAD: usize = 256;
    let mut mem: Vec<u8> = (0..h.cap + 2 * PAD).map(canary).collect();
    {
        let mut b = FixedLinearBuffer::new(&mut mem[PAD..PAD + h.cap]);
        drive("FixedLinearBuffer", &mut b, h.cap, h.cap, &h.ops, o)?;
    }
    for (i, b) in mem.iter().enumerate() {
        ensure!((PAD..PAD + h.cap).contains(&i) || *b == canary(i), "FixedLinearBuffer:outside", "byte {} relative to the slice (length {}) was written", i as isize - PAD as isize, h.cap);
    }
    drive("Vec", &mut Vec::new(), usize::MAX, usize::MAX, &h.ops, o)?;
    drive("own", &mut Own(vec![], h.cap), h.cap, h.cap, &h.ops, o)
}

/// small histories, decoded from an index: capacities 0..=3, operations over at most 3 bytes
fn small_op(k: u64, n: &mut u8) -> Op {
    match k {
        0..=2 => {
            let d = (0..k + 1).map(|_| {
                *n += 1;
                *n
            });
            Op::Extend(d.collect())
        },
        3..=6 => Op::Drain(k as usize - 3),
        7 => Op::Clear,
        8..=10 => Op::At(k as usize - 8),
        11 => Op::Slice(1, 2),
        12 => Op::Slice(0, 3),
        13 => Op::Slice(2, 1),
        _ => Op::Find(*n),
    }
}

pub fn c18(c: &mut Ctx) {
    c.sub(
        "histories",
        "operation sequences (appends around the free space, removals around the length and far beyond it, reads and slices around the end, searches) on a fixed store of every capacity class, a growable store and a store with the trait's default methods, against a queue, with canaries on both sides of the slice; non-trivial: part of the content is removed from the front",
        c.n(400_000, 12_000_000),
        gen_history,
        history_check,
    );
    c.sub(
        "large-stores",
        "up to 16 such operations on stores of 200 to 70 000 bytes (a quarter of them a power of two, more or less one), with content that is one repeated byte but for a few, most of them near the ends of what is appended; non-trivial: a removal leaves some bytes in the store",
        c.n(40_000, 800_000),
        gen_large,
        history_check,
    );
    const K: u64 = 15;
    let len = if c.thorough { 6 } else { 4 };
    let n = K.pow(len) * 5;
    c.all("all-short-histories", "every sequence of 4 (thorough: 6) operations out of 15 (appends of 1..=3 bytes, removals of 0..=3, clear, reads, slices, a search) on stores of capacity 0..=4; non-trivial: part of the content is removed from the front", n, |i, o| {
        let cap = (i % 5) as usize;
        let mut x = i / 5;
        let mut v = 0;
        let mut ops = vec![];
        for _ in 0..len {
            ops.push(small_op(x % K, &mut v));
            x /= K;
        }
        history_check(&History { cap, ops }, o)
    });
    c.sub(
        "parser-over-own-store",
        "streams in chunks through a parser over a user-written store with the trait's default methods, against the growable one; non-trivial: at least one result",
        c.n(60_000, 2_000_000),
        |g| {
            let d = stream(g, 12, false);
            let c = cuts(g, d.len());
            (d, c)
        },
        |(d, cs), o| {
            let mut a = Parser::<Vec<u8>>::default();
            let mut b = Parser::new(Own(vec![], 1 << 20));
            let (mut x, mut y) = (vec![], vec![]);
            let mut at = 0;
            for n in cs {
                feed(&mut a, &d[at..at + n], usize::MAX, &mut x).map_err(|m| Fail { sig: "own-parser".into(), msg: m })?;
                feed(&mut b, &d[at..at + n], usize::MAX, &mut y).map_err(|m| Fail { sig: "own-parser".into(), msg: m })?;
                at += n;
            }
            if !x.is_empty() {
                o.nt();
            }
            o.check();
            ensure!(x == y, "own-parser", "a parser over an own store gives {y:?}, over Vec {x:?}");
            Ok(())
        },
    );
}

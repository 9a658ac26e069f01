//! C27: the parser over byte stores of a user's own.
use crate::driver::*;
use crate::ensure;
use crate::gen::Gen;
use crate::gens::*;
use crate::model::*;
use std::cell::Cell;
use std::ops::Range;
use std::rc::Rc;
use ublox::*;

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
enum Layout {
    /// content at the start of the memory
    Front,
    /// content at the end of the memory
    Back,
    /// content stays where it is until room is needed
    Lazy,
    /// content moves to other memory whenever it is changed
    Moving,
    /// content in the middle of memory, kept in pieces no caller can see
    Middle,
}
const LAYOUTS: [Layout; 5] = [Layout::Front, Layout::Back, Layout::Lazy, Layout::Moving, Layout::Middle];

/// A store that keeps the contract of `UnderlyingBuffer` and nothing more. What is not content is filled with bytes that
/// look like frames.
struct Mem {
    layout: Layout,
    v: Vec<u8>,
    head: usize,
    len: usize,
    /// what it says it can hold; as much as that
    cap: usize,
    outside: Rc<Cell<usize>>,
}
/// From here on a store grows as it is filled.
const VAST: usize = 1 << 20;
const LURE: [u8; 8] = [0xb5, 0x62, 5, 1, 2, 0, 6, 1];
impl Mem {
    fn new(layout: Layout, cap: usize, outside: Rc<Cell<usize>>) -> Mem {
        let mut m = Mem { layout, v: vec![], head: 0, len: 0, cap, outside };
        let room = if cap >= VAST { 8 } else { cap };
        m.place(&[], room);
        m
    }
    /// Puts the content into fresh memory of that size.
    fn place(&mut self, content: &[u8], room: usize) {
        let slack = if self.layout == Layout::Middle { 16 } else { 0 };
        let mut v: Vec<u8> = LURE.iter().copied().cycle().take(room + 2 * slack).collect();
        self.head = match self.layout {
            Layout::Back => room - content.len(),
            Layout::Middle => slack,
            _ => 0,
        };
        self.len = content.len();
        v[self.head..self.head + self.len].copy_from_slice(content);
        self.v = v;
    }
    fn content(&self) -> &[u8] {
        &self.v[self.head..self.head + self.len]
    }
    fn one(&self, i: usize) -> &u8 {
        if i >= self.len {
            self.outside.set(self.outside.get() + 1);
            panic!("byte {i} of {} read", self.len);
        }
        &self.v[self.head + i]
    }
    fn many(&self, r: Range<usize>) -> &[u8] {
        if r.start > r.end || r.end > self.len {
            self.outside.set(self.outside.get() + 1);
            panic!("bytes {r:?} of {} read", self.len);
        }
        &self.v[self.head + r.start..self.head + r.end]
    }
    fn extend(&mut self, d: &[u8]) -> usize {
        let n = d.len().min(self.cap - self.len);
        let want = self.len + n;
        let lazy = self.layout == Layout::Lazy && self.head + want <= self.v.len();
        if lazy {
            let e = self.head + self.len;
            self.v[e..e + n].copy_from_slice(&d[..n]);
            self.len = want;
        } else {
            let mut c = self.content().to_vec();
            c.extend_from_slice(&d[..n]);
            let room = if self.cap >= VAST { (2 * want).max(8) } else { self.cap };
            self.place(&c, room);
        }
        d.len() - n
    }
    fn remove(&mut self, n: usize) {
        let n = n.min(self.len);
        if self.layout == Layout::Lazy {
            for b in 0..n {
                self.v[self.head + b] = LURE[b % 8];
            }
            self.head += n;
            self.len -= n;
        } else {
            let c = self.content()[n..].to_vec();
            let room = if self.cap >= VAST { (2 * c.len()).max(8) } else { self.cap };
            self.place(&c, room);
        }
    }
}
/// The methods of the trait that have a default are left to it.
struct Least(Mem);
/// Every method is the store's own.
struct Full(Mem);
macro_rules! store {
    ($t:ident, $($more:tt)*) => {
        impl std::ops::Index<usize> for $t {
            type Output = u8;
            fn index(&self, i: usize) -> &u8 {
                self.0.one(i)
            }
        }
        impl std::ops::Index<Range<usize>> for $t {
            type Output = [u8];
            fn index(&self, r: Range<usize>) -> &[u8] {
                self.0.many(r)
            }
        }
        impl UnderlyingBuffer for $t {
            fn clear(&mut self) {
                self.0.remove(usize::MAX)
            }
            fn len(&self) -> usize {
                self.0.len
            }
            fn max_capacity(&self) -> usize {
                self.0.cap
            }
            fn extend_from_slice(&mut self, d: &[u8]) -> usize {
                self.0.extend(d)
            }
            fn drain(&mut self, n: usize) {
                self.0.remove(n)
            }
            $($more)*
        }
    };
}
store!(Least,);
store!(
    Full,
    fn find(&self, x: u8) -> Option<usize> {
        self.0.content().iter().position(|b| *b == x)
    }
    fn is_empty(&self) -> bool {
        self.0.len == 0
    }
);

#[derive(Clone, Debug, Hash)]
struct Plan {
    layout: Layout,
    full: bool,
    /// what the store says it can hold; from VAST on it grows
    cap: usize,
    data: Vec<u8>,
    /// how many of them the store holds before there is a parser
    already: usize,
    /// (length, how many results to take; MAX: all)
    chunks: Vec<(usize, usize)>,
}

#[derive(Debug, PartialEq)]
struct Told {
    items: Vec<Item>,
    /// after each chunk
    waiting: Vec<(usize, bool)>,
}
fn run<T: UnderlyingBuffer>(mut store: T, f: &Plan) -> Result<Told, Fail> {
    if f.already > 0 {
        store.extend_from_slice(&f.data[..f.already]);
    }
    let mut p = Parser::new(store);
    let mut t = Told { items: vec![], waiting: vec![(p.buffer_len(), p.is_buffer_empty())] };
    let mut at = f.already;
    for (n, take) in &f.chunks {
        feed(&mut p, &f.data[at..at + n], *take, &mut t.items).map_err(|m| Fail { sig: "results-unbounded".into(), msg: m })?;
        at += n;
        t.waiting.push((p.buffer_len(), p.is_buffer_empty()));
    }
    Ok(t)
}

fn check(f: &Plan, o: &mut Obs) -> Res {
    let outside = Rc::new(Cell::new(0));
    let m = Mem::new(f.layout, f.cap, outside.clone());
    let who = format!("a {:?} store ({}) of {} bytes", f.layout, if f.full { "its own search" } else { "default search" }, f.cap);
    let got = match guard(|| if f.full { run(Full(m), f) } else { run(Least(m), f) }) {
        Ok(r) => r?,
        Err(e) => return fail(if outside.get() > 0 { "reads-past-content" } else { "panic" }, format!("{who}: {e}")),
    };
    ensure!(outside.get() == 0, "reads-past-content", "{who}: bytes that are not content were read");
    let want = if f.cap >= VAST {
        run(Vec::new(), f)?
    } else {
        let mut mem = vec![0; f.cap];
        run(FixedLinearBuffer::new(&mut mem), f)?
    };
    o.check();
    if got.items != want.items {
        let k = got.items.iter().zip(&want.items).take_while(|(x, y)| x == y).count();
        return fail("results", format!("{who}: {} results, {} with the library's own store; first difference at {k}: {:?} vs {:?}", got.items.len(), want.items.len(), got.items.get(k), want.items.get(k)));
    }
    ensure!(got.waiting == want.waiting, "waiting", "{who}: (waiting, empty) after each chunk {:?}, with the library's own store {:?}", got.waiting, want.waiting);
    for (n, e) in &got.waiting {
        ensure!(*e == (*n == 0), "is_buffer_empty", "{who}: is_buffer_empty is {e} with {n} bytes");
        ensure!(*n <= f.cap, "beyond-capacity", "{who}: {n} bytes wait");
    }
    let all = f.chunks.iter().all(|c| c.1 == usize::MAX);
    let frames = got.items.iter().filter(|i| matches!(i, Item::Frame { .. })).count();
    if all && f.cap >= VAST {
        // and both are right
        let (r, _) = reference(&f.data);
        ensure!(got.items == r, "reference", "{who}: {} results, {} frames and faults are in the stream", got.items.len(), r.len());
    }
    if f.already > 0 {
        ensure!(got.waiting[0].0 == f.already, "content-beforehand", "{who}: {} bytes wait in a parser made over a store with {} bytes", got.waiting[0].0, f.already);
        o.class("store with content beforehand");
    }
    let crossing = got.waiting.iter().rev().skip(1).any(|w| w.0 > 0);
    if frames > 0 && crossing {
        o.nt();
    }
    if got.items.iter().any(|i| matches!(i, Item::Oom { .. })) {
        o.class("out of memory reported");
    }
    if !all {
        o.class("iterator abandoned");
    }
    o.class(format!("{:?}", f.layout));
    Ok(())
}

pub fn c27(c: &mut Ctx) {
    let plan = |g: &mut Gen, data: Vec<u8>, cuts: Vec<usize>, caps: usize| {
        let abandon = g.chance(80);
        let mut chunks: Vec<(usize, usize)> = cuts.into_iter().map(|n| (n, if abandon && g.chance(140) { g.below(4) } else { usize::MAX })).collect();
        let cap = match g.weighted(&[3, 4, 2]) {
            0 => *g.pick(&[usize::MAX, usize::MAX, usize::MAX - 1, usize::MAX - 9000, isize::MAX as usize, 1 << 63, 1 << 48, (1 << 32) + 40, 1 << 32, u32::MAX as usize, i32::MAX as usize, 1 << 31, 1 << 24, VAST]),
            1 => g.range(6, 60),
            _ => g.range(6, caps),
        };
        let mut already = 0;
        if g.chance(40) {
            for _ in 0..1 + g.below(3) {
                if chunks.first().is_some_and(|c| already + c.0 <= cap) {
                    already += chunks.remove(0).0;
                }
            }
            chunks.push((0, usize::MAX));
        }
        Plan { layout: *g.pick(&LAYOUTS), full: g.bool(), cap, data, already, chunks }
    };
    c.sub(
        "stores",
        "segment-structured streams cut at random, some results left unread, over stores that keep their content at the front, at the end, where it lies, in ever new memory or between decoys, growing (and stating any capacity from a mebibyte) or capped from 6 bytes, with and without methods of their own, empty or (one in six) with the start of the stream in them when the parser is made: the same results and waiting bytes as the library's own store of that capacity, no byte read that is not content; non-trivial: a frame is delivered and bytes wait between chunks",
        c.n(40_000, 2_000_000),
        move |g| {
            let big = g.one_in(12);
            let d = stream(g, 16, big);
            let k = cuts(g, d.len());
            plan(g, d, k, if big { 9000 } else { 300 })
        },
        check,
    );
    c.sub(
        "drip",
        "streams of up to 12 000 bytes in thousands of chunks of a few bytes; non-trivial as before",
        c.n(300, 12_000),
        move |g| {
            let (d, k) = drip(g);
            plan(g, d, k, 9000)
        },
        check,
    );
}

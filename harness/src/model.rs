//! Reference model of UBX framing over plain byte slices, written from the protocol description.
use ublox::{PacketRef, Parser, ParserError, UnderlyingBuffer};

pub const MAX_PAYLOAD: usize = 8176;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Frame { class: u8, id: u8, payload: Vec<u8> },
    Bad { expect: u16, got: u16 },
    Oom { required: usize },
    Other(String),
}

pub fn fletcher(b: &[u8]) -> (u8, u8) {
    let (mut x, mut y) = (0u32, 0u32);
    for v in b {
        x = (x + *v as u32) % 256;
        y = (y + x) % 256;
    }
    (x as u8, y as u8)
}

pub fn frame(class: u8, id: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![0xb5, 0x62, class, id, payload.len() as u8, (payload.len() >> 8) as u8];
    v.extend_from_slice(payload);
    let (a, b) = fletcher(&v[2..]);
    v.push(a);
    v.push(b);
    v
}

/// One step of the reference recogniser at the head of `d`.
enum Step {
    /// wait for more bytes; everything before this offset is noise
    Wait(usize),
    /// (item, bytes used)
    Got(Item, usize),
    Skip(usize),
}
fn step(d: &[u8]) -> Step {
    let s = match d.iter().position(|x| *x == 0xb5) {
        None => return Step::Wait(d.len()),
        Some(p) => p,
    };
    if s > 0 {
        return Step::Skip(s);
    }
    if d.len() < 2 {
        return Step::Wait(0);
    }
    if d[1] != 0x62 {
        return Step::Skip(1);
    }
    if d.len() < 6 {
        return Step::Wait(0);
    }
    let n = d[4] as usize + 256 * d[5] as usize;
    if n > MAX_PAYLOAD {
        return Step::Skip(2);
    }
    if d.len() < n + 8 {
        return Step::Wait(0);
    }
    let (a, b) = fletcher(&d[2..6 + n]);
    if (a, b) != (d[6 + n], d[7 + n]) {
        return Step::Got(Item::Bad { expect: u16::from_le_bytes([d[6 + n], d[7 + n]]), got: u16::from_le_bytes([a, b]) }, 2);
    }
    Step::Got(Item::Frame { class: d[2], id: d[3], payload: d[6..6 + n].to_vec() }, n + 8)
}

/// Everything a stream contains, and the offset of what stays waiting.
pub fn reference(d: &[u8]) -> (Vec<Item>, usize) {
    let mut p = 0;
    let mut out = vec![];
    loop {
        match step(&d[p..]) {
            Step::Wait(n) => return (out, p + n),
            Step::Skip(n) => p += n,
            Step::Got(i, n) => {
                out.push(i);
                p += n;
            },
        }
    }
}

pub fn item(r: Result<PacketRef, ParserError>) -> Item {
    match r {
        Ok(p) => {
            let (class, id) = p.class_and_msg_id();
            Item::Frame { class, id, payload: crate::access::raw_of(&p).1.to_vec() }
        },
        Err(ParserError::InvalidChecksum { expect, got }) => Item::Bad { expect, got },
        Err(ParserError::OutOfMemory { required_size }) => Item::Oom { required: required_size },
        Err(e) => Item::Other(format!("{e:?}")),
    }
}

/// Feeds one chunk and takes at most `max` results (usize::MAX: all). Fails when more results come than bytes.
pub fn feed<T: UnderlyingBuffer>(p: &mut Parser<T>, chunk: &[u8], max: usize, out: &mut Vec<Item>) -> Result<(), String> {
    let bound = p.buffer_len() + chunk.len() + 2;
    let mut it = p.consume(chunk);
    let mut k = 0;
    while k < max {
        match it.next() {
            None => break,
            Some(r) => out.push(item(r)),
        }
        k += 1;
        if k > bound {
            return Err(format!("more than {bound} results from {} bytes", bound - 2));
        }
    }
    Ok(())
}

/// What a parser over a store of `cap` bytes may do with a stream. The parser is followed result by result: `next`
/// returns whether the observed result is permitted and moves on.
///
/// The store limit may only show on a frame longer than the store: such a frame may be delivered whole or refused with
/// the size it needs; then parsing goes on behind its sync pair.
pub struct FixedModel {
    cap: usize,
    /// bytes seen so far and not yet consumed
    all: Vec<u8>,
    /// where the view starts in `all`
    at: usize,
}
impl FixedModel {
    pub fn new(cap: usize) -> Self {
        FixedModel { cap, all: vec![], at: 0 }
    }
    pub fn push(&mut self, d: &[u8]) {
        self.all.drain(..self.at);
        self.at = 0;
        self.all.extend_from_slice(d);
    }
    pub fn waiting(&self) -> usize {
        self.all.len() - self.at
    }
    pub fn waiting_bytes(&self) -> &[u8] {
        &self.all[self.at..]
    }
    fn drop_front(&mut self, n: usize) {
        self.at += n;
        assert!(self.at <= self.all.len(), "harness: model");
    }
    /// Checks one observed result (None: the iterator ended).
    pub fn observe(&mut self, got: Option<&Item>) -> Result<(), String> {
        loop {
            let st = step(self.waiting_bytes());
            match st {
                Step::Skip(n) => self.drop_front(n),
                Step::Wait(n) => {
                    self.drop_front(n);
                    let v = self.waiting_bytes();
                    // a frame announced but not complete: refusing it is right only if it cannot fit
                    if v.len() >= 6 && v[1] == 0x62 {
                        let n = v[4] as usize + 256 * v[5] as usize;
                        if n + 8 > self.cap {
                            return match got {
                                Some(Item::Oom { required }) if *required == n + 2 => {
                                    self.drop_front(2);
                                    Ok(())
                                },
                                None if v.len() <= self.cap => Ok(()),
                                None => Err(format!("ended with {} waiting bytes although only {} can be kept: bytes are lost silently", v.len(), self.cap)),
                                Some(x) => Err(format!("unexpected {x:?} while a frame of {} bytes is incomplete", n + 8)),
                            };
                        }
                    }
                    return match got {
                        None => Ok(()),
                        Some(x) => Err(format!("unexpected {x:?}; nothing complete is waiting")),
                    };
                },
                Step::Got(i, n) => {
                    let len = match &i {
                        Item::Frame { payload, .. } => payload.len() + 8,
                        _ => self.all[self.at + 4] as usize + 256 * self.all[self.at + 5] as usize + 8,
                    };
                    match got {
                        Some(g) if *g == i => {
                            self.drop_front(n);
                            return Ok(());
                        },
                        Some(Item::Oom { required }) if len > self.cap && *required == len - 6 => {
                            self.drop_front(2);
                            return Ok(());
                        },
                        None if len > self.cap && self.waiting() <= self.cap => return Ok(()),
                        _ => return Err(format!("expected {i:?} (frame of {len} bytes, capacity {}), got {got:?}", self.cap)),
                    }
                },
            }
        }
    }
}

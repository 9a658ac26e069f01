//! Generators draw choices from a tape. A fresh tape is filled from a seeded generator, a recorded tape is replayed and
//! shrunk (delete blocks of choices, move choices to zero), and a tape can be read from fuzzer bytes. Every choice is
//! "simplest at zero", so shrinking the tape shrinks the case.

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

enum Src<'a> {
    /// with the dictionary or without
    Rng(&'a mut Rng, bool),
    Tape(&'a [u64], usize),
    /// a tape which goes on at random
    Grown(&'a [u64], usize, &'a mut Rng),
    Bytes(&'a [u8], usize),
}
pub struct Gen<'a> {
    src: Src<'a>,
    pub tape: Vec<u64>,
}

impl<'a> Gen<'a> {
    pub fn fresh(r: &'a mut Rng) -> Self {
        Gen { src: Src::Rng(r, true), tape: vec![] }
    }
    /// for content that is made again from one choice, and must come out the same
    pub fn plain(r: &'a mut Rng) -> Self {
        Gen { src: Src::Rng(r, false), tape: vec![] }
    }
    pub fn replay(t: &'a [u64]) -> Self {
        Gen { src: Src::Tape(t, 0), tape: vec![] }
    }
    pub fn grown(t: &'a [u64], r: &'a mut Rng) -> Self {
        Gen { src: Src::Grown(t, 0, r), tape: vec![] }
    }
    pub fn from_bytes(b: &'a [u8]) -> Self {
        Gen { src: Src::Bytes(b, 0), tape: vec![] }
    }
    /// uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &mut self.src {
            Src::Rng(r, dict) => {
                let x = r.next();
                if *dict && max >= 16 && x & 31 == 0 {
                    if let Some(v) = crate::dict::word(r.next(), max) {
                        self.tape.push(v);
                        return v;
                    }
                }
                if *dict && max >= 16 && x & 31 == 1 {
                    // a value drawn a little earlier, the one beside it or its complement: cases in which two things agree
                    let k = r.next();
                    let n = self.tape.len();
                    let w = &self.tape[n.saturating_sub(24)..];
                    let near = w.iter().rev().filter(|v| **v >= 16 && **v <= max).nth((k >> 8) as usize % 6);
                    if let Some(v) = near {
                        let v = match k % 8 {
                            0 => v.saturating_add(1).min(max),
                            1 => v - 1,
                            2 => max - v,
                            _ => *v,
                        };
                        self.tape.push(v);
                        return v;
                    }
                }
                if max == u64::MAX {
                    x
                } else {
                    ((x as u128 * (max as u128 + 1)) >> 64) as u64
                }
            },
            Src::Tape(t, p) => {
                let x = t.get(*p).copied().unwrap_or(0);
                *p += 1;
                x.min(max)
            },
            Src::Grown(t, p, r) => {
                let x = t.get(*p).copied();
                *p += 1;
                match x {
                    Some(x) => x.min(max),
                    None if max == u64::MAX => r.next(),
                    None => ((r.next() as u128 * (max as u128 + 1)) >> 64) as u64,
                }
            },
            Src::Bytes(b, p) => {
                let n = (64 - max.leading_zeros() as usize).div_ceil(8);
                let mut x = 0u64;
                for i in 0..n {
                    x |= (b.get(*p + i).copied().unwrap_or(0) as u64) << (8 * i);
                }
                *p += n;
                if max == u64::MAX {
                    x
                } else {
                    x % (max + 1)
                }
            },
        };
        self.tape.push(v);
        v
    }
    /// true once in n; shrinks to false
    pub fn one_in(&mut self, n: u64) -> bool {
        self.upto(n - 1) == n - 1
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0, "harness: below(0)");
        self.upto(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.upto((hi - lo) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.upto(1) == 1
    }
    /// true with probability n/256; false is simplest
    pub fn chance(&mut self, n: u64) -> bool {
        self.upto(255) >= 256 - n.min(256)
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        &v[self.below(v.len())]
    }
    /// index by weight, 0 simplest
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.upto(tot - 1);
        for (i, k) in w.iter().enumerate() {
            if x < *k as u64 {
                return i;
            }
            x -= *k as u64;
        }
        unreachable!()
    }
    /// An integer of `bits` bits, boundary-biased.
    pub fn int(&mut self, bits: u32) -> u64 {
        let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.weighted(&[3, 8, 2, 2, 2, 2]) {
            0 => self.upto(m.min(3)),
            1 => self.upto(m),
            2 => m - self.upto(m.min(3)),
            3 => {
                // around the sign change
                let h = 1u64 << (bits - 1);
                (h.wrapping_sub(2).wrapping_add(self.upto(3))) & m
            },
            4 => {
                let k = self.upto(bits as u64 - 1);
                1u64 << k
            },
            _ => {
                let k = self.upto(bits as u64 - 1);
                m ^ (1u64 << k)
            },
        }
    }
    pub fn byte(&mut self) -> u8 {
        self.upto(255) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n > 512 {
            return self.fill(n);
        }
        (0..n).map(|_| self.byte()).collect()
    }
    /// long pseudo-random content from one choice (zeros when 0)
    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        let s = self.upto(u32::MAX as u64);
        if s == 0 {
            return vec![0; n];
        }
        let mut r = Rng::new(s);
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&r.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// list with a continue flag before each element (expected length about `avg`)
    pub fn list<T>(&mut self, min: usize, max: usize, avg: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let mut v = vec![];
        let p = (256 * avg / (avg + 1)).clamp(1, 255) as u64;
        while v.len() < max {
            if v.len() >= min && !self.chance(p) {
                break;
            }
            v.push(f(self));
        }
        v
    }
}

/// Shrinks a failing tape. `fails` runs the case and returns the (normalised) tape if it still fails.
pub fn shrink(mut best: Vec<u64>, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>, limit: usize, secs: u64) -> Vec<u64> {
    let t0 = std::time::Instant::now();
    let mut runs = 0usize;
    let smaller = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let before = best.clone();
        // delete blocks
        for k in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i >= k {
                if i > best.len() {
                    i = best.len();
                    if i < k {
                        break;
                    }
                }
                let mut c = best.clone();
                c.drain(i - k..i);
                runs += 1;
                if runs > limit || t0.elapsed().as_secs() > secs {
                    return best;
                }
                if let Some(t) = fails(&c) {
                    if smaller(&t, &best) {
                        best = t;
                        i = i.min(best.len());
                        continue;
                    }
                }
                i -= 1;
            }
        }
        // zero blocks
        for k in [16usize, 4] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + k].iter_mut().for_each(|x| *x = 0);
                    runs += 1;
                    if runs > limit || t0.elapsed().as_secs() > secs {
                        return best;
                    }
                    if let Some(t) = fails(&c) {
                        if smaller(&t, &best) {
                            best = t;
                        }
                    }
                }
                i += k;
            }
        }
        // lower single choices: zero, then binary search; also lower by one while deleting what follows
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let hi0 = best[i];
                let mut try_ = |best: &mut Vec<u64>, v: u64, del: usize, runs: &mut usize| -> bool {
                    let mut c = best.clone();
                    if i >= c.len() || i + 1 + del > c.len() {
                        return false;
                    }
                    c[i] = v;
                    if del > 0 {
                        c.drain(i + 1..i + 1 + del);
                    }
                    *runs += 1;
                    if let Some(t) = fails(&c) {
                        if smaller(&t, best) {
                            *best = t;
                            return true;
                        }
                    }
                    false
                };
                if !try_(&mut best, 0, 0, &mut runs) {
                    let (mut lo, mut hi) = (0u64, hi0);
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        if try_(&mut best, mid, 0, &mut runs) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    for del in [1usize, 2, 3, 4, 8] {
                        while i < best.len() && best[i] > 0 {
                            let v = best[i] - 1;
                            if !try_(&mut best, v, del, &mut runs) {
                                break;
                            }
                        }
                    }
                }
                if runs > limit || t0.elapsed().as_secs() > secs {
                    return best;
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

//! Coverage guidance for the thorough tier: an instrumented build of the checks (see `check.sh`) counts the blocks that
//! run in the code under test and notes what its comparisons compare. Cases that reach something new are kept and
//! mutated, and compared constants are tried as choices. The oracles are those of the plain checks.
#[cfg(feature = "guided")]
mod on {
    extern "C" {
        fn guide_modules() -> i32;
        fn guide_module(i: i32, a: *mut *mut u8, n: *mut usize, pcs: *mut *const usize);
        fn guide_here() -> usize;
        fn guide_ranges(r: *const usize, n: usize);
        fn guide_active(on: i32);
        fn guide_fresh() -> i32;
        fn guide_words() -> u32;
        fn guide_word(i: u32) -> u64;
        fn guide_gap_reset();
        fn guide_scan(c: *const u8, n: usize, left: *mut u8, reached: *mut usize) -> i32;
        fn guide_gaps() -> u32;
        fn guide_gap(i: u32, d: *mut u64) -> u32;
    }
    struct Module {
        at: *mut u8,
        /// buckets not seen yet; 0 for blocks outside the code under test
        left: Vec<u8>,
        /// where the blocks of the code under test lie
        runs: Vec<std::ops::Range<usize>>,
    }
    pub struct Guide {
        m: Vec<Module>,
        pub blocks: usize,
        pub reached: usize,
    }
    /// Functions of the code under test: start and end addresses as loaded.
    fn functions() -> Vec<usize> {
        let me = std::env::current_exe().expect("harness: own path");
        let out = std::process::Command::new("nm")
            .args(["-n", "--defined-only"])
            .arg(&me)
            .output()
            .expect("harness: nm");
        let t = String::from_utf8_lossy(&out.stdout);
        let mut all: Vec<(usize, &str)> = t
            .lines()
            .filter_map(|l| {
                let mut w = l.split_whitespace();
                let a = usize::from_str_radix(w.next()?, 16).ok()?;
                let k = w.next()?;
                (k == "t" || k == "T" || k == "W" || k == "w").then_some((a, w.next()?))
            })
            .collect();
        all.sort();
        let slide = unsafe { guide_here() } - all.iter().find(|x| x.1 == "guide_here").expect("harness: symbols").0;
        let mut v = vec![];
        for (i, (a, n)) in all.iter().enumerate() {
            // the crate a mangled name starts with (v0: `_R…Cs<hash>_5ublox…`; legacy: `_ZN5ublox…`)
            let v0 = n
                .strip_prefix("_R")
                .and_then(|r| r.split_once("Cs"))
                .and_then(|r| r.1.split_once('_'))
                .map_or(false, |r| r.1.starts_with("5ublox"));
            let ours =
                v0 || n.starts_with("_ZN5ublox") || n.contains("ublox..") && !n.starts_with("_ZN2vh") && !n.starts_with("_ZN75_$LT$vh");
            if ours {
                let e = all[i + 1..].iter().find(|x| x.0 > *a).map_or(a + 1, |x| x.0);
                v.push(a + slide);
                v.push(e + slide);
            }
        }
        v
    }
    impl Guide {
        pub fn new() -> Guide {
            let f: &'static [usize] = Box::leak(functions().into_boxed_slice());
            unsafe { guide_ranges(f.as_ptr(), f.len() / 2) };
            let inside = |pc: usize| f.chunks(2).any(|c| c[0] <= pc && pc < c[1]);
            let mut g = Guide {
                m: vec![],
                blocks: 0,
                reached: 0,
            };
            for i in 0..unsafe { guide_modules() } {
                let (mut at, mut n, mut pcs) = (std::ptr::null_mut(), 0, std::ptr::null());
                unsafe { guide_module(i, &mut at, &mut n, &mut pcs) };
                let left: Vec<u8> = (0..n).map(|k| if inside(unsafe { *pcs.add(2 * k) }) { 255 } else { 0 }).collect();
                if left.iter().all(|x| *x == 0) {
                    continue;
                }
                g.blocks += left.iter().filter(|x| **x > 0).count();
                let mut runs: Vec<std::ops::Range<usize>> = vec![];
                for k in (0..n).filter(|k| left[*k] > 0) {
                    match runs.last_mut() {
                        Some(r) if r.end == k => r.end += 1,
                        _ => runs.push(k..k + 1),
                    }
                }
                g.m.push(Module { at, left, runs });
            }
            g
        }
        pub fn begin(&self) {
            for m in &self.m {
                for r in &m.runs {
                    unsafe { std::ptr::write_bytes(m.at.add(r.start), 0, r.len()) };
                }
            }
            unsafe {
                guide_fresh();
                guide_gap_reset();
                guide_active(1)
            };
        }
        /// Whether the run since `begin` reached something new.
        pub fn end(&mut self) -> bool {
            unsafe { guide_active(0) };
            let mut new = unsafe { guide_fresh() } != 0;
            for m in &mut self.m {
                for r in &m.runs {
                    new |= unsafe { guide_scan(m.at.add(r.start), r.len(), m.left.as_mut_ptr().add(r.start), &mut self.reached) } != 0;
                }
            }
            new
        }
        /// Comparisons of the last run that never were between equals, and the differences between their operands.
        pub fn gaps(&self) -> Vec<(u32, u64)> {
            let mut d = 0;
            unsafe { (0..guide_gaps()).map(|i| (guide_gap(i, &mut d), d)).filter(|x| x.0 > 0).collect() }
        }
        pub fn word(&self, x: u64) -> Option<u64> {
            let n = unsafe { guide_words() };
            (n > 0).then(|| unsafe { guide_word((x % n as u64) as u32) })
        }
    }
}
#[cfg(feature = "guided")]
pub use on::Guide;
#[cfg(not(feature = "guided"))]
pub struct Guide {
    pub blocks: usize,
    pub reached: usize,
}
#[cfg(not(feature = "guided"))]
impl Guide {
    pub fn new() -> Guide {
        panic!("harness: this build is not instrumented")
    }
    pub fn begin(&self) {}
    pub fn end(&mut self) -> bool {
        false
    }
    pub fn gaps(&self) -> Vec<(u32, u64)> {
        vec![]
    }
    pub fn word(&self, _: u64) -> Option<u64> {
        None
    }
}

use crate::gen::Rng;
/// A tape made from one or two others.
pub fn mutate(r: &mut Rng, (a, gaps): &(Vec<u64>, Vec<(u32, u64)>), b: &[u64], guide: &Guide) -> Vec<u64> {
    let mut t = a.to_vec();
    let up = |r: &mut Rng, n: usize| (r.next() % n.max(1) as u64) as usize;
    for _ in 0..1 + up(r, 4) {
        if t.is_empty() {
            t.push(r.next() >> up(r, 64));
        }
        let i = up(r, t.len());
        match r.next() % 20 {
            0 | 1 => t[i] = r.next() % 8,
            2 | 3 => t[i] = r.next() >> up(r, 64),
            4..=6 => {
                if let Some(w) = guide.word(r.next()) {
                    t[i] = match r.next() % 4 {
                        0 => w.wrapping_add(1),
                        1 => w.wrapping_sub(1),
                        _ => w,
                    }
                }
            }
            7 => {
                if let Some(w) = crate::dict::word(r.next(), u64::MAX) {
                    t[i] = w;
                }
            }
            8 => t[i] = t[i].wrapping_add(1 + r.next() % 4),
            9 => t[i] = t[i].saturating_sub(1 + r.next() % 4),
            10 => t[i] = t[up(r, t.len())],
            11 => {
                let e = (i + 1 + up(r, 8)).min(t.len());
                t.drain(i..e);
            }
            12 => {
                for _ in 0..1 + up(r, 4) {
                    t.insert(i, r.next() >> up(r, 64));
                }
            }
            13 => {
                // repeat a block
                let e = (i + 1 + up(r, 24)).min(t.len());
                let x = t[i..e].to_vec();
                t.splice(i..i, x);
            }
            14 => t.truncate(i),
            15..=18 => {
                // make the two sides of a comparison equal, if this choice is one of them but for a constant
                if let Some((_, d)) = gaps.get(up(r, gaps.len())) {
                    t[i] = if r.next() % 2 == 0 { t[i].wrapping_add(*d) } else { t[i].wrapping_sub(*d) };
                }
            },
            _ => {
                let k = up(r, b.len());
                t.truncate(i);
                t.extend_from_slice(&b[k.min(b.len())..]);
            }
        }
    }
    t.truncate(20_000);
    t
}

//! A dictionary of the integers and characters written in the code under test, as fuzzers use one: a generator which
//! knows the constants of a program reaches the cases that depend on them. It steers what is generated and decides
//! nothing. Values which the code as first seen does not have (`spec/words.txt`) are tried as often as all others together.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub all: Vec<u64>,
    pub new: Vec<u64>,
}
static DICT: OnceLock<Dict> = OnceLock::new();

/// Read once, before anything is generated. Without it there is no dictionary.
pub fn load(root: &str) {
    if std::env::var("VH_NODICT").is_ok() {
        return;
    }
    let seen = count();
    let base = std::fs::read_to_string(format!("{root}/spec/words.txt")).unwrap_or_default();
    let mut known: BTreeMap<u64, u32> = BTreeMap::new();
    for l in base.lines() {
        if let Some((a, b)) = l.split_once(' ') {
            known.insert(a.parse().unwrap_or(0), b.parse().unwrap_or(0));
        }
    }
    let all: BTreeSet<u64> = seen.keys().flat_map(|v| around(*v)).collect();
    let new: BTreeSet<u64> = seen.iter().filter(|(v, n)| known.get(v).copied().unwrap_or(0) < **n).flat_map(|(v, _)| around(*v)).collect();
    let _ = DICT.set(Dict { all: all.into_iter().collect(), new: new.into_iter().collect() });
}
pub fn get() -> Option<&'static Dict> {
    DICT.get()
}
fn around(v: u64) -> Vec<u64> {
    let mut o = vec![v, v.wrapping_sub(1), v.wrapping_add(1)];
    if v < 64 {
        o.push(1 << v);
    }
    o
}
/// A word of the dictionary which is no greater than max.
pub fn word(x: u64, max: u64) -> Option<u64> {
    let d = DICT.get()?;
    let l = if x & 1 == 0 && !d.new.is_empty() { &d.new } else { &d.all };
    let n = l.partition_point(|v| *v <= max);
    if n == 0 {
        return None;
    }
    Some(l[(x >> 1) as usize % n])
}
/// How often each value is written in the code of the library and of its macros (tests left out).
pub fn count() -> BTreeMap<u64, u32> {
    let mut files = vec![];
    for d in ["/repo/ublox/src", "/repo/ublox_derive/src"] {
        walk(std::path::Path::new(d), &mut files);
    }
    files.sort();
    let mut n = BTreeMap::new();
    for f in files {
        if f.ends_with("tests.rs") {
            continue;
        }
        let t = std::fs::read_to_string(&f).unwrap_or_default();
        let t = t.split("#[cfg(test)]\nmod").next().unwrap_or("").split("\n#[test]").next().unwrap_or("").to_string();
        for v in words(&t) {
            *n.entry(v).or_insert(0) += 1;
        }
    }
    n
}
fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}
fn words(t: &str) -> Vec<u64> {
    let mut out = vec![];
    for line in t.lines() {
        let l = line.trim_start();
        if l.starts_with("//") {
            continue;
        }
        let b = l.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'/' && b.get(i + 1) == Some(&b'/') {
                break;
            }
            if b[i] == b'\'' && b.get(i + 2) == Some(&b'\'') {
                out.push(b[i + 1] as u64);
                i += 3;
                continue;
            }
            if b[i].is_ascii_alphabetic() || b[i] == b'_' {
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                continue;
            }
            if !b[i].is_ascii_digit() {
                i += 1;
                continue;
            }
            let a = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let mut w: String = l[a..i].replace('_', "");
            if !w.starts_with("0x") {
                // 1.5, 1e-7, 2.5e3
                if b.get(i) == Some(&b'.') && b.get(i + 1).is_some_and(|c| c.is_ascii_digit()) {
                    i += 1;
                    let c = i;
                    while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                        i += 1;
                    }
                    w.push('.');
                    w.push_str(&l[c..i].replace('_', ""));
                }
                if w.ends_with(['e', 'E']) && matches!(b.get(i), Some(b'-' | b'+')) {
                    w.push(b[i] as char);
                    i += 1;
                    while i < b.len() && b[i].is_ascii_digit() {
                        w.push(b[i] as char);
                        i += 1;
                    }
                }
            }
            for s in ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "u128", "i128"] {
                if let Some(x) = w.strip_suffix(s) {
                    w = x.to_string();
                    break;
                }
            }
            let v = if let Some(h) = w.strip_prefix("0x") {
                u64::from_str_radix(h, 16).ok()
            } else if let Some(h) = w.strip_prefix("0b") {
                u64::from_str_radix(h, 2).ok()
            } else if let Some(h) = w.strip_prefix("0o") {
                u64::from_str_radix(h, 8).ok()
            } else {
                w.parse().ok()
            };
            match v {
                Some(v) => out.push(v),
                None => {
                    let w = w.trim_end_matches("f64").trim_end_matches("f32");
                    if let Ok(x) = w.parse::<f64>() {
                        out.push(x.to_bits());
                        out.push((x as f32).to_bits() as u64);
                        // as a scaled integer
                        for s in [1.0, 1e2, 1e3, 1e5, 1e7] {
                            let y = x * s;
                            if y.fract() == 0.0 && y.abs() >= 1.0 && y < 1e15 {
                                out.push(y as u64);
                            }
                        }
                    }
                },
            }
        }
    }
    out
}

//! C19, C20, C23: generated declarations compiled with a copy of the crate (the macros expand to crate-internal names),
//! driven with generated payloads and values, compared with the meaning of the declaration (decl.rs).
use crate::decl::*;
use crate::driver::*;
use crate::gen::{Gen, Rng};
use serde_json::{json, Value};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;

fn bad(m: &str) -> ! {
    eprintln!("HARNESS ERROR: {m}");
    std::process::exit(2)
}
pub fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap_or_else(|e| bad(&format!("{}: {e}", to.display())));
    for e in std::fs::read_dir(from).unwrap_or_else(|e| bad(&format!("{}: {e}", from.display()))).flatten() {
        let n = e.file_name();
        if n == "target" || n == ".git" {
            continue;
        }
        let (p, q) = (e.path(), to.join(&n));
        if p.is_dir() {
            copy(&p, &q)
        } else {
            std::fs::copy(&p, &q).unwrap_or_else(|e| bad(&format!("{}: {e}", p.display())));
        }
    }
}

pub struct Lab {
    dir: PathBuf,
}
#[derive(Debug)]
struct Err {
    line: usize,
    code: Option<String>,
    text: String,
}
impl Lab {
    /// A fresh copy of the crates with the laboratory module hooked in; build products of earlier labs are kept.
    fn new(root: &str, tag: &str) -> Lab {
        let dir = PathBuf::from(format!("{root}/.build/lab-{tag}"));
        let src = dir.join("src");
        std::fs::remove_dir_all(&src).ok();
        let repo = Path::new("/repo");
        std::fs::create_dir_all(&src).ok();
        for f in ["Cargo.toml", "Cargo.lock", "README.md", "rust-toolchain", "rust-toolchain.toml"] {
            if repo.join(f).exists() {
                std::fs::copy(repo.join(f), src.join(f)).ok();
            }
        }
        copy(&repo.join("ublox"), &src.join("ublox"));
        copy(&repo.join("ublox_derive"), &src.join("ublox_derive"));
        let lab = Lab { dir };
        let p = ["ubx_packets/packets.rs", "ubx_packets/packets/mod.rs"].iter().map(|f| src.join("ublox/src").join(f)).find(|f| f.exists()).unwrap_or_else(|| bad("where are the packets declared?"));
        let mut f = std::fs::OpenOptions::new().append(true).open(&p).unwrap_or_else(|e| bad(&e.to_string()));
        write!(f, "\n#[path = {:?}]\npub mod vgen;\n", lab.vgen()).unwrap();
        // reachable for the binary
        let l = src.join("ublox/src/lib.rs");
        let mut f = std::fs::OpenOptions::new().append(true).open(&l).unwrap_or_else(|e| bad(&e.to_string()));
        write!(f, "\n#[doc(hidden)]\npub use crate::ubx_packets::packets_vgen as vgen;\n").unwrap();
        let m = ["ubx_packets.rs", "ubx_packets/mod.rs"].iter().map(|f| src.join("ublox/src").join(f)).find(|f| f.exists()).unwrap_or_else(|| bad("where is ubx_packets?"));
        let mut f = std::fs::OpenOptions::new().append(true).open(&m).unwrap_or_else(|e| bad(&e.to_string()));
        write!(f, "\n#[doc(hidden)]\npub mod packets_vgen {{ pub use super::packets::vgen::main; }}\n").unwrap();
        let b = src.join("ublox/src/bin");
        std::fs::create_dir_all(&b).unwrap();
        std::fs::write(b.join("lab.rs"), "fn main() { ublox::vgen::main() }\n").unwrap();
        lab
    }
    fn vgen(&self) -> PathBuf {
        self.dir.join("src/vgen.rs")
    }
    fn write(&self, text: &str) {
        std::fs::write(self.vgen(), text).unwrap_or_else(|e| bad(&e.to_string()));
    }
    /// Errors with the line of the laboratory file they point at (0: elsewhere), or nothing if it builds.
    fn cargo(&self, what: &[&str]) -> Result<(), Vec<Err>> {
        let o = Command::new("cargo")
            .args(what)
            .args(["--offline", "--features", "std,alloc,serde", "--message-format=json", "-p", "ublox"])
            .current_dir(self.dir.join("src"))
            .env("CARGO_TARGET_DIR", self.dir.join("target"))
            .env("CARGO_PROFILE_DEV_DEBUG", "0")
            .env("CARGO_INCREMENTAL", "0")
            .env("RUSTFLAGS", "-Awarnings")
            .output()
            .unwrap_or_else(|e| bad(&format!("cargo: {e}")));
        if o.status.success() {
            return Ok(());
        }
        let mut v = vec![];
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let Ok(j) = serde_json::from_str::<Value>(l) else { continue };
            if j["reason"] != "compiler-message" || !j["message"]["level"].as_str().unwrap_or("").starts_with("error") {
                continue;
            }
            let m = &j["message"];
            if m["spans"].as_array().is_none_or(|s| s.is_empty()) && m["message"].as_str().unwrap_or("").starts_with("aborting") {
                continue;
            }
            let mut line = 0;
            for s in m["spans"].as_array().into_iter().flatten().filter(|s| s["is_primary"] == true) {
                let mut s = s;
                loop {
                    if s["file_name"].as_str().unwrap_or("").ends_with("vgen.rs") {
                        line = s["line_start"].as_u64().unwrap_or(0) as usize;
                    }
                    if s["expansion"].is_null() {
                        break;
                    }
                    s = &s["expansion"]["span"];
                }
            }
            v.push(Err { line, code: m["code"]["code"].as_str().map(|s| s.to_string()), text: m["rendered"].as_str().unwrap_or("").to_string() });
        }
        if v.is_empty() {
            v.push(Err { line: 0, code: None, text: String::from_utf8_lossy(&o.stderr).into_owned() });
        }
        Err(v)
    }
    fn run(&self, lines: &[String]) -> Vec<Vec<String>> {
        let mut ch = Command::new(self.dir.join("target/debug/lab")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn().unwrap_or_else(|e| bad(&format!("lab: {e}")));
        let mut si = ch.stdin.take().unwrap();
        let text = lines.join("\n") + "\n";
        let h = std::thread::spawn(move || si.write_all(text.as_bytes()).is_ok());
        let o = ch.wait_with_output().unwrap_or_else(|e| bad(&format!("lab: {e}")));
        h.join().ok();
        let s = String::from_utf8_lossy(&o.stdout).into_owned();
        let v: Vec<Vec<String>> = s.lines().map(|l| if l.is_empty() { vec![] } else { l.split('\t').map(|x| x.to_string()).collect() }).collect();
        if !o.status.success() || v.len() != lines.len() {
            // an abort (stack overflow …) while the line after the last answer ran
            let mut v = v;
            v.truncate(lines.len());
            v.push(vec!["panic".into(), format!("the process ended with {}", o.status)]);
            v.resize(lines.len(), vec!["panic".into(), "not run".into()]);
            return v;
        }
        v
    }
}
fn module(groups: &[(usize, &Group)]) -> (String, Vec<(usize, usize)>) {
    let mut s = String::from(SUPPORT);
    let mut at = vec![];
    for (i, g) in groups {
        let a = s.lines().count() + 1;
        s.push_str(&format!("pub mod g{i} {{\n{}}}\n", g.text()));
        at.push((a, s.lines().count()));
    }
    let arms: String = groups.iter().map(|(i, _)| format!("{i} => g{i}::op(w), ")).collect();
    s.push_str(&format!("pub fn main() {{ lab::lines(|g, w| match g {{ {arms} _ => panic!(\"harness: group\") }}) }}\n"));
    (s, at)
}
/// One thing to ask a group, and the answer its declarations call for.
#[derive(Clone, Debug, Hash)]
struct Ask {
    group: usize,
    line: String,
    want: Vec<String>,
    class: &'static str,
    nontrivial: bool,
}
fn same(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    let cut = |s: &str| s.rfind('=').map(|i| (s[..i + 1].to_string(), s[i + 1..].to_string())).unwrap_or((String::new(), s.to_string()));
    let ((p, x), (q, y)) = (cut(a), cut(b));
    if p != q {
        return false;
    }
    let num = |s: &str| -> Option<(bool, f64)> {
        if let Some(h) = s.strip_prefix("s:") {
            Some((true, f32::from_bits(u32::from_str_radix(h, 16).ok()?) as f64))
        } else if let Some(h) = s.strip_prefix("d:") {
            Some((false, f64::from_bits(u64::from_str_radix(h, 16).ok()?)))
        } else {
            None
        }
    };
    match (num(&x), num(&y)) {
        (Some((s, u)), Some((t, v))) => s == t && ((u.is_nan() && v.is_nan()) || u == v || (u - v).abs() <= if s { 1e-6 } else { 1e-13 } * u.abs().max(v.abs())),
        _ => false,
    }
}
fn verdict(a: &Ask, got: &[String]) -> Option<Fail> {
    if got.first().map(|s| s.as_str()) == Some("panic") {
        return Some(Fail { sig: format!("panic:{}", a.class), msg: format!("`{}` panicked: {}", a.line, got[1..].join(" ")) });
    }
    if got.len() == a.want.len() && got.iter().zip(&a.want).all(|(x, y)| same(x, y)) {
        return None;
    }
    let k = got.iter().zip(&a.want).take_while(|(x, y)| same(x, y)).count();
    Some(Fail { sig: a.class.to_string(), msg: format!("`{}`: got {} where the declaration calls for {} (all: {:?})", a.line, got.get(k).map_or("nothing", |s| s), a.want.get(k).map_or("nothing", |s| s), got) })
}
/// Everything asked of one group; drawn from g.
fn asks(g: &mut Gen, i: usize, gr: &Group, per: usize, conv: usize) -> Vec<Ask> {
    let mut v = vec![];
    let mut push = |line: String, want: Vec<String>, class: &'static str, nontrivial: bool| v.push(Ask { group: i, line: format!("{i} {line}"), want, class, nontrivial });
    push("M".into(), in_group(gr, || gr.expect_meta()), "constants", true);
    for d in &gr.decls {
        if d.recv() {
            for _ in 0..per {
                let mut pl = d.payload(g, gr);
                let (mut class, mut id) = (d.class, d.id);
                match g.below(24) {
                    0 => id ^= 1 << g.below(8),
                    1 => class ^= 1 << g.below(8),
                    2 => {
                        let n = g.below(40);
                        pl = g.bytes(n);
                    },
                    _ => (),
                }
                let w = in_group(gr, || gr.expect_dispatch(class, id, &pl));
                let known = w[0] != "Unknown";
                push(format!("D {class} {id} {}", hex(&pl)), w, if known { "accessors" } else { "refusal" }, known);
            }
        }
        if d.send() {
            for _ in 0..per / 2 + 1 {
                let (t, pl) = d.values(g, gr);
                push(format!("B {} {}", d.name, t.join(" ")), gr.expect_build(d, &pl), "builder", !pl.is_empty());
            }
        }
    }
    if conv > 0 {
        for e in &gr.enums {
            for x in 0..=255u8 {
                push(format!("E {} {x}", e.name), gr.expect_enum(e, x), "enum", true);
            }
        }
        for f in &gr.flags {
            let m = if f.bits == 32 { u32::MAX } else { (1u32 << f.bits) - 1 };
            let mut xs: Vec<u32> = (0..f.bits).map(|b| 1 << b).collect();
            xs.extend((0..f.bits).map(|b| m ^ 1 << b));
            xs.extend([0, m]);
            if f.bits == 8 {
                xs = (0..256).collect();
            } else {
                for _ in 0..conv {
                    xs.push(g.int(f.bits) as u32 & m);
                }
            }
            for x in xs {
                push(format!("F {} {x}", f.name), gr.expect_flags(f, x), "flags", x != 0);
            }
        }
    }
    v
}

type Make = fn(&mut Gen) -> Group;
fn make_decls(g: &mut Gen) -> Group {
    gen_group(g, 0)
}
fn make_conv(g: &mut Gen) -> Group {
    let n = g.range(1, 6);
    let m = g.range(0, 6);
    Group { enums: (0..n).map(|i| gen_enum(g, format!("E{i}"))).collect(), flags: (0..m).map(|i| gen_flags(g, format!("B{i}"))).collect(), decls: vec![] }
}
/// A fixed small group which any working crate compiles.
fn plain_group() -> Group {
    gen_group(&mut Gen::replay(&[]), 1)
}
struct One {
    tape: Vec<u64>,
    group: Group,
}
fn first_fault(lab: &Lab, one: &One, seed: u64, per: usize, conv: usize, sig: Option<&str>) -> Option<(Option<Ask>, Fail)> {
    let (t, _) = module(&[(0, &one.group)]);
    lab.write(&t);
    if let Err(e) = lab.cargo(&["build", "--bin", "lab"]) {
        return Some((None, Fail { sig: "rejected".into(), msg: format!("a consistent declaration does not compile: {}", e.iter().find(|e| e.line > 0).unwrap_or(&e[0]).text) }));
    }
    let a = asks(&mut Gen::fresh(&mut Rng::new(seed)), 0, &one.group, per, conv);
    let r = lab.run(&a.iter().map(|x| x.line.clone()).collect::<Vec<_>>());
    let mut all: Vec<(Ask, Fail)> = a.into_iter().zip(&r).filter_map(|(x, got)| verdict(&x, got).map(|f| (x, f))).filter(|x| sig.is_none_or(|s| x.1.sig == s)).collect();
    all.sort_by_key(|x| x.0.line.len());
    all.into_iter().next().map(|(a, f)| (Some(a), f))
}
fn shrink_group(lab: &Lab, make: Make, tape: Vec<u64>, f: Fail, seed: u64, per: usize, conv: usize) -> (Value, Fail) {
    let t0 = Instant::now();
    let mut best = (None, f.clone());
    let small = crate::gen::shrink(
        tape.clone(),
        |t| {
            let mut g = Gen::replay(t);
            let gr = guard(|| make(&mut g)).ok()?;
            let one = One { tape: g.tape.clone(), group: gr };
            let r = first_fault(lab, &one, seed, per * 4, conv, Some(&f.sig)).filter(|x| x.1.sig == f.sig)?;
            best = r;
            Some(one.tape)
        },
        60,
        (150u64).saturating_sub(t0.elapsed().as_secs()),
    );
    let gr = make(&mut Gen::replay(&small));
    let one = One { tape: small, group: gr };
    let (a, f) = first_fault(lab, &one, seed, per * 4, conv, Some(&f.sig)).unwrap_or(best);
    (json!({"tape": one.tape, "seed_lines": seed, "ask": a.map(|a| json!({"line": a.line, "want": a.want})), "declarations": in_group(&one.group, || one.group.enums.iter().map(|e| e.text()).chain(one.group.flags.iter().map(|e| e.text())).chain(one.group.decls.iter().map(|d| d.text())).collect::<Vec<_>>())}), f)
}
fn explore(root: &str, tag: &str, seed: u64, groups: usize, per: usize, conv: usize, make: Make, replay: Option<Value>, o: &mut Obs) -> Vec<(Value, Fail)> {
    let labs: Vec<Lab> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..if replay.is_some() { 1 } else { WORKERS })
            .map(|w| {
                s.spawn(move || {
                    let l = Lab::new(root, &format!("{tag}-{w}"));
                    l.write(&module(&[(0, &plain_group())]).0);
                    l
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if let Err(e) = labs[0].cargo(&["build", "--bin", "lab"]) {
        bad(&format!("the laboratory does not build with the crate: {}", e[0].text));
    }
    if let Some(r) = replay {
        let Some(t) = r["tape"].as_array() else { return vec![] };
        let tape: Vec<u64> = t.iter().map(|x| x.as_u64().unwrap()).collect();
        let mut g = Gen::replay(&tape);
        let group = make(&mut g);
        println!("case: {group:?}");
        let sig = r["sig"].as_str().map(|s| s.to_string());
        return match first_fault(&labs[0], &One { tape: tape.clone(), group }, r["seed_lines"].as_u64().unwrap(), per * 4, conv, sig.as_deref()) {
            Some((_, f)) => vec![(json!({"tape": tape, "seed_lines": r["seed_lines"]}), f)],
            None => vec![],
        };
    }
    let mut rng = Rng::new(seed ^ 0x1ab);
    let all: Vec<One> = (0..groups)
        .map(|_| {
            let mut g = Gen::fresh(&mut rng);
            let group = make(&mut g);
            One { tape: g.tape, group }
        })
        .collect();
    let lines_seed = seed.wrapping_mul(77) ^ 0x5eed;
    let chunk = groups.div_ceil(WORKERS);
    type Part = (Vec<Ask>, Vec<Vec<String>>, Option<(usize, String)>);
    let parts: Vec<Part> = std::thread::scope(|s| {
        let hs: Vec<_> = all
            .chunks(chunk)
            .enumerate()
            .map(|(w, c)| {
                let lab = &labs[w];
                s.spawn(move || -> Part {
                    let mine: Vec<(usize, &Group)> = c.iter().enumerate().map(|(i, x)| (w * chunk + i, &x.group)).collect();
                    let (t, at) = module(&mine);
                    lab.write(&t);
                    if let Err(e) = lab.cargo(&["build", "--bin", "lab"]) {
                        let hit = e.iter().find_map(|e| at.iter().position(|(a, b)| (*a..=*b).contains(&e.line)).map(|i| (mine[i].0, e.text.clone())));
                        return match hit {
                            Some(h) => (vec![], vec![], Some(h)),
                            None => bad(&format!("the laboratory does not build: {}", e[0].text)),
                        };
                    }
                    let mut v = vec![];
                    for (i, g) in &mine {
                        v.extend(asks(&mut Gen::fresh(&mut Rng::new(lines_seed ^ *i as u64)), *i, g, per, conv));
                    }
                    let r = lab.run(&v.iter().map(|x| x.line.clone()).collect::<Vec<_>>());
                    (v, r, None)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut found: Option<(usize, Fail)> = None;
    for (a, r, e) in &parts {
        if let Some((i, t)) = e {
            if found.is_none() {
                found = Some((*i, Fail { sig: "rejected".into(), msg: format!("a consistent declaration does not compile: {t}") }));
            }
        }
        for (x, got) in a.iter().zip(r) {
            o.class(x.class);
            o.count(x, x.nontrivial);
            o.checks += x.want.len() as u64;
            if let Some(f) = verdict(x, got) {
                if found.is_none() {
                    found = Some((x.group, f));
                }
            }
        }
    }
    for x in &all {
        for d in &x.group.decls {
            o.class(format!("{:?} declaration{}", d.kind, if d.max.is_some() { " of variable size" } else { "" }));
        }
    }
    match found {
        None => vec![],
        Some((i, f)) => vec![shrink_group(&labs[0], make, all[i].tape.clone(), f, lines_seed ^ i as u64, per, conv)],
    }
}

pub fn c19(c: &mut Ctx) {
    let (root, replay, seed, n, per) = (c.root().to_string(), c.replay_value().cloned(), c.seed, c.n(160, 2400), c.n(400, 1500));
    let rule = "generated groups of declarations (one to eight each: receivers, builders, both; enums and flag sets they use; scales, mappings, checked fields, aliases, sized and trailing parts) compiled by the macros inside the crate, then generated payloads through the generated dispatcher and accessors and generated values through the generated builders, each answer compared with the declaration's meaning; non-trivial: a payload some declaration accepts, a frame built with a payload, the constants of a group";
    c.stage("declarations", rule, move |o| explore(&root, "C19", seed, n as usize, per as usize, 0, make_decls, replay, o));
}
pub fn c23(c: &mut Ctx) {
    let (root, replay, seed, n, conv) = (c.root().to_string(), c.replay_value().cloned(), c.seed, c.n(160, 2400), c.n(300, 3000));
    let rule = "generated enum definitions (any code assignment, rest handling, attribute order) asked about all 256 codes, and flag-set definitions (8, 16 and 32 bits, any bits in any order) asked about every single bit, every single bit missing and random words; non-trivial: every enum answer, flag words other than 0";
    c.stage("conversions", rule, move |o| explore(&root, "C23", seed ^ 23, n as usize, 0, conv as usize, make_conv, replay, o));
}

// ---- C20: one fault in a consistent declaration
/// A module with one declaration: what stands around it, the consistent text and the faulty one.
#[derive(Clone, Debug, Hash)]
struct Item {
    fault: &'static str,
    around: String,
    good: String,
    faulty: String,
    behind: String,
}
fn header_lines(h: &[String]) -> Vec<String> {
    vec![format!("#[ubx({})]", h.join(", "))]
}
fn insert<T>(g: &mut Gen, v: &mut Vec<T>, x: T) {
    let k = g.below(v.len() + 1);
    v.insert(k, x);
}
const BAD_TYPES: &[(&str, usize)] = &[
    ("u64", 8), ("i64", 8), ("u128", 16), ("i128", 16), ("usize", 8), ("isize", 8), ("bool", 1), ("char", 4), ("[u16; 2]", 4), ("[i8; 4]", 4), ("[u32; 1]", 4), ("[[u8; 2]; 2]", 4),
    ("(u8, u8)", 2), ("(u16,)", 2), ("()", 0), ("String", 24), ("Option<u8>", 2), ("LabW_u16", 2), ("[u8; LEN]", 4), ("[u8; 2 + 2]", 4), ("Vec<u8>", 0), ("*const u8", 8), ("fn() -> u8", 8),
];
fn packet_item(g: &mut Gen) -> Item {
    let gr = gen_group(g, 1);
    let d = &gr.decls[0];
    in_group(&gr, || {
        let fixed = d.fixed();
        let is_len = |s: &String| s.starts_with("fixed_payload_len") || s.starts_with("max_payload_len");
        let mut h = d.header();
        let mut f = d.field_lines();
        let mut lifetime = d.items.is_some();
        let set_len = |h: &mut Vec<String>, s: String| {
            let k = h.iter().position(is_len).unwrap();
            h[k] = s;
        };
        // lengths as if the faulty part were fine
        let relen = |h: &mut Vec<String>, plus: usize| match d.max {
            Some(m) => set_len(h, format!("max_payload_len = {}", m as usize + plus)),
            None => set_len(h, format!("fixed_payload_len = {}", fixed + plus)),
        };
        let mut attrs: Option<Vec<String>> = None;
        let fault = match (g.below(22), d.max) {
            (0 | 1, None) => {
                let mut n = match g.below(6) {
                    0 => fixed + 1,
                    1 => fixed - 1,
                    2 => fixed - g.pick(&d.fields).ty.size(),
                    3 => fixed + g.pick(&d.fields).ty.size(),
                    4 => fixed + (256 << g.below(7)),
                    _ => g.below(200),
                };
                if n == fixed {
                    n += 2;
                }
                set_len(&mut h, format!("fixed_payload_len = {n}"));
                "wrong length"
            },
            (0 | 1, Some(_)) => {
                let n = match g.below(4) {
                    0 => fixed - 1,
                    1 => 0,
                    _ => g.below(fixed),
                };
                set_len(&mut h, format!("max_payload_len = {n}"));
                "maximum below the fixed part"
            },
            (2, _) => {
                let k = *g.pick(&["class", "id", "len"]);
                h.retain(|s| if k == "len" { !is_len(s) } else { !s.starts_with(k) });
                match k {
                    "class" => "no class",
                    "id" => "no id",
                    _ => "no length",
                }
            },
            (3 | 4, _) => {
                let c: Vec<usize> = (0..h.len()).filter(|i| !h[*i].starts_with("flags")).collect();
                let k = *g.pick(&c);
                let mut s = h[k].clone();
                if g.bool() {
                    let (a, _) = s.split_once(" = ").unwrap();
                    s = format!("{a} = {}", g.byte());
                }
                insert(g, &mut h, s);
                "repeated header attribute"
            },
            (5, m) => {
                let s = if m.is_none() { format!("max_payload_len = {}", fixed + g.below(20)) } else { format!("fixed_payload_len = {}", fixed + g.below(2)) };
                insert(g, &mut h, s);
                "fixed and maximum length"
            },
            (6, None) => {
                let n = fixed + *g.pick(&[0, 0, 1, 100]);
                set_len(&mut h, format!("max_payload_len = {n}"));
                "maximum length without a part of variable size"
            },
            (6, Some(m)) => {
                let n = *g.pick(&[fixed, fixed, m as usize, fixed + 1]);
                set_len(&mut h, format!("fixed_payload_len = {n}"));
                "fixed length with a part of variable size"
            },
            (7 | 8, _) => {
                let (t, n) = *g.pick(BAD_TYPES);
                let sized = d.fields.iter().take_while(|f| f.ty != Fty::Unsized).count();
                if g.bool() {
                    f.insert(g.below(sized + 1), format!("    odd: {t},"));
                    relen(&mut h, n);
                } else {
                    // in place of a field
                    let k = g.below(sized);
                    let old = d.fields[k].ty.size();
                    f[k] = format!("    {}: {t},", d.fields[k].name);
                    let plus = n as isize - old as isize;
                    let base = d.max.map_or(fixed as isize, |m| m as isize);
                    let new = (base + plus).max(0);
                    set_len(&mut h, if d.max.is_some() { format!("max_payload_len = {new}") } else { format!("fixed_payload_len = {new}") });
                }
                "unsupported field type"
            },
            (9 | 10, _) => {
                if d.recv() {
                    // an unsized part without a size function before the end
                    let k = g.below(f.len());
                    f.insert(k, "    #[ubx(map_type = LabIter, from = LabIter::new)]\n    early: [u8; 0],".into());
                } else {
                    let k = g.below(f.len());
                    f.insert(k, "    early: &'a [LabItem],".into());
                    lifetime = true;
                }
                if d.max.is_none() {
                    set_len(&mut h, format!("max_payload_len = {}", fixed + g.below(50)));
                }
                "unsized part which is not last"
            },
            (11, _) => {
                let (t, n) = *g.pick(&[("u8", 1), ("i16", 2), ("u32", 4), ("f64", 8), ("[u8; 3]", 3)]);
                if d.recv() && g.chance(170) {
                    // behind a part with a size function
                    if d.max.is_none() {
                        f.push("    #[ubx(map_type = LabIter, from = LabIter::new, size_fn = early_size)]\n    early: [u8; 0],".into());
                    } else if !matches!(d.fields.last().unwrap().map, Fmap::Rest { size: Some(_), .. }) {
                        let k = f.len() - 1;
                        f[k] = "    #[ubx(map_type = LabIter, from = LabIter::new, size_fn = early_size)]\n    early: [u8; 0],".into();
                    }
                    f.push(format!("    late: {t},"));
                } else {
                    if d.max.is_none() {
                        f.push(if d.recv() { "    #[ubx(map_type = LabIter, from = LabIter::new)]\n    early: [u8; 0],".into() } else { "    early: &'a [LabItem],".to_string() });
                        lifetime = !d.recv();
                    }
                    f.push(format!("    late: {t},"));
                }
                let base = d.max.map_or(fixed + g.below(40), |m| m as usize);
                set_len(&mut h, format!("max_payload_len = {}", base + n));
                "fixed-size field behind a part of variable size"
            },
            (12, _) => {
                let sized = d.fields.iter().take_while(|f| f.ty != Fty::Unsized).count();
                let k = g.below(sized);
                let t = d.fields[k].ty.text();
                let mut a = vec![format!("map_type = {t}")];
                if g.bool() {
                    a.push("alias = same_al".into());
                }
                if g.chance(60) {
                    a.push(format!("from = {t}::from"));
                }
                if g.bool() {
                    a.reverse();
                }
                f[k] = format!("    #[ubx({})]\n    {}: {t},", a.join(", "), d.fields[k].name);
                "type mapped to itself"
            },
            (13, _) => {
                attrs = Some(vec![]);
                "no ubx attribute"
            },
            (14, _) => {
                let mut a = header_lines(&h);
                let mut other = h.clone();
                if g.bool() {
                    other = vec![format!("class = {}", g.byte()), format!("id = {}", g.byte()), h.iter().find(|s| is_len(s)).unwrap().clone()];
                }
                insert(g, &mut a, header_lines(&other).remove(0));
                attrs = Some(a);
                "two ubx attributes"
            },
            (15, _) => {
                let k = *g.pick(&["class", "id"]);
                let i = h.iter().position(|s| s.starts_with(k)).unwrap();
                h[i] = format!("{k} = {}", *g.pick(&[256usize, 257, 511, 1000, 65536]) + g.below(256));
                "class or id beyond a byte"
            },
            (16, m) => {
                // the right length, and a multiple of 65536 more
                let n = m.map_or(fixed, |m| m as usize) + (65536 << g.below(3));
                set_len(&mut h, format!("{} = {n}", if m.is_some() { "max_payload_len" } else { "fixed_payload_len" }));
                "length beyond 16 bits"
            },
            (17, _) => {
                let x = *g.pick(&["size = 4", "Class = 1", "payload_len = 8", "default_for_builder", "flag = \"default_for_builder\"", "17", "class(1)", "rest_reserved", "version = 2"]);
                insert(g, &mut h, x.to_string());
                "unknown header attribute"
            },
            (18, _) => {
                h.retain(|s| !s.starts_with("flags"));
                let x = *g.pick(&["flags = \"default_for_bilder\"", "flags = \"default_for_builder, other\"", "flags = \"Default\"", "flags = 1", "flags = true", "flags = \"default_for_builder default_for_builder\""]);
                insert(g, &mut h, x.to_string());
                "unknown flags"
            },
            (19, _) => {
                let k = g.below(h.iter().filter(|s| !s.starts_with("flags")).count());
                let i = (0..h.len()).filter(|i| !h[*i].starts_with("flags")).nth(k).unwrap();
                let (a, v) = h[i].split_once(" = ").map(|(a, v)| (a.to_string(), v.to_string())).unwrap();
                h[i] = match g.below(4) {
                    0 => format!("{a} = \"{v}\""),
                    1 => format!("{a} = {v}.0"),
                    2 => format!("{a} = b'{}'", *g.pick(&['a', '0', ' '])),
                    _ => a,
                };
                "header value which is not an integer"
            },
            (20, _) => {
                let x = *g.pick(&["scael = 0.5", "map = f64", "scale", "scale = \"0.5\"", "alias", "may_fail = true", "flags = \"default_for_builder\"", "rest_reserved", "size = 2", "get_as_ref = 1", "map_type", "default_for_builder"]);
                let sized = d.fields.iter().take_while(|f| f.ty != Fty::Unsized).count();
                f.insert(g.below(sized + 1), format!("    #[ubx({x})]\n    odd: u16,"));
                relen(&mut h, 2);
                "unknown field attribute"
            },
            _ => {
                // one field with two mapping attributes, each fine alone
                let name = "dual";
                let (a, b) = match g.below(5) {
                    0 => ("scale = 0.5", "alias = dual_al"),
                    1 => ("alias = dual_al", "scale = 0.5"),
                    2 => ("map_type = f64", "scale = 0.5"),
                    3 => ("may_fail", "map_type = LabW_u16"),
                    _ => ("map_type = LabW_u16", "may_fail"),
                };
                let t = if a.contains("scale") || b.contains("scale") && !a.contains("map_type") { "f32" } else { "u16" };
                let n = if t == "f32" { 4 } else { 2 };
                let sized = d.fields.iter().take_while(|f| f.ty != Fty::Unsized).count();
                f.insert(g.below(sized + 1), format!("    #[ubx({a})]\n    #[ubx({b})]\n    {name}: {t},"));
                relen(&mut h, n);
                "two mapping attributes"
            },
        };
        let attrs = attrs.unwrap_or_else(|| header_lines(&h));
        let lt = if lifetime { "<'a>" } else { "" };
        let faulty = format!("#[{}]\n{}\nstruct {}{lt} {{\n{}\n}}\n", d.macro_name(), attrs.join("\n"), d.name, f.join("\n"));
        let around: String = gr.enums.iter().map(|e| e.text()).chain(gr.flags.iter().map(|f| f.text())).collect();
        let mut behind = d.helpers();
        if d.recv() {
            // so that nothing but the fault stands in the way
            behind.push_str(&format!("impl {}Ref<'_> {{ fn early_size(&self) -> usize {{ 0 }} }}\n", d.name));
        }
        Item { fault, around, good: d.text(), faulty, behind }
    })
}
fn enum_item(g: &mut Gen) -> Item {
    let e = gen_enum(g, "E0".into());
    let good = e.text();
    let ubx: String = good.lines().find(|l| l.starts_with("#[ubx(")).unwrap().into();
    let n = e.variants.len();
    let k = g.below(n);
    // the line of variant k
    let vline = good.lines().filter(|l| l.starts_with("    ")).nth(k).unwrap().to_string();
    let vname = e.variants[k].0.clone();
    let sub = |a: &str, b: &str| good.replacen(a, b, 1);
    let (fault, faulty) = match g.below(15) {
        13 => ("from_unchecked with rest_reserved", sub(&ubx, if g.bool() { "#[ubx(from_unchecked, rest_reserved)]" } else { "#[ubx(rest_reserved, into_raw, from_unchecked)]" })),
        0 => ("no ubx attribute", sub(&format!("{ubx}\n"), "")),
        1 => ("two ubx attributes", sub(&ubx, &format!("{ubx}\n{}", if g.bool() { ubx.clone() } else { "#[ubx(from_unchecked, into_raw)]".into() }))),
        2 => ("no repr", sub("#[repr(u8)]\n", "")),
        3 => ("other repr", sub("repr(u8)", g.pick(&["repr(u16)", "repr(i8)", "repr(C)", "repr(u32)"]))),
        4 => ("variant without a value", sub(&vline, &format!("    {vname},"))),
        5 => ("variant value is not a literal", sub(&vline, &format!("    {vname} = {},", g.pick(&["1 + 1", "K", "-1", "'a' as u8", "u8::MAX"])))),
        6 => ("variant value beyond a byte", sub(&vline, &format!("    {vname} = {},", 256 + g.below(700)))),
        7 => {
            let c = e.variants[k].1;
            ("repeated code", sub(&vline, &format!("    Twice = {c},\n{vline}")))
        },
        8 => ("variant with content", sub(&vline, &format!("    {vname}(u8) = {},", e.variants[k].1))),
        9 => ("from with rest_error", sub(&ubx, if g.bool() { "#[ubx(from, rest_error)]" } else { "#[ubx(rest_error, into_raw, from)]" })),
        10 => ("two rest handlings", sub(&ubx, g.pick(&["#[ubx(from_unchecked, rest_error, rest_reserved)]", "#[ubx(from, rest_reserved, into_raw, rest_reserved)]", "#[ubx(rest_error, from_unchecked, rest_error)]", "#[ubx(rest_reserved, rest_error)]"]))),
        11 => ("unknown handling", sub(&ubx, g.pick(&["#[ubx(from, rest_ignored)]", "#[ubx(from = x, rest_reserved)]", "#[ubx]", "#[ubx = \"from\"]", "#[ubx(from_checked, rest_error)]"]))),
        12 => ("repr with more than the width", sub("repr(u8)", g.pick(&["repr(u8, C)", "repr(u8, align(2))", "repr(C, u8)", "repr()"]))),
        _ => ("an enum is required", "#[ubx_extend]\n#[ubx(from, rest_reserved)]\n#[repr(u8)]\npub struct E0 { x: u8 }\n".into()),
    };
    Item { fault, around: "const K: u8 = 3;\n".into(), good, faulty, behind: String::new() }
}
fn flags_item(g: &mut Gen) -> Item {
    let d = gen_flags(g, "B0".into());
    let good = d.text();
    let ubx: String = good.lines().find(|l| l.starts_with("#[ubx(")).unwrap().into();
    let k = g.below(d.consts.len());
    let vline = good.lines().filter(|l| l.contains("const ")).nth(k).unwrap().to_string();
    let (vname, bit) = d.consts[k].clone();
    let sub = |a: &str, b: &str| good.replacen(a, b, 1);
    let with = |v: u64| sub(&vline, &format!("        const {vname} = {v:#x};"));
    let (fault, faulty) = match g.below(14) {
        0 => ("flag 0", with(0)),
        1 | 2 => {
            // two or more bits
            let mut b = bit;
            while b == bit {
                b = g.below(d.bits as usize) as u32;
                if b == bit && g.tape.len() > 4000 {
                    b = (bit + 1) % d.bits;
                }
                if b == bit {
                    b = (bit + 1) % d.bits;
                }
            }
            let mut v = 1u64 << bit | 1 << b;
            if g.bool() {
                v |= 1 << g.below(d.bits as usize);
            }
            ("flag of several bits", with(v))
        },
        3 => ("flag beyond the width", with(1u64 << (d.bits as u64 + g.below(63 - d.bits as usize) as u64))),
        4 => {
            // beside it or far from it
            let j = g.below(d.consts.len());
            let at = good.lines().filter(|l| l.contains("const ")).nth(j).unwrap().to_string();
            ("repeated flag", sub(&at, &if g.bool() { format!("        const TWICE = {};\n{at}", 1u64 << bit) } else { format!("{at}\n        const TWICE = {};", 1u64 << bit) }))
        },
        12 => ("flag value which is not an integer", sub(&vline, &format!("        const {vname} = {};", g.pick(&["1 << 2", "-1", "ONE", "\"1\"", "1.0", "1 | 2", "'a'", "true"])))),
        5 => ("unsupported width", sub(&format!("B0: u{}", d.bits), &format!("B0: {}", g.pick(&["u64", "i8", "i16", "i32", "u128", "usize", "bool"])))),
        6 => ("no rest handling", sub(&ubx, if g.bool() { "#[ubx(from)]" } else { "#[ubx(from, into_raw)]" })),
        7 => ("rest_error", sub(&ubx, g.pick(&["#[ubx(from_unchecked, rest_error)]", "#[ubx(into_raw, rest_error)]", "#[ubx(rest_error)]"]))),
        8 => ("two rest handlings", sub(&ubx, g.pick(&["#[ubx(from, rest_reserved, rest_reserved)]", "#[ubx(rest_reserved, from, rest_error)]"]))),
        9 => ("no ubx attribute", sub(&format!("{ubx}\n"), "")),
        10 => ("two ubx attributes", sub(&ubx, &format!("{ubx}\n{ubx}"))),
        11 => ("unknown handling", sub(&ubx, g.pick(&["#[ubx(from, rest_reserved, into)]", "#[ubx(from = u8, rest_reserved)]", "#[ubx]", "#[ubx(from, rest_ignored, rest_reserved)]"]))),
        _ => ("not a flag set", sub("bitflags!", g.pick(&["bitflag!", "flags!", "thread_local!"]))),
    };
    Item { fault, around: String::new(), good, faulty, behind: String::new() }
}
fn gen_item(g: &mut Gen) -> Item {
    match g.weighted(&[6, 2, 2]) {
        0 => packet_item(g),
        1 => enum_item(g),
        _ => flags_item(g),
    }
}
/// Which of the items compile; None: cannot be told (only the text around the declaration fails).
fn compile(lab: &Lab, items: &[(&Item, bool)]) -> Vec<Option<bool>> {
    let mut state: Vec<Option<Option<bool>>> = vec![None; items.len()];
    loop {
        let mut s = String::from(SUPPORT);
        let mut spans = vec![];
        for (i, (it, faulty)) in items.iter().enumerate() {
            if state[i].is_some() {
                continue;
            }
            let a = s.lines().count() + 1;
            s.push_str(&format!("pub mod i{i} {{\n#![allow(dead_code, unused, non_camel_case_types, clippy::all)]\nuse super::super::*;\nuse super::lab::*;\n{}", it.around));
            let b = s.lines().count() + 1;
            s.push_str(if *faulty { &it.faulty } else { &it.good });
            let c = s.lines().count();
            s.push_str(&it.behind);
            s.push_str("}\n");
            spans.push((i, a, b, c, s.lines().count()));
        }
        s.push_str("pub fn main() {}\n");
        lab.write(&s);
        let Err(e) = lab.cargo(&["check", "--lib"]) else { break };
        let mut hit = false;
        for x in &e {
            if let Some((i, ..)) = spans.iter().find(|(_, _, b, c, _)| (*b..=*c).contains(&x.line)) {
                state[*i] = Some(Some(false));
                hit = true;
            }
        }
        if !hit {
            for x in &e {
                if let Some((i, ..)) = spans.iter().find(|(_, a, _, _, d)| (*a..=*d).contains(&x.line)) {
                    state[*i] = Some(None);
                    hit = true;
                }
            }
        }
        if !hit {
            bad(&format!("the laboratory does not compile: {} {:?}", e[0].text, e[0].code));
        }
    }
    state.into_iter().map(|x| x.unwrap_or(Some(true))).collect()
}
pub fn c20(c: &mut Ctx) {
    let (root, replay, seed, n) = (c.root().to_string(), c.replay_value().cloned(), c.seed, c.n(1600, 24_000) as usize);
    let rule = "one fault of each kind put into a generated consistent declaration (packets through all three macros, enums, flag sets), at any position; the consistent form must compile in the same place and the faulty one must not; non-trivial: both were decided by the compiler";
    c.stage("faults", rule, move |o| {
        let workers = if replay.is_some() { 1 } else { WORKERS };
        let labs: Vec<Lab> = std::thread::scope(|s| {
            let root = &root;
            let hs: Vec<_> = (0..workers).map(|w| s.spawn(move || Lab::new(root, &format!("C20-{w}")))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        labs[0].write(&module(&[(0, &plain_group())]).0);
        if let Err(e) = labs[0].cargo(&["check", "--lib"]) {
            bad(&format!("the laboratory does not build with the crate: {}", e[0].text));
        }
        let accepted = |lab: &Lab, it: &Item| compile(lab, &[(it, false)])[0] == Some(true) && compile(lab, &[(it, true)])[0] == Some(true);
        let failure = |it: &Item| Fail { sig: it.fault.replace(' ', "-"), msg: format!("this declaration compiles although it has a fault ({}):\n{}\nthe consistent form:\n{}", it.fault, it.faulty, it.good) };
        if let Some(r) = replay {
            let Some(t) = r["tape"].as_array() else { return vec![] };
            let tape: Vec<u64> = t.iter().map(|x| x.as_u64().unwrap()).collect();
            let it = gen_item(&mut Gen::replay(&tape));
            println!("case: {}", it.faulty);
            return if accepted(&labs[0], &it) { vec![(json!({"tape": tape}), failure(&it))] } else { vec![] };
        }
        let mut rng = Rng::new(seed ^ 0xc20);
        let all: Vec<(Vec<u64>, Item)> = (0..n)
            .map(|_| {
                let mut g = Gen::fresh(&mut rng);
                let it = gen_item(&mut g);
                (g.tape, it)
            })
            .collect();
        // each worker compiles its share in batches
        let share = n.div_ceil(WORKERS);
        type Two = (Option<bool>, Option<bool>);
        let res: Vec<Two> = std::thread::scope(|s| {
            let hs: Vec<_> = all
                .chunks(share)
                .zip(&labs)
                .map(|(c, lab)| {
                    s.spawn(move || {
                        let mut v: Vec<Two> = vec![];
                        for b in c.chunks(250) {
                            let good = compile(lab, &b.iter().map(|x| (&x.1, false)).collect::<Vec<_>>());
                            let faulty = compile(lab, &b.iter().map(|x| (&x.1, true)).collect::<Vec<_>>());
                            v.extend(good.into_iter().zip(faulty));
                        }
                        v
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        let mut found = None;
        for ((tape, it), r) in all.iter().zip(&res) {
            o.class(it.fault);
            o.count(it, r.0 == Some(true) && r.1.is_some());
            o.check();
            match r {
                (Some(true), Some(true)) => found = found.or(Some((tape.clone(), it.clone()))),
                (Some(true), Some(false)) => (),
                (Some(true), None) => o.class("undecided"),
                _ => o.class("consistent form does not compile"),
            }
        }
        if std::env::var("VH_DEBUG").is_ok() {
            for ((_, it), r) in all.iter().zip(&res) {
                if *r != (Some(true), Some(false)) {
                    println!("{r:?} {}\n{}\n{}", it.fault, it.good, it.faulty);
                }
            }
        }
        if !res.iter().any(|r| r.0 == Some(true)) {
            bad("no consistent declaration compiles");
        }
        let Some((tape, it)) = found else { return vec![] };
        let small = crate::gen::shrink(
            tape,
            |t| {
                let mut g = Gen::replay(t);
                let x = guard(|| gen_item(&mut g)).ok()?;
                (x.fault == it.fault && accepted(&labs[0], &x)).then(|| g.tape.clone())
            },
            60,
            100,
        );
        let it = gen_item(&mut Gen::replay(&small));
        vec![(json!({"tape": small, "consistent": it.good, "faulty": it.faulty}), failure(&it))]
    });
}

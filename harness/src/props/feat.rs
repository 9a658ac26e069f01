//! C21: the crate built with every feature set, compared case by case.
use crate::cases::*;
use crate::driver::*;
use crate::gen::{shrink, Gen, Rng};
use serde_json::json;
use std::io::Write;
use std::process::{Command, Stdio};

const SETS: &[&str] = &["", "alloc", "std", "serde", "std,alloc", "std,serde", "alloc,serde", "std,alloc,serde"];
const PARTS: &[&str] = &["the parser over a fixed store, its packets and the built frames", "the parser over a growable store", "the growable writer", "the configuration set as a vector", "the serialised form"];

fn name(i: usize) -> &'static str {
    if SETS[i].is_empty() {
        "none"
    } else {
        SETS[i]
    }
}
fn dir(root: &str, i: usize) -> String {
    format!("{root}/.build/probe-{}", name(i).replace(',', "-"))
}
fn cargo(root: &str, i: usize, what: &[&str]) -> (bool, String) {
    let f = if what.contains(&"ublox") { SETS[i].split(',').filter(|x| !x.is_empty()).map(|x| format!("ublox/{x}")).collect::<Vec<_>>().join(",") } else { SETS[i].to_string() };
    let o = Command::new("cargo")
        .args(["build", "--offline", "--no-default-features", "--features", &f])
        .args(what)
        .current_dir(format!("{root}/harness"))
        .env("CARGO_TARGET_DIR", dir(root, i))
        .env("CARGO_NET_OFFLINE", "true")
        .output()
        .expect("harness: cargo");
    (o.status.success(), String::from_utf8_lossy(&o.stderr).into_owned())
}
/// None: built. Some(true, text): the crate under test does not build with this set.
fn build(root: &str, i: usize) -> Option<(bool, String)> {
    let (ok, e) = cargo(root, i, &["--bin", "probe"]);
    if ok {
        return None;
    }
    let (lib, le) = cargo(root, i, &["-p", "ublox", "--lib"]);
    Some(if lib { (false, e) } else { (true, le) })
}
fn probe(root: &str, i: usize, tapes: &[Vec<u64>], full: bool) -> Vec<Vec<String>> {
    let mut c = Command::new(format!("{}/debug/probe", dir(root, i)));
    if full {
        c.arg("--full");
    }
    let mut ch = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn().expect("harness: probe");
    let mut si = ch.stdin.take().unwrap();
    let text: String = tapes.iter().map(|t| t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ") + "\n").collect();
    let h = std::thread::spawn(move || si.write_all(text.as_bytes()));
    let o = ch.wait_with_output().expect("harness: probe");
    h.join().unwrap().expect("harness: probe input");
    assert!(o.status.success(), "harness: probe ended with {}", o.status);
    let s = String::from_utf8(o.stdout).expect("harness: probe output");
    let v: Vec<Vec<String>> = s.lines().map(|l| l.split('\t').map(|x| x.to_string()).collect()).collect();
    assert!(v.len() == tapes.len(), "harness: probe output has {} lines for {} cases", v.len(), tapes.len());
    v
}
fn probe_all(root: &str, tapes: &[Vec<u64>], full: bool) -> Vec<Vec<Vec<String>>> {
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..SETS.len()).map(|i| s.spawn(move || probe(root, i, tapes, full))).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}
/// First disagreement about case k: the interface and the two feature sets.
fn disagree(r: &[Vec<Vec<String>>], k: usize) -> Option<(usize, usize, usize)> {
    for part in 0..PARTS.len() {
        let have: Vec<usize> = (0..SETS.len()).filter(|i| r[*i][k][part] != "-").collect();
        for w in &have[..] {
            if r[*w][k][part] != r[have[0]][k][part] {
                return Some((part, have[0], *w));
            }
        }
    }
    None
}
fn explain(root: &str, tape: &Vec<u64>) -> Option<Fail> {
    let r = probe_all(root, &[tape.clone()], true);
    let (part, a, b) = disagree(&r, 0)?;
    let (x, y) = (&r[a][0][part], &r[b][0][part]);
    let p = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count();
    let at = |s: &str| {
        let lo = p.saturating_sub(80);
        String::from_utf8_lossy(&s.as_bytes()[lo.min(s.len())..(p + 160).min(s.len())]).into_owned()
    };
    Some(Fail { sig: format!("differs:{part}"), msg: format!("{}: built with features [{}] … {} … but with [{}] … {} …", PARTS[part], name(a), at(x), name(b), at(y)) })
}

pub fn c21(c: &mut Ctx) {
    let root = c.root().to_string();
    let replay = c.replay_value().cloned();
    let n = c.n(40_000, 1_500_000);
    let seed = c.seed;
    let rule = "the same generated streams, payloads of every message type, builder values and configuration sets through the crate built with each of the 8 subsets of std, alloc and serde: parse results, accessors, debug text, errors, built frames (and where present the growable parser, the vector interfaces and the JSON text) must be identical; non-trivial: the case delivers a packet or builds a frame";
    c.stage("feature-sets", rule, move |o| {
        let built: Vec<_> = std::thread::scope(|s| {
            let root = &root;
            let hs: Vec<_> = (0..SETS.len()).map(|i| s.spawn(move || build(root, i))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        if let Some((_, e)) = built.iter().flatten().find(|x| !x.0) {
            eprintln!("HARNESS ERROR: the probe does not build:\n{e}");
            std::process::exit(2);
        }
        if built.iter().all(|x| x.is_some()) {
            eprintln!("HARNESS ERROR: the crate builds with no feature set:\n{}", built[0].as_ref().unwrap().1);
            std::process::exit(2);
        }
        if let Some(i) = built.iter().position(|x| x.is_some()) {
            let e = &built[i].as_ref().unwrap().1;
            return vec![(json!({"features": name(i)}), Fail { sig: format!("build:{}", name(i)), msg: format!("the crate does not build with features [{}]: {e}", name(i)) })];
        }
        if let Some(r) = replay {
            let Some(t) = r["tape"].as_array() else { return vec![] };
            let tape: Vec<u64> = t.iter().map(|x| x.as_u64().unwrap()).collect();
            println!("case: {:?}", gen_case(&mut Gen::replay(&tape)));
            return explain(&root, &tape).map(|f| (json!({"tape": tape}), f)).into_iter().collect();
        }
        let mut rng = Rng::new(seed ^ 0xc21);
        let mut left = n;
        while left > 0 {
            let k = left.min(40_000);
            left -= k;
            let mut tapes = vec![];
            let mut cases = vec![];
            for _ in 0..k {
                let mut g = Gen::fresh(&mut rng);
                cases.push(gen_case(&mut g));
                tapes.push(g.tape);
            }
            let r = probe_all(&root, &tapes, false);
            for (j, case) in cases.iter().enumerate() {
                let (class, nt) = match case {
                    Case::Stream { data, .. } => ("stream", data.windows(2).any(|w| w == [0xb5, 0x62])),
                    Case::Packet { .. } => ("packet", true),
                    Case::Build { .. } => ("build", true),
                    Case::ConfigSet { items, .. } => ("configuration set", !items.is_empty()),
                };
                o.class(class);
                o.count(case, nt);
                for i in 0..SETS.len() {
                    o.checks += r[i][j].iter().filter(|x| *x != "-").count() as u64;
                }
            }
            if let Some(j) = (0..tapes.len()).find(|j| disagree(&r, *j).is_some()) {
                let small = shrink(
                    tapes[j].clone(),
                    |t| {
                        let mut g = Gen::replay(t);
                        gen_case(&mut g);
                        let tape = g.tape;
                        disagree(&probe_all(&root, &[tape.clone()], false), 0).map(|_| tape)
                    },
                    1500,
                    40,
                );
                let f = explain(&root, &small).expect("harness: disagreement is not reproducible");
                return vec![(json!({"tape": small, "case": format!("{:?}", gen_case(&mut Gen::replay(&small)))}), f)];
            }
        }
        vec![]
    });
}

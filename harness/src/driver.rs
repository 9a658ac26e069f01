//! Runs generated cases on all cores, counts them, shrinks failures, writes replay files and evidence.
use crate::gen::{shrink, Gen, Rng};
use crate::guide::Guide;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;
/// A single case takes microseconds to milliseconds; one that runs this long does not terminate.
const CASE_LIMIT: Duration = Duration::from_secs(40);

pub use crate::panics::{guard, install_panic_hook};

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return $crate::driver::fail($sig, format!($($a)*)); } };
}

#[derive(Default)]
pub struct Obs {
    pub cases: u64,
    nontrivial: u64,
    nt: bool,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    known: BTreeMap<String, (u64, String)>,
    sample: Vec<String>,
    pub checks: u64,
}
impl Obs {
    /// this case is non-trivial by the stated rule
    pub fn nt(&mut self) {
        self.nt = true;
    }
    pub fn class(&mut self, c: impl AsRef<str>) {
        let c = c.as_ref();
        if let Some(x) = self.classes.get_mut(c) {
            *x += 1;
        } else {
            self.classes.insert(c.to_string(), 1);
        }
    }
    /// counts one case of a stage
    pub fn count<C: Debug + Hash>(&mut self, c: &C, nontrivial: bool) {
        self.cases += 1;
        if nontrivial {
            self.nontrivial += 1;
            if self.distinct.len() < 1_000_000 {
                self.distinct.insert(hash_of(c));
            }
            if self.sample.len() < 3 {
                self.sample.push(clip(format!("{c:?}"), 400));
            }
        }
    }
    pub fn check(&mut self) {
        self.checks += 1;
    }
    fn merge(&mut self, o: Obs) {
        self.cases += o.cases;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        self.checks += o.checks;
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            let e = self.known.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        for s in o.sample {
            if self.sample.len() < 3 {
                self.sample.push(s);
            }
        }
    }
}

/// One process of the guided search.
#[derive(Clone, Copy)]
struct Guided {
    worker: u64,
    /// for each check
    secs: u64,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    replay: Option<Value>,
    replayed: bool,
    total: Obs,
    subs: Vec<Value>,
    rules: Vec<String>,
    violations: Vec<String>,
    t0: Instant,
    root: String,
    /// (signature, description) of the known findings of this property
    known: Vec<(String, String)>,
    exhaustive_all: bool,
    guided: Option<(Guided, Guide)>,
    pub scale: f64,
    pub extra: BTreeMap<String, Value>,
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
fn hash_of<C: Hash>(c: &C) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}
fn clip(s: String, n: usize) -> String {
    if s.len() > n {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}… ({} chars)", &s[..e], s.len())
    } else {
        s
    }
}

/// Where a run that follows an abnormal end (signal) notes each case before it runs (see check.sh).
fn trace_dir() -> Option<String> {
    std::env::var("VH_TRACE").ok()
}
/// Forgets the notes of an earlier traced run.
pub fn clear_trace() {
    if let Some(d) = trace_dir() {
        for w in 0..WORKERS {
            std::fs::remove_file(format!("{d}/{w}.json")).ok();
        }
    }
}
fn trace(dir: &str, w: usize, v: &Value) {
    std::fs::create_dir_all(dir).ok();
    std::fs::write(format!("{dir}/{w}.json"), v.to_string()).ok();
}
fn report_hang(root: &str, prop: &str, sub: &str, mut v: Value) -> ! {
    // the stuck thread cannot be stopped: report and leave
    let path = format!("{root}/replays/{prop}-{sub}.json");
    std::fs::create_dir_all(format!("{root}/replays")).ok();
    v["property"] = json!(prop);
    v["sub"] = json!(sub);
    v["sig"] = json!("hang");
    v["message"] = json!("a case does not terminate");
    std::fs::write(&path, v.to_string()).unwrap();
    println!("[{prop}/{sub}] hang: a case did not end within {}s", CASE_LIMIT.as_secs());
    println!("VIOLATION property={prop} replay={path}");
    std::process::exit(1);
}

impl Ctx {
    pub fn new(prop: &str, root: &str, replay: Option<Value>) -> Ctx {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let mut known = vec![];
        let file = std::fs::read_to_string(format!("{root}/KNOWN_FINDINGS.txt")).unwrap_or_default();
        for l in file.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().and_then(|x| x.strip_prefix("property="));
                let s = it.next().and_then(|x| x.strip_prefix("sig="));
                if p == Some(prop) {
                    known.push((s.expect("harness: known findings file").to_string(), it.next().unwrap_or("").to_string()));
                }
            }
        }
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            replay,
            replayed: false,
            total: Obs::default(),
            subs: vec![],
            rules: vec![],
            violations: vec![],
            t0: Instant::now(),
            root: root.into(),
            known,
            exhaustive_all: true,
            guided: std::env::var("VH_GUIDED").ok().map(|s| {
                let mut n = s.split(' ').map(|x| x.parse().expect("harness: VH_GUIDED"));
                (Guided { worker: n.next().unwrap(), secs: n.next().unwrap() }, Guide::new())
            }),
            scale,
            extra: BTreeMap::new(),
        }
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        // cases that run inside this process are cheap
        let many = if matches!(self.prop.as_str(), "C19" | "C20" | "C21" | "C23" | "C25") {
            1.0
        } else if matches!(self.prop.as_str(), "C04" | "C06" | "C07" | "C08" | "C16" | "C18") {
            20.0
        } else {
            40.0
        };
        (((if self.thorough { thorough } else { quick }) as f64) * self.scale * many).ceil() as u64
    }
    fn is_known(&self, f: &Fail) -> bool {
        self.known.iter().any(|k| k.0 == f.sig)
    }
    pub fn violation(&mut self, sub: &str, detail: Value, fail: &Fail) {
        let dir = format!("{}/replays", self.root);
        std::fs::create_dir_all(&dir).ok();
        let path = format!("{dir}/{}-{}.json", self.prop, sub);
        let mut v = json!({"property": self.prop, "sub": sub, "sig": fail.sig, "message": fail.msg, "seed": self.seed});
        for (k, x) in detail.as_object().unwrap() {
            v[k] = x.clone();
        }
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        println!("{}", clip(format!("[{}/{}] {}: {}", self.prop, sub, fail.sig, fail.msg), 3000));
        println!("VIOLATION property={} replay={}", self.prop, path);
        self.violations.push(path);
    }

    /// `cases` generated cases of one check.
    pub fn sub<C, G, K>(&mut self, sub: &str, rule: &str, cases: u64, gen: G, check: K)
    where
        C: Debug + Hash + Clone + Send,
        G: Fn(&mut Gen) -> C + Sync,
        K: Fn(&C, &mut Obs) -> Res + Sync,
    {
        let run = |c: &C, o: &mut Obs| -> Res {
            o.cases += 1;
            o.nt = false;
            let r = match guard(|| check(c, o)) {
                Ok(r) => r,
                Err(p) => fail("panic", format!("panicked: {p}")),
            };
            if o.nt {
                o.nontrivial += 1;
                if o.distinct.len() < 1_000_000 {
                    o.distinct.insert(hash_of(c));
                }
            }
            r
        };
        if let Some(r) = &self.replay {
            if r["sub"] == sub {
                self.replayed = true;
                if let Some(t) = r["tape"].as_array() {
                    let tape: Vec<u64> = t.iter().map(|x| x.as_u64().unwrap()).collect();
                    let c = gen(&mut Gen::replay(&tape));
                    println!("case: {}", clip(format!("{c:?}"), 4000));
                    let mut o = Obs::default();
                    match run(&c, &mut o) {
                        Ok(()) => println!("passes"),
                        Err(f) => {
                            let d = json!({"tape": tape, "case": clip(format!("{c:?}"), 20000)});
                            self.violation(sub, d, &f)
                        },
                    }
                }
            }
            return;
        }
        self.exhaustive_all = false;
        let t0 = Instant::now();
        if self.guided.is_some() {
            return self.guide(sub, rule, gen, run);
        }
        let known = self.known.clone();
        let is_known = |f: &Fail| known.iter().any(|k| k.0 == f.sig);
        let per = cases.div_ceil(WORKERS as u64);
        let base = self.seed.wrapping_mul(0x9e3779b97f4a7c15) ^ fnv(&self.prop) ^ fnv(sub).rotate_left(17);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let (tr, prop_name) = (trace_dir(), self.prop.clone());
        let slots: Vec<Mutex<Option<(Instant, Vec<u64>)>>> = (0..WORKERS).map(|_| Mutex::new(None)).collect();
        let mut outs: Vec<(Obs, Option<(Vec<u64>, Fail)>)> = vec![];
        std::thread::scope(|s| {
            let mut hs = vec![];
            for w in 0..WORKERS {
                let (tr, prop_name) = (&tr, &prop_name);
                let (stop, done, slots, run, gen, is_known) = (&stop, &done, &slots, &run, &gen, &is_known);
                hs.push(s.spawn(move || {
                    let mut rng = Rng::new(base.wrapping_add((w as u64 + 1).wrapping_mul(0xd1342543de82ef95)));
                    let mut o = Obs::default();
                    let mut bad = None;
                    for i in 0..per {
                        if stop.load(SeqCst) {
                            break;
                        }
                        let mut g = Gen::fresh(&mut rng);
                        let c = gen(&mut g);
                        let tape = g.tape;
                        if let Some(d) = tr {
                            trace(d, w, &json!({"property": prop_name, "sub": sub, "tape": tape}));
                        }
                        *slots[w].lock().unwrap() = Some((Instant::now(), tape.clone()));
                        let r = run(&c, &mut o);
                        if w == 0 && o.nt && o.sample.len() < 3 && i % (per / 4 + 1) < 64 {
                            o.sample.push(clip(format!("{c:?}"), 400));
                        }
                        if let Err(f) = r {
                            if is_known(&f) {
                                let e = o.known.entry(f.sig.clone()).or_insert((0, clip(format!("{c:?} — {}", f.msg), 500)));
                                e.0 += 1;
                            } else {
                                bad = Some((tape, f));
                                break;
                            }
                        }
                    }
                    *slots[w].lock().unwrap() = None;
                    if bad.is_some() {
                        stop.store(true, SeqCst);
                    }
                    done.fetch_add(1, SeqCst);
                    (o, bad)
                }));
            }
            // watchdog
            let (done, slots) = (&done, &slots);
            let prop = self.prop.clone();
            let root = self.root.clone();
            let wd = s.spawn(move || {
                while done.load(SeqCst) < WORKERS as u64 {
                    std::thread::sleep(Duration::from_millis(20));
                    for sl in slots {
                        let x = sl.lock().unwrap().clone();
                        if let Some((t, tape)) = x {
                            if t.elapsed() > CASE_LIMIT {
                                report_hang(&root, &prop, sub, json!({"tape": tape}));
                            }
                        }
                    }
                }
            });
            for h in hs {
                outs.push(h.join().unwrap());
            }
            wd.join().unwrap();
        });
        let mut bad = None;
        let mut tot = Obs::default();
        for (o, b) in outs {
            tot.merge(o);
            if bad.is_none() {
                bad = b;
            }
        }
        if let Some((tape, f)) = bad {
            self.minimise(sub, tape, f, &gen, &run);
        }
        self.record(sub, rule, tot, t0, false);
    }
    fn minimise<C, G, R>(&mut self, sub: &str, tape: Vec<u64>, f: Fail, gen: &G, run: &R)
    where
        C: Debug,
        G: Fn(&mut Gen) -> C,
        R: Fn(&C, &mut Obs) -> Res,
    {
        let sig = f.sig.clone();
        let small = shrink(
            tape,
            |t| {
                let mut g = Gen::replay(t);
                let c = match guard(|| gen(&mut g)) {
                    Ok(c) => c,
                    Err(_) => return None,
                };
                let tape = g.tape;
                match run(&c, &mut Obs::default()) {
                    Err(f) if f.sig == sig => Some(tape),
                    _ => None,
                }
            },
            20_000,
            25,
        );
        let c = gen(&mut Gen::replay(&small));
        let f = match run(&c, &mut Obs::default()) {
            Err(f) => f,
            Ok(()) => f,
        };
        self.violation(sub, json!({"tape": small, "case": clip(format!("{c:?}"), 20000)}), &f);
    }
    /// Search guided by what the code under test does with the cases (one thread; see guide.rs).
    fn guide<C, G, R>(&mut self, sub: &str, rule: &str, gen: G, run: R)
    where
        C: Debug + Hash + Clone + Send,
        G: Fn(&mut Gen) -> C + Sync,
        R: Fn(&C, &mut Obs) -> Res + Sync,
    {
        let (p, mut guide) = self.guided.take().unwrap();
        let t0 = Instant::now();
        let mut rng = Rng::new(self.seed.wrapping_mul(0x9e3779b97f4a7c15) ^ fnv(&self.prop) ^ fnv(sub).rotate_left(17) ^ (p.worker + 1).wrapping_mul(0xd1342543de82ef95));
        let mut corpus: Vec<(Vec<u64>, Vec<(u32, u64)>)> = vec![];
        // every choice of a case moved by the difference at a comparison, in order: (case, choice, value)
        let mut steps: std::collections::VecDeque<(usize, usize, u64)> = Default::default();
        let mut tried: std::collections::HashMap<(u32, u32), u32> = Default::default();
        let mut o = Obs::default();
        let mut bad = None;
        let slot: Mutex<Option<(Instant, Vec<u64>)>> = Mutex::new(None);
        let done = AtomicBool::new(false);
        let (prop, root, tr) = (self.prop.clone(), self.root.clone(), trace_dir());
        std::thread::scope(|s| {
            let (slot, done, prop, root) = (&slot, &done, &prop, &root);
            s.spawn(move || {
                while !done.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(50));
                    let x = slot.lock().unwrap().clone();
                    if let Some((t, tape)) = x {
                        if t.elapsed() > 3 * CASE_LIMIT {
                            report_hang(root, prop, sub, json!({"tape": tape}));
                        }
                    }
                }
            });
            let mut i = 0u64;
            while t0.elapsed().as_secs() < p.secs {
                i += 1;
                let mut seed = Rng::new(rng.next());
                let mut g;
                let tape;
                if i <= 64 || rng.next() % 16 == 0 {
                    g = Gen::fresh(&mut seed);
                } else if let Some((a, k, v)) = (rng.next() % 4 > 0).then(|| steps.pop_back()).flatten() {
                    let mut t = corpus[a].0.clone();
                    t[k] = v;
                    tape = t;
                    g = Gen::grown(&tape, &mut seed);
                } else {
                    let one = |r: &mut Rng| {
                        let n = corpus.len() as u64;
                        let k = if r.next() % 2 == 0 { n - 1 - r.next() % n.min(64) } else { r.next() % n };
                        k as usize
                    };
                    // short cases are quick ones
                    let pick = |r: &mut Rng| match (one(r), one(r), r.next() % 4) {
                        (a, _, 0) => a,
                        (a, b, _) if corpus[a].0.len() < corpus[b].0.len() => a,
                        (_, b, _) => b,
                    };
                    if corpus.is_empty() {
                        continue;
                    }
                    let (a, b) = (pick(&mut rng), pick(&mut rng));
                    tape = crate::guide::mutate(&mut rng, &corpus[a], &corpus[b].0, &guide);
                    g = Gen::grown(&tape, &mut seed);
                }
                let Ok(c) = guard(|| gen(&mut g)) else { continue };
                let tape = std::mem::take(&mut g.tape);
                if let Some(d) = &tr {
                    trace(d, p.worker as usize, &json!({"property": prop, "sub": sub, "tape": tape}));
                }
                *slot.lock().unwrap() = Some((Instant::now(), tape.clone()));
                guide.begin();
                let r = run(&c, &mut o);
                let new = guide.end();
                *slot.lock().unwrap() = None;
                match r {
                    Err(f) if self.known.iter().any(|k| k.0 == f.sig) => {
                        let e = o.known.entry(f.sig.clone()).or_insert((0, clip(format!("{c:?} — {}", f.msg), 500)));
                        e.0 += 1;
                    },
                    Err(f) => {
                        bad = Some((tape, f));
                        break;
                    },
                    Ok(()) => (),
                }
                if new && tape.len() < 20_000 {
                    let gaps = guide.gaps();
                    for (site, d) in &gaps {
                        let size = 64 - d.leading_zeros().max(d.wrapping_neg().leading_zeros());
                        let n = tried.entry((*site, size)).or_default();
                        if *n < 1 && steps.len() < 1_000_000 {
                            *n += 1;
                            let by = tape.len().div_ceil(96);
                            for (k, v) in tape.iter().enumerate().skip(i as usize % by).step_by(by) {
                                steps.extend([(corpus.len(), k, v.wrapping_add(*d)), (corpus.len(), k, v.wrapping_sub(*d))]);
                            }
                        }
                    }
                    corpus.push((tape, gaps));
                }
            }
            done.store(true, SeqCst);
        });
        if let Some((tape, f)) = bad {
            self.minimise(sub, tape, f, &gen, &run);
        }
        o.class(format!("kept: {}", corpus.len()));
        println!("  {}/{} guided by coverage: {} cases, {} kept, {} of {} blocks of the library reached", self.prop, sub, o.cases, corpus.len(), guide.reached, guide.blocks);
        self.extra.insert(format!("guided {sub} {}", p.worker), json!({"cases": o.cases, "kept": corpus.len(), "blocks_reached": guide.reached, "blocks": guide.blocks}));
        self.guided = Some((p, guide));
        self.record(sub, rule, o, t0, false);
    }

    fn record(&mut self, sub: &str, rule: &str, tot: Obs, t0: Instant, exhaustive: bool) {
        for (sig, (n, ex)) in &tot.known {
            let what = self.known.iter().find(|k| &k.0 == sig).map(|k| k.1.clone()).unwrap_or_default();
            if !self.total.known.contains_key(sig) {
                println!("KNOWN-FINDING: property={} {} [{}; {} cases, e.g. {}]", self.prop, what, sig, n, clip(ex.clone(), 200));
            }
        }
        self.subs.push(json!({
            "check": sub, "evaluations": tot.cases, "nontrivial": tot.nontrivial, "distinct_nontrivial": tot.distinct.len(),
            "comparisons": tot.checks, "classes": tot.classes, "wall_s": t0.elapsed().as_secs_f64(), "exhaustive": exhaustive,
            "samples": tot.sample,
        }));
        self.rules.push(format!("{sub}: {rule}"));
        println!("  {}/{}: {} cases, {} distinct non-trivial, {:.1}s", self.prop, sub, tot.cases, tot.distinct.len(), t0.elapsed().as_secs_f64());
        let h = fnv(sub);
        let mut tot = tot;
        tot.distinct = tot.distinct.into_iter().map(|x| x ^ h).collect();
        self.total.merge(tot);
    }

    /// All indices 0..n of a finite space.
    pub fn all<K>(&mut self, sub: &str, rule: &str, n: u64, check: K)
    where
        K: Fn(u64, &mut Obs) -> Res + Sync,
    {
        if self.guided.is_some() {
            return;
        }
        let run = |i: u64, o: &mut Obs| -> Res {
            o.cases += 1;
            o.nt = false;
            let r = match guard(|| check(i, o)) {
                Ok(r) => r,
                Err(p) => fail("panic", format!("panicked: {p}")),
            };
            if o.nt {
                o.nontrivial += 1;
                o.distinct.insert(i.wrapping_mul(0x9e3779b97f4a7c15));
            }
            r
        };
        if let Some(r) = &self.replay {
            if r["sub"] == sub {
                self.replayed = true;
                let i = r["index"].as_u64().unwrap();
                match run(i, &mut Obs::default()) {
                    Ok(()) => println!("passes"),
                    Err(f) => self.violation(sub, json!({"index": i}), &f),
                }
            }
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let first: Mutex<Option<(u64, Fail)>> = Mutex::new(None);
        let (tr, prop_name) = (trace_dir(), self.prop.clone());
        // (start in ms since t0, index + 1; 0: idle)
        let slots: Vec<(AtomicU64, AtomicU64)> = (0..WORKERS).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
        let done = AtomicU64::new(0);
        let known = self.known.clone();
        let mut tot = Obs::default();
        let blk = (n / (WORKERS as u64 * 16)).clamp(1, 4096);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..WORKERS)
                .map(|w| {
                    let (tr, prop_name, slots, done) = (&tr, &prop_name, &slots, &done);
                    let (next, first, run, known) = (&next, &first, &run, &known);
                    s.spawn(move || {
                        let mut o = Obs::default();
                        'l: loop {
                            let b = next.fetch_add(blk, SeqCst);
                            if b >= n {
                                break;
                            }
                            for i in b..(b + blk).min(n) {
                                if let Some(d) = tr {
                                    trace(d, w, &json!({"property": prop_name, "sub": sub, "index": i}));
                                }
                                slots[w].1.store(0, SeqCst);
                                slots[w].0.store(t0.elapsed().as_millis() as u64, SeqCst);
                                slots[w].1.store(i + 1, SeqCst);
                                if let Err(f) = run(i, &mut o) {
                                    if known.iter().any(|k| k.0 == f.sig) {
                                        let e = o.known.entry(f.sig.clone()).or_insert((0, format!("index {i} — {}", f.msg)));
                                        e.0 += 1;
                                        continue;
                                    }
                                    let mut g = first.lock().unwrap();
                                    if g.as_ref().is_none_or(|x| x.0 > i) {
                                        *g = Some((i, f));
                                    }
                                    next.store(n, SeqCst);
                                    break 'l;
                                }
                            }
                        }
                        slots[w].1.store(0, SeqCst);
                        done.fetch_add(1, SeqCst);
                        o
                    })
                })
                .collect();
            let (slots, done) = (&slots, &done);
            let (prop, root) = (self.prop.clone(), self.root.clone());
            s.spawn(move || {
                while done.load(SeqCst) < WORKERS as u64 {
                    std::thread::sleep(Duration::from_millis(20));
                    for sl in slots {
                        let (i, at) = (sl.1.load(SeqCst), sl.0.load(SeqCst));
                        let now = t0.elapsed().as_millis() as u64;
                        if i > 0 && now > at + CASE_LIMIT.as_millis() as u64 && sl.1.load(SeqCst) == i {
                            report_hang(&root, &prop, sub, json!({"index": i - 1}));
                        }
                    }
                }
            });
            for h in hs {
                tot.merge(h.join().unwrap());
            }
        });
        if let Some((i, f)) = first.into_inner().unwrap() {
            self.violation(sub, json!({"index": i}), &f);
        }
        tot.sample.push(format!("every index 0..{n}"));
        self.record(sub, rule, tot, t0, true);
    }

    /// Results of a stage that runs outside the generator loop (compiled programs): counts and failures given.
    pub fn stage(&mut self, sub: &str, rule: &str, f: impl FnOnce(&mut Obs) -> Vec<(Value, Fail)>) {
        if self.guided.is_some() {
            return;
        }
        if let Some(r) = &self.replay {
            if r["sub"] != sub {
                return;
            }
            self.replayed = true;
        }
        self.exhaustive_all = false;
        let t0 = Instant::now();
        let mut o = Obs::default();
        let fails = f(&mut o);
        let mut reported = false;
        for (d, f) in fails {
            if self.is_known(&f) {
                let e = o.known.entry(f.sig.clone()).or_insert((0, f.msg.clone()));
                e.0 += 1;
            } else if !reported {
                reported = true;
                self.violation(sub, d, &f);
            }
        }
        self.record(sub, rule, o, t0, false);
    }
    pub fn replay_value(&self) -> Option<&Value> {
        self.replay.as_ref()
    }
    pub fn root(&self) -> &str {
        &self.root
    }

    pub fn finish(self) -> i32 {
        if let Some((p, _)) = &self.guided {
            let v = json!({"cases": self.total.cases, "nontrivial": self.total.nontrivial, "checks": self.extra});
            std::fs::write(format!("{}/.build/guided-{}-{}.json", self.root, self.prop, p.worker), v.to_string()).unwrap();
            return if self.violations.is_empty() { 0 } else { 1 };
        }
        if self.replay.is_some() {
            if !self.replayed {
                eprintln!("replay: no such check");
                return 2;
            }
            return if self.violations.is_empty() { 0 } else { 1 };
        }
        let mut cov = json!({
            "evaluations": self.total.cases,
            "distinct_nontrivial": self.total.distinct.len(),
            "rule": self.rules.join(" | "),
            "samples": self.total.sample.iter().take(3).cloned().chain(self.subs.iter().filter_map(|s| s["samples"][0].as_str().map(|x| format!("{}: {}", s["check"].as_str().unwrap(), x)))).collect::<Vec<_>>(),
            "comparisons": self.total.checks,
            "checks": self.subs,
            "known_findings_seen": self.total.known.iter().map(|(k, v)| json!({"sig": k, "cases": v.0, "example": v.1})).collect::<Vec<_>>(),
            "exhaustive": self.exhaustive_all && !self.subs.is_empty(),
        });
        if let Some(d) = crate::dict::get() {
            cov["dictionary"] = json!({"words": d.all.len(), "not_in_the_code_as_first_seen": d.new.len()});
        }
        for (k, v) in &self.extra {
            cov[k] = v.clone();
        }
        let ev = json!({
            "property": self.prop, "tier": if self.thorough { "thorough" } else { "quick" }, "seed": self.seed, "level": "exploration",
            "coverage": cov, "wall_s": self.t0.elapsed().as_secs_f64(), "violations": self.violations.len(),
        });
        std::fs::create_dir_all(format!("{}/evidence", self.root)).ok();
        std::fs::write(format!("{}/evidence/{}.json", self.root, self.prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        println!("{}: {} cases, {} distinct non-trivial, {} violations, {:.1}s", self.prop, self.total.cases, self.total.distinct.len(), self.violations.len(), self.t0.elapsed().as_secs_f64());
        if self.violations.is_empty() {
            0
        } else {
            1
        }
    }
}

/// After a run that ended by a signal was repeated with VH_TRACE: the noted case that ends that way alone is the culprit.
pub fn blame(dir: &str, root: &str) -> i32 {
    let me = std::env::current_exe().expect("harness: own path");
    let mut files: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
    files.sort();
    for f in files {
        let Some(mut v) = std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) else { continue };
        let Ok(o) = std::process::Command::new(&me).arg("replay").arg(&f).env_remove("VH_TRACE").output() else { continue };
        if o.status.code().is_none() || o.status.code().is_some_and(|c| c > 2) {
            let (prop, sub) = (v["property"].as_str().unwrap().to_string(), v["sub"].as_str().unwrap().to_string());
            v["sig"] = json!("abnormal-end");
            v["message"] = json!(format!("running this case ends the process: {} {}", o.status, clip(String::from_utf8_lossy(&o.stderr).into_owned(), 600)));
            let path = format!("{root}/replays/{prop}-{sub}.json");
            std::fs::create_dir_all(format!("{root}/replays")).ok();
            std::fs::write(&path, v.to_string()).unwrap();
            println!("[{prop}/{sub}] {}", v["message"].as_str().unwrap());
            println!("VIOLATION property={prop} replay={path}");
            return 1;
        }
    }
    println!("HARNESS ERROR: the run ended abnormally and no single case explains it");
    2
}

/// The guided search of one property: this program, instrumented, once per worker.
pub fn guided(prop: &str, root: &str) -> i32 {
    let me = std::env::current_exe().expect("harness: own path");
    let ev = format!("{root}/evidence/{prop}.json");
    let mut e: Value = std::fs::read_to_string(&ev).ok().and_then(|t| serde_json::from_str(&t).ok()).expect("harness: evidence of the plain run");
    let total: u64 = std::env::var("VH_GUIDED_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(150);
    let checks = e["coverage"]["checks"].as_array().map_or(1, |c| c.iter().filter(|c| c["exhaustive"] == false).count()).max(1) as u64;
    let kids: Vec<_> = (0..WORKERS)
        .map(|w| {
            std::fs::remove_file(format!("{root}/.build/guided-{prop}-{w}.json")).ok();
            std::process::Command::new(&me)
                .arg(prop)
                .env("VH_GUIDED", format!("{w} {}", total.div_ceil(checks)))
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::inherit())
                .spawn()
                .expect("harness: start a worker")
        })
        .collect();
    let outs: Vec<_> = kids.into_iter().map(|k| k.wait_with_output().expect("harness: wait for a worker")).collect();
    let (mut cases, mut nontrivial, mut all) = (0, 0, vec![]);
    let mut rc = 0;
    for (w, o) in outs.iter().enumerate() {
        if !o.status.success() && rc != 1 {
            print!("{}", String::from_utf8_lossy(&o.stdout));
            rc = o.status.code().unwrap_or(3);
        }
        let Some(v) = std::fs::read_to_string(format!("{root}/.build/guided-{prop}-{w}.json")).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) else { continue };
        cases += v["cases"].as_u64().unwrap_or(0);
        nontrivial += v["nontrivial"].as_u64().unwrap_or(0);
        all.push(v["checks"].clone());
    }
    println!("{prop}: {cases} more cases guided by coverage, {nontrivial} non-trivial");
    e["coverage"]["guided"] = json!({"cases": cases, "nontrivial": nontrivial, "workers": all});
    if rc == 1 {
        e["violations"] = json!(e["violations"].as_u64().unwrap_or(0) + 1);
    }
    std::fs::write(&ev, serde_json::to_string_pretty(&e).unwrap()).unwrap();
    rc
}

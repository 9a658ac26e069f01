//! C25: the command-line program, run as a process on a pseudo terminal that plays the receiver.
use crate::driver::*;
use crate::ensure;
use crate::gen::Gen;
use crate::gens;
use crate::model::frame;
use crate::spec::*;
use chrono::prelude::*;
use std::ffi::CStr;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use ublox::*;

extern "C" {
    fn posix_openpt(flags: i32) -> i32;
    fn grantpt(fd: i32) -> i32;
    fn unlockpt(fd: i32) -> i32;
    fn ptsname_r(fd: i32, buf: *mut std::ffi::c_char, len: usize) -> i32;
    fn ioctl(fd: i32, req: u64, arg: *mut u8) -> i32;
}

#[derive(Debug, Clone, Hash)]
struct Configure {
    port: usize,
    baud: Option<u32>,
    data: Option<u8>,
    stop: Option<u8>,
    parity: Option<bool>,
    /// ublox, nmea, rtcm, rtcm3
    input: [bool; 4],
    /// ublox, nmea, rtcm3
    output: [bool; 3],
}
#[derive(Debug, Clone, Hash)]
struct Chat {
    baud: Option<u32>,
    data: Option<u8>,
    stop: Option<u8>,
    parity: Option<bool>,
    configure: Option<Configure>,
    /// what arrives before each awaited acknowledgement, and whether the program is watched for a while then
    noise: Vec<(Vec<u8>, bool)>,
    stream: Vec<u8>,
    cuts: Vec<usize>,
    pauses: Vec<usize>,
    mark: [u8; 6],
}

const PORTS: [(&str, u8); 3] = [("usb", 3), ("uart1", 1), ("uart2", 2)];

fn line_options(g: &mut Gen) -> (Option<u8>, Option<u8>, Option<bool>) {
    let o = |g: &mut Gen, a: u8, b: u8| match g.below(3) {
        0 => None,
        1 => Some(a),
        _ => Some(b),
    };
    (o(g, 7, 8), o(g, 1, 2), o(g, 0, 1).map(|x| x == 1))
}

fn noise(g: &mut Gen, awaited: (u8, u8)) -> Vec<u8> {
    let one = |g: &mut Gen| -> Vec<u8> {
        match g.below(6) {
            0 => frame(5, 1, &[awaited.0, awaited.1.wrapping_add(1 + g.upto(254) as u8)]),
            1 => frame(5, 1, &[awaited.0.wrapping_add(1 + g.upto(254) as u8), awaited.1]),
            2 => frame(5, 0, &[awaited.0, awaited.1]),
            3 => {
                let mut f = frame(5, 1, &[awaited.0, awaited.1]);
                let n = f.len();
                f[n - 1] ^= 1 + g.upto(254) as u8;
                f
            },
            4 => b"$GNTXT,01,01,02,ANTSTATUS=OK*3B\r\n".to_vec(),
            _ => frame(5, 1, &[awaited.1, awaited.0]),
        }
    };
    g.list(0, 3, 2, |g| one(g)).concat()
}

fn pvt(g: &mut Gen) -> Vec<u8> {
    let mut p = gens::payload(g, pkt("NavPvt"), false);
    if !g.one_in(12) {
        let y = 1990 + g.upto(60) as u16;
        p[4..6].copy_from_slice(&y.to_le_bytes());
        p[6] = 1 + g.upto(11) as u8;
        let d = if g.bool() { 27 } else { 30 };
        p[7] = 1 + g.upto(d) as u8;
        p[8] = g.upto(23) as u8;
        p[9] = g.upto(59) as u8;
        let s = if g.one_in(4) { 60 } else { 59 };
        p[10] = g.upto(s) as u8;
        let ns = g.upto(1_999_999_998) as i64 - 999_999_999;
        p[16..20].copy_from_slice(&(ns as i32).to_le_bytes());
    }
    p[20] = g.upto(6) as u8;
    if g.bool() {
        let v = |g: &mut Gen, m: i64| (g.upto(2 * m as u64) as i64 - m) as i32;
        let (lon, lat, alt) = (v(g, 1_800_000_000), v(g, 900_000_000), v(g, 9_000_000));
        p[24..28].copy_from_slice(&lon.to_le_bytes());
        p[28..32].copy_from_slice(&lat.to_le_bytes());
        p[36..40].copy_from_slice(&alt.to_le_bytes());
    }
    frame(1, 7, &p)
}

fn gen_chat(g: &mut Gen) -> Chat {
    let baud = |g: &mut Gen| match g.below(3) {
        0 => None,
        1 => Some(*g.pick(&[4800u32, 9600, 19200, 38400, 57600, 115200, 230400, 460800])),
        _ => Some(300 + g.upto(3_000_000) as u32),
    };
    let b = baud(g);
    let (data, stop, parity) = line_options(g);
    let configure = if g.one_in(3) {
        let (data, stop, parity) = line_options(g);
        let baud = match baud(g) {
            Some(x) if g.one_in(4) => Some(x ^ (g.upto(u32::MAX as u64) as u32)),
            x => x,
        };
        Some(Configure { port: g.below(3), baud, data, stop, parity, input: [g.bool(), g.bool(), g.one_in(3), g.one_in(3)], output: [g.bool(), g.bool(), g.bool()] })
    } else {
        None
    };
    let noise = vec![(noise(g, (6, 0)), g.one_in(3)), (noise(g, (6, 1)), g.one_in(3))];
    let long = g.one_in(12);
    let stream = g
        .list(0, if long { 40 } else { 8 }, 3, |g| match g.weighted(&[4, 2, 5]) {
            0 => pvt(g),
            1 => {
                let p = gens::payload(g, pkt("MonVer"), false);
                frame(0x0a, 4, &p)
            },
            _ => gens::segment(g, false, 1),
        })
        .concat();
    let total = stream.len() + 14;
    let cuts = if g.bool() { gens::few_cuts(g, total) } else { gens::cuts(g, total) };
    let pauses = if g.bool() { vec![] } else { vec![g.below(4), g.below(8)] };
    let mut mark = [0; 6];
    for m in &mut mark {
        *m = g.byte();
    }
    Chat { baud: b, data, stop, parity, configure, noise, stream, cuts, pauses, mark }
}

enum Exp {
    Text(String),
    /// latitude, longitude, altitude
    Pos([f64; 3]),
    /// speed (both readings of its top bit), heading
    Vel([f64; 2], f64),
}

/// What the program has to print about a stream.
fn expected(d: &[u8]) -> Vec<(Exp, String)> {
    let mut v = vec![];
    let mut p = Parser::<Vec<u8>>::default();
    let mut it = p.consume(d);
    while let Some(r) = it.next() {
        let Ok(k) = r else { continue };
        let what = format!("{k:?}");
        let mut add = |e| v.push((e, what.clone()));
        match &k {
            PacketRef::MonVer(m) => {
                let ext: Vec<&str> = m.extension().collect();
                add(Exp::Text(format!("SW version: {} HW version: {}; Extensions: {:?}\n{:?}\n", m.software_version(), m.hardware_version(), ext, m)));
            },
            PacketRef::NavPvt(s) => {
                let pl = s.as_bytes();
                let i = |o: usize| i32::from_le_bytes(pl[o..o + 4].try_into().unwrap()) as f64;
                let fix = pl[20];
                if fix == 3 || fix == 4 {
                    add(Exp::Pos([i(28) * 1e-7, i(24) * 1e-7, i(36) * 1e-3]));
                    add(Exp::Vel([i(60) * 1e-3, i(60) as i32 as u32 as f64 * 1e-3], i(64) * 1e-5));
                    add(Exp::Text(format!("Sol: {s:?}\n")));
                }
                if fix == 3 || fix == 4 || fix == 5 {
                    let day = NaiveDate::from_ymd_opt(u16::from_le_bytes([pl[4], pl[5]]) as i32, pl[6] as u32, pl[7] as u32);
                    let t = day.and_then(|d| d.and_hms_opt(pl[8] as u32, pl[9] as u32, pl[10] as u32));
                    let ns = i(16) as i64;
                    if let (Some(t), true) = (t, ns.abs() < 1_000_000_000) {
                        let t = DateTime::<Utc>::from_naive_utc_and_offset(t + chrono::Duration::nanoseconds(ns), Utc);
                        add(Exp::Text(format!("Time: {t:?}\n")));
                    }
                }
            },
            _ => add(Exp::Text(format!("{k:?}\n"))),
        }
    }
    v
}

/// Whether a stream holds a fix whose time does not exist.
fn timeless(d: &[u8]) -> bool {
    let mut p = Parser::<Vec<u8>>::default();
    let mut it = p.consume(d);
    while let Some(r) = it.next() {
        if let Ok(PacketRef::NavPvt(s)) = r {
            let pl = s.as_bytes();
            let day = NaiveDate::from_ymd_opt(u16::from_le_bytes([pl[4], pl[5]]) as i32, pl[6] as u32, pl[7] as u32);
            let t = day.and_then(|d| d.and_hms_opt(pl[8] as u32, pl[9] as u32, pl[10] as u32));
            let ns = i32::from_le_bytes(pl[16..20].try_into().unwrap()) as i64;
            if (3..=5).contains(&pl[20]) && (t.is_none() || ns.abs() >= 1_000_000_000) {
                return true;
            }
        }
    }
    false
}

fn numbers(line: &str, labels: &[&str], suffix: &str) -> Option<Vec<f64>> {
    let mut rest = line;
    let mut v = vec![];
    for (i, l) in labels.iter().enumerate() {
        rest = rest.strip_prefix(l)?;
        let end = if i + 1 < labels.len() { rest.find(labels[i + 1])? } else { rest.strip_suffix(suffix)?.len() };
        v.push(rest[..end].parse().ok()?);
        rest = &rest[end..];
    }
    Some(v)
}

fn compare(out: &str, want: &[(Exp, String)]) -> Res {
    let mut rest = out;
    let cut = |s: &str| s.chars().take(300).collect::<String>();
    for (e, what) in want {
        match e {
            Exp::Text(t) => {
                ensure!(rest.starts_with(t.as_str()), "printed", "for {} it should print {:?}; it prints {:?}", cut(what), cut(t), cut(rest));
                rest = &rest[t.len()..];
            },
            Exp::Pos(_) | Exp::Vel(..) => {
                let (line, r) = rest.split_once('\n').unwrap_or((rest, ""));
                rest = r;
                let near = |a: f64, b: f64, unit: f64| (a - b).abs() <= 0.5 * unit + b.abs() * 1e-9 + 1e-9;
                let ok = match e {
                    Exp::Pos(p) => numbers(line, &["Latitude: ", " Longitude: ", " Altitude: "], "m").is_some_and(|n| near(n[0], p[0], 1e-5) && near(n[1], p[1], 1e-5) && near(n[2], p[2], 1e-2)),
                    Exp::Vel(s, h) => numbers(line, &["Speed: ", " m/s Heading: "], " degrees").is_some_and(|n| s.iter().any(|s| near(n[0], *s, 1e-2)) && near(n[1], *h, 1e-2)),
                    Exp::Text(_) => unreachable!(),
                };
                let w = match e {
                    Exp::Pos(p) => format!("latitude {}, longitude {}, altitude {}", p[0], p[1], p[2]),
                    Exp::Vel(s, h) => format!("speed {}, heading {h}", s[0]),
                    Exp::Text(_) => unreachable!(),
                };
                ensure!(ok, "fix", "a fix with {w} is printed as {line:?}");
            },
        }
    }
    ensure!(rest.is_empty(), "printed", "it prints {:?} for nothing received", cut(rest));
    Ok(())
}

struct Run {
    child: Child,
    term: File,
    sent: Vec<u8>,
    out: Arc<Mutex<Vec<u8>>>,
    err: Option<std::thread::JoinHandle<Vec<u8>>>,
    deadline: Instant,
}
impl Drop for Run {
    fn drop(&mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}
impl Run {
    fn start(bin: &Path, args: &[String]) -> Run {
        // O_RDWR | O_NOCTTY | O_NONBLOCK | O_CLOEXEC
        let fd = unsafe { posix_openpt(0o2 | 0o400 | 0o4000 | 0o2000000) };
        let mut name = [0u8; 128];
        let ok = fd >= 0 && unsafe { grantpt(fd) == 0 && unlockpt(fd) == 0 && ptsname_r(fd, name.as_mut_ptr().cast(), name.len()) == 0 };
        if !ok {
            eprintln!("HARNESS ERROR: no pseudo terminal: {}", std::io::Error::last_os_error());
            std::process::exit(2);
        }
        let term = unsafe { File::from_raw_fd(fd) };
        let name = CStr::from_bytes_until_nul(&name).unwrap().to_str().unwrap().to_string();
        let mut c = Command::new(bin);
        c.arg("-p").arg(&name).args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0");
        let mut child = c.spawn().unwrap_or_else(|e| {
            eprintln!("HARNESS ERROR: {}: {e}", bin.display());
            std::process::exit(2)
        });
        let out = Arc::new(Mutex::new(vec![]));
        let (o, mut pipe) = (out.clone(), child.stdout.take().unwrap());
        std::thread::spawn(move || {
            let mut b = [0; 65536];
            while let Ok(n @ 1..) = pipe.read(&mut b) {
                o.lock().unwrap().extend_from_slice(&b[..n]);
            }
        });
        let mut pipe = child.stderr.take().unwrap();
        let err = Some(std::thread::spawn(move || {
            let mut t = vec![];
            pipe.read_to_end(&mut t).ok();
            t
        }));
        Run { child, term, sent: vec![], out, err, deadline: Instant::now() + Duration::from_secs(20) }
    }
    fn pump(&mut self) {
        let mut b = [0; 4096];
        while let Ok(n @ 1..) = self.term.read(&mut b) {
            self.sent.extend_from_slice(&b[..n]);
        }
    }
    /// What an ended program left on its error output.
    fn complaint(&mut self) -> String {
        let t = self.err.take().and_then(|h| h.join().ok()).unwrap_or_default();
        String::from_utf8_lossy(&t).into_owned()
    }
    fn ended(&mut self) -> Option<bool> {
        self.child.try_wait().ok().flatten().map(|s| s.success())
    }
    fn ended_soon(&mut self) -> bool {
        for _ in 0..1000 {
            if self.ended().is_some() {
                return true;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        false
    }
    /// The program sends exactly this, next.
    fn expect(&mut self, at: &mut usize, want: &[u8], what: &str) -> Res {
        loop {
            let end = self.ended();
            self.pump();
            let got = &self.sent[*at..];
            let n = got.len().min(want.len());
            ensure!(got[..n] == want[..n], format!("sends:{what}"), "{what}: it sends {:02x?}, expected {:02x?}", got, want);
            if n == want.len() {
                *at += n;
                return Ok(());
            }
            if end.is_some() {
                let why = self.complaint();
                let known = what == "port configuration" && why.contains("access of `baud`");
                return fail(if known { "configure-baud-id".into() } else { format!("ends:{what}") }, format!("{what}: the program ends instead of sending {want:02x?}: {why}"));
            }
            ensure!(Instant::now() < self.deadline, format!("silent:{what}"), "{what}: the program does not send {want:02x?}, only {got:02x?}");
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    fn quiet(&mut self, at: usize, ms: u64, what: &str) -> Res {
        let t = Instant::now();
        while t.elapsed() < Duration::from_millis(ms) {
            std::thread::sleep(Duration::from_millis(1));
        }
        self.pump();
        ensure!(self.sent.len() == at, format!("goes-on:{what}"), "{what}: it goes on and sends {:02x?}", &self.sent[at..]);
        Ok(())
    }
    fn send(&mut self, mut d: &[u8]) -> Res {
        while !d.is_empty() {
            match self.term.write(d) {
                Ok(n) => d = &d[n..],
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::sleep(Duration::from_micros(300)),
                Err(e) => return fail("write", format!("the terminal fails: {e}")),
            }
            ensure!(self.ended().is_none(), "ends:reading", "the program ends while messages arrive");
            ensure!(Instant::now() < self.deadline, "stuck", "the program does not read what arrives");
        }
        Ok(())
    }
}

fn check(bin: &Path, c: &Chat, o: &mut Obs) -> Res {
    let mut args: Vec<String> = vec![];
    let mut opt = |n: &str, v: Option<String>| {
        if let Some(v) = v {
            args.push(n.into());
            args.push(v);
        }
    };
    let odd = |p: &Option<bool>| p.map(|x| if x { "odd".to_string() } else { "even".to_string() });
    opt("--baud", c.baud.map(|x| x.to_string()));
    opt("--data-bits", c.data.map(|x| x.to_string()));
    opt("--stop-bits", c.stop.map(|x| x.to_string()));
    opt("--parity", odd(&c.parity));
    if let Some(k) = &c.configure {
        args.push("configure".into());
        let mut opt = |n: &str, v: Option<String>| {
            if let Some(v) = v {
                args.push(n.into());
                args.push(v);
            }
        };
        opt("--select", Some(PORTS[k.port].0.into()));
        opt("--baud", k.baud.map(|x| x.to_string()));
        opt("--data-bits", k.data.map(|x| x.to_string()));
        opt("--stop-bits", k.stop.map(|x| x.to_string()));
        opt("--parity", odd(&k.parity));
        for (b, n) in k.input.iter().zip(["--in-ublox", "--in-nmea", "--in-rtcm", "--in-rtcm3"]) {
            if *b {
                args.push(n.into());
            }
        }
        for (b, n) in k.output.iter().zip(["--out-ublox", "--out-nmea", "--out-rtcm3"]) {
            if *b {
                args.push(n.into());
            }
        }
    }
    // the stream, between two marks that the program prints like every unknown message
    let mark = |k: u8| frame(0x77, k, &c.mark);
    let mut whole = mark(1);
    whole.extend_from_slice(&c.stream);
    // what a truncated frame at the end may swallow
    whole.extend_from_slice(&[0; 9000]);
    whole.extend_from_slice(&mark(2));
    let want = match guard(|| expected(&whole)) {
        Ok(w) => w,
        Err(_) => {
            // the recorded finding of C04 in what the library prints
            o.class("left out: a message without debug form");
            return Ok(());
        },
    };
    let texts: Vec<&str> = want.iter().filter_map(|(e, _)| if let Exp::Text(t) = e { Some(t.as_str()) } else { None }).collect();
    let (first, last) = (texts[0].to_string(), texts[texts.len() - 1].to_string());
    if want.len() > 2 {
        o.nt();
    }
    let mut r = Run::start(bin, &args);
    let mut at = 0;
    // a failure that leaves the conversation going
    let mut later: Res = Ok(());
    let show = || format!("ublox-cli {}", args.join(" "));
    let ctx = |x: Res| x.map_err(|f| Fail { sig: f.sig, msg: format!("{}: {}", show(), f.msg) });
    if let Some(k) = &c.configure {
        if k.input[2] && k.input[3] {
            o.class("refused options");
            o.check();
            let end = loop {
                if let Some(e) = r.ended() {
                    break e;
                }
                r.pump();
                ensure!(r.sent.is_empty(), "refuses", "{}: it goes on with RTCM and RTCM3 at once, and sends {:02x?}", show(), r.sent);
                ensure!(Instant::now() < r.deadline, "refuses", "{}: it does not refuse RTCM and RTCM3 at once", show());
                std::thread::sleep(Duration::from_millis(1));
            };
            r.pump();
            ensure!(!end && r.sent.is_empty(), "refuses", "{}: success {end} although RTCM and RTCM3 are asked for, sent {:02x?}", show(), r.sent);
            return Ok(());
        }
        o.class("configure");
        let mut p = vec![PORTS[k.port].1, 0, 0, 0];
        let mode = (if k.data == Some(7) { 0b10u32 } else { 0b11 }) << 6 | (match k.parity {
            Some(true) => 0b001,
            Some(false) => 0b000,
            None => 0b100,
        }) << 9 | (if k.stop == Some(2) { 0b10 } else { 0b00 }) << 12;
        p.extend_from_slice(&mode.to_le_bytes());
        p.extend_from_slice(&k.baud.unwrap_or(9600).to_le_bytes());
        let input = 1u16 | (k.input[1] as u16) << 1 | (k.input[2] as u16) << 2 | (k.input[3] as u16) << 5;
        let mut output = k.output[0] as u16 | (k.output[1] as u16) << 1 | (k.output[2] as u16) << 5;
        if output == 0 {
            output = 1;
        }
        p.extend_from_slice(&input.to_le_bytes());
        p.extend_from_slice(&output.to_le_bytes());
        p.extend_from_slice(&[0; 4]);
        o.check();
        ctx(r.expect(&mut at, &frame(6, 0, &p), "port configuration"))?;
        o.nt();
        ctx(r.send(&c.noise[0].0))?;
        if c.noise[0].1 {
            ctx(r.quiet(at, 40, "before the port configuration is acknowledged"))?;
        }
        ctx(r.send(&frame(5, 1, &[6, 0])))?;
    }
    ctx(r.expect(&mut at, &frame(6, 1, &[1, 7, 0, 1, 1, 1, 0, 0]), "enabling NAV-PVT"))?;
    // the line settings, as the other end sees them
    let mut t = [0u8; 64];
    if unsafe { ioctl(r.term.as_raw_fd(), 0x802c542a, t.as_mut_ptr()) } == 0 {
        o.check();
        let w = |i: usize| u32::from_ne_bytes(t[i..i + 4].try_into().unwrap());
        let (iflag, cflag, speed) = (w(0), w(8), w(40));
        let (cstopb, parodd, inpck) = (0o100, 0o1000, 0o20);
        let baud = c.baud.unwrap_or(9600);
        ensure!(speed == baud, "line:baud", "{}: the port runs at {speed} baud", show());
        ensure!((cflag & cstopb != 0) == (c.stop == Some(2)), "line:stop bits", "{}: two stop bits: {}", show(), cflag & cstopb != 0);
        ensure!((iflag & inpck != 0) == c.parity.is_some(), "line:parity", "{}: parity checked: {}", show(), iflag & inpck != 0);
        if let Some(odd) = c.parity {
            if (cflag & parodd != 0) != odd {
                later = fail("parity-exchanged", format!("{}: odd parity: {}", show(), cflag & parodd != 0));
            }
        }
    } else {
        o.class("line settings not visible");
    }
    {
        // the number of data bits is not kept by a pseudo terminal; the program tells it
        let out = String::from_utf8_lossy(&r.out.lock().unwrap()).into_owned();
        let told: Vec<&str> = ["Five", "Six", "Seven", "Eight"].into_iter().filter(|b| out.contains(&format!("data_bits: {b}"))).collect();
        if !told.is_empty() {
            ensure!(told == [if c.data == Some(7) { "Seven" } else { "Eight" }], "line:data bits", "{}: it says data bits {told:?}", show());
        }
    }
    ctx(r.send(&c.noise[1].0))?;
    if c.noise[1].1 {
        ctx(r.quiet(at, 40, "before NAV-PVT is acknowledged"))?;
    }
    ctx(r.send(&frame(5, 1, &[6, 1])))?;
    ctx(r.expect(&mut at, &frame(0x0a, 4, &[]), "asking for MON-VER"))?;
    let died = |r: &mut Run| -> Res {
        let why = r.complaint();
        let known = timeless(&whole) && why.contains("parse NAV-PVT time");
        fail(if known { "pvt-time" } else { "ends:reading" }, format!("{}: the program ends while it reads {:02x?}: {why}", show(), &c.stream[..c.stream.len().min(400)]))
    };
    let mut pos = 0;
    for (i, n) in c.cuts.iter().copied().chain([whole.len()]).enumerate() {
        let e = (pos + n).min(whole.len());
        if let Err(f) = r.send(&whole[pos..e]) {
            if r.ended_soon() {
                later?;
                return died(&mut r);
            }
            return ctx(Err(f));
        }
        pos = e;
        if c.pauses.contains(&i) {
            std::thread::sleep(Duration::from_millis(12));
        }
    }
    let out = loop {
        let end = r.ended();
        let s = String::from_utf8_lossy(&r.out.lock().unwrap()).into_owned();
        if let Some(e) = s.rfind(&last) {
            let a = s.find(&first);
            ensure!(a.is_some_and(|a| a <= e), "printed", "{}: the message before the stream is not printed", show());
            break s[a.unwrap()..e + last.len()].to_string();
        }
        if end.is_some() {
            later?;
            return died(&mut r);
        }
        ensure!(Instant::now() < r.deadline, "printed", "{}: the message after the stream is never printed", show());
        std::thread::sleep(Duration::from_micros(500));
    };
    o.check();
    o.class(format!("things printed: {}", match want.len() - 2 { 0 => "none", 1..=3 => "1 to 3", 4..=10 => "4 to 10", _ => "more" }));
    ctx(compare(&out, &want))?;
    r.pump();
    ensure!(r.sent.len() == at, "sends:more", "{}: it also sends {:02x?}", show(), &r.sent[at..]);
    later
}

fn build(root: &str) -> PathBuf {
    let dir = PathBuf::from(format!("{root}/.build/cli"));
    let src = dir.join("src");
    std::fs::remove_dir_all(&src).ok();
    std::fs::create_dir_all(&src).ok();
    let repo = PathBuf::from("/repo");
    for f in ["Cargo.toml", "Cargo.lock", "README.md", "rust-toolchain", "rust-toolchain.toml"] {
        std::fs::copy(repo.join(f), src.join(f)).ok();
    }
    for d in ["ublox", "ublox_derive", "examples"] {
        super::lab::copy(&repo.join(d), &src.join(d));
    }
    let out = Command::new("cargo")
        .args(["build", "--offline", "--package", "ublox-cli"])
        .current_dir(src.join("examples"))
        .env("CARGO_TARGET_DIR", dir.join("target"))
        .env("CARGO_NET_OFFLINE", "true")
        .output()
        .expect("harness: cargo");
    if !out.status.success() {
        eprintln!("HARNESS ERROR: the command-line program does not build:\n{}", String::from_utf8_lossy(&out.stderr));
        std::process::exit(2);
    }
    dir.join("target/debug/ublox-cli")
}

pub fn c25(c: &mut Ctx) {
    let bin = build(c.root());
    c.sub(
        "conversations",
        "the program started with generated options on a pseudo terminal: the configuration it sends, the line settings, what it does before an acknowledgement arrives (other acknowledgements, refusals, damaged ones), and what it prints about a generated stream cut anywhere; non-trivial: a port is configured or messages are received",
        c.n(3_000, 100_000),
        gen_chat,
        |x, o| check(&bin, x, o),
    );
}

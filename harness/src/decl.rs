//! Generated declarations for the macros of ublox_derive: their source text and their meaning (model).
use crate::gen::Gen;
use std::fmt::Write;

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Fty {
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    F32,
    F64,
    Bytes(usize),
    Unsized,
}
impl Fty {
    pub fn size(self) -> usize {
        match self {
            Fty::U8 | Fty::I8 => 1,
            Fty::U16 | Fty::I16 => 2,
            Fty::U32 | Fty::I32 | Fty::F32 => 4,
            Fty::F64 => 8,
            Fty::Bytes(n) => n,
            Fty::Unsized => 0,
        }
    }
    pub fn text(self) -> String {
        match self {
            Fty::Bytes(n) => format!("[u8; {n}]"),
            Fty::Unsized => "[u8; 0]".into(),
            x => x.word().into(),
        }
    }
    fn word(self) -> &'static str {
        match self {
            Fty::U8 => "u8",
            Fty::I8 => "i8",
            Fty::U16 => "u16",
            Fty::I16 => "i16",
            Fty::U32 => "u32",
            Fty::I32 => "i32",
            Fty::F32 => "f32",
            Fty::F64 => "f64",
            _ => "",
        }
    }
    fn signed(self) -> bool {
        matches!(self, Fty::I8 | Fty::I16 | Fty::I32)
    }
    fn int(self) -> bool {
        !matches!(self, Fty::F32 | Fty::F64 | Fty::Bytes(_) | Fty::Unsized)
    }
    pub fn read(self, b: &[u8]) -> i128 {
        let mut x = 0u128;
        for (i, v) in b.iter().enumerate() {
            x |= (*v as u128) << (8 * i);
        }
        let n = 8 * b.len() as u32;
        if self.signed() && n > 0 && x >> (n - 1) & 1 == 1 {
            x as i128 - (1i128 << n)
        } else {
            x as i128
        }
    }
    fn bytes(self, v: i128) -> Vec<u8> {
        (v as u128).to_le_bytes()[..self.size()].to_vec()
    }
    fn float(self, b: &[u8]) -> f64 {
        match self {
            Fty::F32 => f32::from_le_bytes(b.try_into().unwrap()) as f64,
            Fty::F64 => f64::from_le_bytes(b.try_into().unwrap()),
            t => t.read(b) as f64,
        }
    }
}
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Chk {
    No,
    /// may_fail with the type's own is_valid / from_unchecked
    Own,
    /// may_fail with is_valid = path
    Path,
}
#[derive(Clone, Debug, Hash, PartialEq)]
pub enum Fmap {
    Plain,
    /// map_type f32 / f64
    Float { single: bool, scale: Option<&'static str> },
    /// scale without a mapped type, on a float
    BareScale(&'static str),
    Widen(&'static str),
    Enum(usize),
    Flags(usize),
    Word { from: bool, into: bool, fail: Chk },
    /// byte array as a reference
    Tag { fail: bool },
    /// variable-size part: (byte of the fixed part, modulus, factor), None: everything that is left
    Rest { size: Option<(usize, usize, usize)>, fail: bool, opt: bool },
}
#[derive(Clone, Debug, Hash)]
pub struct Fld {
    pub name: String,
    pub alias: Option<String>,
    pub ty: Fty,
    pub map: Fmap,
    pub doc: bool,
    /// attribute order
    pub rot: usize,
}
impl Fld {
    pub fn get(&self) -> &str {
        self.alias.as_deref().unwrap_or(&self.name)
    }
}
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Kind {
    Recv,
    Send,
    RecvSend,
}
#[derive(Clone, Debug, Hash)]
pub struct Decl {
    pub name: String,
    pub kind: Kind,
    pub class: u8,
    pub id: u8,
    pub fields: Vec<Fld>,
    /// trailing list of items (send only)
    pub items: Option<String>,
    pub default: bool,
    pub max: Option<u16>,
    pub rot: usize,
}
#[derive(Clone, Debug, Hash)]
pub struct EnumD {
    pub name: String,
    pub variants: Vec<(String, u8)>,
    /// from + rest_reserved, else from_unchecked + rest_error (or nothing)
    pub reserved: bool,
    pub rest_error: bool,
    pub into: bool,
    pub rot: usize,
    pub public: bool,
    pub hex: bool,
}
#[derive(Clone, Debug, Hash)]
pub struct FlagsD {
    pub name: String,
    pub bits: u32,
    pub consts: Vec<(String, u32)>,
    pub into: bool,
    pub rot: usize,
    pub hex: bool,
}
#[derive(Clone, Debug, Hash)]
pub struct Group {
    pub enums: Vec<EnumD>,
    pub flags: Vec<FlagsD>,
    pub decls: Vec<Decl>,
}

const SCALES: &[&str] = &["1e-1", "1e-2", "1e-3", "1e-5", "1e-7", "0.5", "0.25", "0.01", "4.0", "1.0", "2e-3", "0.1"];
const STEMS: &[&str] = &["itow", "lat", "val", "reserved", "cnt", "spd", "x", "payload_len", "mask", "got", "min", "data", "off"];

fn name(g: &mut Gen, k: usize) -> String {
    format!("{}{k}", g.pick(STEMS))
}
fn rotate<T>(v: &mut Vec<T>, r: usize) {
    if !v.is_empty() {
        let n = r % v.len();
        v.rotate_left(n);
    }
}

pub fn gen_enum(g: &mut Gen, name: String) -> EnumD {
    let n = match g.below(6) {
        0 => 1,
        1..=3 => g.range(1, 8),
        4 => g.range(5, 40),
        _ => {
            if g.chance(40) {
                256
            } else {
                g.range(30, 120)
            }
        },
    };
    let mut codes: Vec<u8> = vec![];
    let mut at = if g.bool() { 0 } else { g.byte() };
    while codes.len() < n {
        if !codes.contains(&at) {
            codes.push(at);
            at = if g.chance(150) { at.wrapping_add(1) } else { g.byte() };
        } else {
            at = at.wrapping_add(1);
        }
    }
    if g.bool() {
        codes.reverse();
    }
    let variants = codes.iter().enumerate().map(|(i, c)| (format!("{}{i}", ["V", "Mode", "Fix2D", "NoFix"][*c as usize % 4]), *c)).collect::<Vec<_>>();
    let reserved = g.chance(150);
    EnumD { name, variants, reserved, rest_error: g.chance(200), into: g.bool(), rot: g.below(6), public: g.bool(), hex: g.chance(60) }
}
impl EnumD {
    pub fn text(&self) -> String {
        let mut a = vec![];
        if self.reserved {
            a.push("from");
            // a complete enum needs no rest handling
            if self.variants.len() < 256 || self.rot % 2 == 0 {
                a.push("rest_reserved");
            }
        } else {
            a.push("from_unchecked");
            if self.rest_error {
                a.push("rest_error");
            }
        }
        if self.into {
            a.push("into_raw");
        }
        rotate(&mut a, self.rot);
        let mut s = format!("#[ubx_extend]\n#[ubx({})]\n#[repr(u8)]\n#[derive(Debug, Copy, Clone, PartialEq, Eq)]\n{}enum {} {{\n", a.join(", "), if self.public { "pub " } else { "" }, self.name);
        for (n, c) in &self.variants {
            if self.hex {
                writeln!(s, "    {n} = {c:#x},").unwrap();
            } else {
                writeln!(s, "    {n} = {c},").unwrap();
            }
        }
        s.push_str("}\n");
        s
    }
    pub fn named(&self, code: u8) -> Option<&str> {
        self.variants.iter().find(|v| v.1 == code).map(|v| v.0.as_str())
    }
    pub fn debug(&self, code: u8) -> String {
        self.named(code).map(|s| s.to_string()).unwrap_or(format!("Reserved{code}"))
    }
}
pub fn gen_flags(g: &mut Gen, name: String) -> FlagsD {
    let bits = *g.pick(&[8u32, 16, 32]);
    let n = match g.below(5) {
        0 => 1,
        1 => g.range(1, bits as usize),
        2 => bits as usize,
        _ => g.range(1, 6),
    };
    let mut v: Vec<u32> = vec![];
    while v.len() < n {
        let mut b = g.below(bits as usize) as u32;
        while v.contains(&b) {
            b = (b + 1) % bits;
        }
        v.push(b);
    }
    let consts = v.into_iter().enumerate().map(|(i, b)| (format!("{}_{i}", ["VALID", "ON", "FLAG", "X"][(i + b as usize) % 4]), b)).collect();
    FlagsD { name, bits, consts, into: g.bool(), rot: g.below(6), hex: g.bool() }
}
impl FlagsD {
    pub fn text(&self) -> String {
        let mut a = vec!["from", "rest_reserved"];
        if self.into {
            a.push("into_raw");
        }
        rotate(&mut a, self.rot);
        let mut s = format!("#[ubx_extend_bitflags]\n#[ubx({})]\nbitflags! {{\n    #[derive(Default, Debug, Clone, Copy, PartialEq, Eq)]\n    pub struct {}: u{} {{\n", a.join(", "), self.name, self.bits);
        for (n, b) in &self.consts {
            let v = 1u64 << b;
            if self.hex {
                writeln!(s, "        const {n} = {v:#x};").unwrap();
            } else {
                writeln!(s, "        const {n} = {v};").unwrap();
            }
        }
        s.push_str("    }\n}\n");
        s
    }
}

fn gen_field(g: &mut Gen, k: usize, kind: Kind, gr: &Group) -> Fld {
    let send = kind != Kind::Recv;
    let nm = name(g, k);
    let alias = if g.chance(70) { Some(format!("{}_al{k}", g.pick(STEMS))) } else { None };
    let doc = g.chance(60);
    let rot = g.below(5);
    let f = |ty, map| Fld { name: nm.clone(), alias: alias.clone(), ty, map, doc, rot };
    let int = |g: &mut Gen| *g.pick(&[Fty::U8, Fty::I8, Fty::U16, Fty::I16, Fty::U32, Fty::I32]);
    match g.weighted(&[8, 4, 6, 2, 4, 4, 5, 2]) {
        0 => {
            let t = *g.pick(&[Fty::U8, Fty::I8, Fty::U16, Fty::I16, Fty::U32, Fty::I32, Fty::F32, Fty::F64]);
            f(t, Fmap::Plain)
        },
        1 => {
            let n = match g.weighted(&[10, 8, 2]) {
                0 => g.range(1, 6),
                1 => g.range(1, 32),
                // longer arrays have no serialised form, which receivers need
                _ if kind == Kind::Send => g.range(33, 400),
                _ => g.range(20, 32),
            };
            f(Fty::Bytes(n), Fmap::Plain)
        },
        2 => {
            let single = g.bool();
            let ty = if single { *g.pick(&[Fty::U8, Fty::I8, Fty::U16, Fty::I16]) } else { int(g) };
            if send {
                f(ty, Fmap::Float { single, scale: Some(g.pick(SCALES)) })
            } else {
                let ty = if !single && g.chance(30) { Fty::F32 } else { ty };
                let scale = if g.chance(200) { Some(*g.pick(SCALES)) } else { None };
                f(ty, Fmap::Float { single, scale })
            }
        },
        3 if !send => {
            if g.bool() {
                f(if g.bool() { Fty::F32 } else { Fty::F64 }, Fmap::BareScale(g.pick(SCALES)))
            } else {
                let t = *g.pick(&[Fty::U8, Fty::I8, Fty::U16, Fty::I16]);
                f(t, Fmap::Widen(if t.signed() { *g.pick(&["i32", "i64"]) } else { *g.pick(&["i32", "u32", "u64", "i64"]) }))
            }
        },
        4 => {
            let c: Vec<usize> = (0..gr.enums.len()).filter(|i| !send || gr.enums[*i].into).collect();
            if c.is_empty() {
                return f(Fty::U8, Fmap::Plain);
            }
            f(Fty::U8, Fmap::Enum(*g.pick(&c)))
        },
        5 => {
            let c: Vec<usize> = (0..gr.flags.len()).filter(|i| !send || gr.flags[*i].into).collect();
            if c.is_empty() {
                return f(Fty::U16, Fmap::Plain);
            }
            let i = *g.pick(&c);
            f(match gr.flags[i].bits {
                8 => Fty::U8,
                16 => Fty::U16,
                _ => Fty::U32,
            }, Fmap::Flags(i))
        },
        6 => {
            let fail = *g.pick(&[Chk::No, Chk::No, Chk::Own, Chk::Path]);
            f(int(g), Fmap::Word { from: g.bool(), into: g.bool(), fail })
        },
        7 if !send => {
            let n = if g.chance(40) { g.range(41, 300) } else { g.range(1, 40) };
            f(Fty::Bytes(n), Fmap::Tag { fail: g.bool() })
        },
        _ => f(int(g), Fmap::Plain),
    }
}
pub fn gen_decl(g: &mut Gen, k: usize, kind: Kind, ids: &[(u8, u8)], gr: &Group) -> Decl {
    let (class, id) = *g.pick(ids);
    let n = match g.weighted(&[4, 4, 12, 1]) {
        0 => 1,
        1 => g.range(1, 3),
        2 => g.range(2, 12),
        _ => g.range(13, 48),
    };
    let mut fields: Vec<Fld> = (0..n).map(|i| gen_field(g, i, kind, gr)).collect();
    if g.chance(30) {
        // a long packet: byte arrays between the other fields
        let k = g.range(6, 12);
        for j in 0..k {
            let at = g.below(fields.len() + 1);
            let size = g.range(24, 32);
            fields.insert(at, Fld { name: name(g, 100 + j), alias: None, ty: Fty::Bytes(size), map: Fmap::Plain, doc: false, rot: 0 });
        }
    }
    let fixed: usize = fields.iter().map(|f| f.ty.size()).sum();
    let mut items = None;
    let mut open = false;
    if kind == Kind::Recv && g.chance(110) {
        open = true;
        let m = if g.chance(50) { g.range(3, 5) } else { g.below(3) };
        for j in 0..m {
            let size = (g.below(fixed), g.range(1, 5), g.range(1, 4));
            // an Option of a number: present when four bytes long
            let opt = g.chance(60);
            fields.push(Fld { name: name(g, n + j), alias: None, ty: Fty::Unsized, map: Fmap::Rest { size: Some(size), fail: g.chance(100), opt }, doc: false, rot: g.below(5) });
        }
        if m == 0 || g.chance(90) {
            let opt = g.chance(60);
            fields.push(Fld { name: name(g, n + m), alias: if g.chance(60) { Some(format!("tail_al{}", n + m)) } else { None }, ty: Fty::Unsized, map: Fmap::Rest { size: None, fail: g.chance(100), opt }, doc: false, rot: g.below(5) });
        }
    }
    if kind == Kind::Send && g.chance(90) {
        open = true;
        items = Some(name(g, n));
    }
    let simple = fields.iter().all(|f| !matches!(f.map, Fmap::Enum(_)) && !matches!(f.ty, Fty::Bytes(33..)));
    let default = kind != Kind::Recv && simple && items.is_none() && g.bool();
    let max = if open { Some(fixed as u16 + g.below(400) as u16) } else { None };
    Decl { name: format!("P{k}"), kind, class, id, fields, items, default, max, rot: g.below(5) }
}
pub fn gen_group(g: &mut Gen, decls: usize) -> Group {
    let mut gr = Group { enums: vec![], flags: vec![], decls: vec![] };
    let e = g.range(1, 3);
    for i in 0..e {
        // small ones: the dispatcher needs payloads that fit
        let mut d = gen_enum(g, format!("E{i}"));
        if i == 0 {
            d.into = true;
        }
        gr.enums.push(d);
    }
    let fl = g.range(1, 3);
    for i in 0..fl {
        let mut d = gen_flags(g, format!("B{i}"));
        if i == 0 {
            d.into = true;
        }
        gr.flags.push(d);
    }
    let m = g.range(1, 4);
    let ids: Vec<(u8, u8)> = (0..m).map(|_| (*g.pick(&[1, 6, 0x13, 0xf0, 0, 0xff]), g.byte())).collect();
    let n = if decls == 0 { g.range(1, 8) } else { decls };
    for k in 0..n {
        let kind = *g.pick(&[Kind::Recv, Kind::Recv, Kind::RecvSend, Kind::Send]);
        let d = gen_decl(g, k, kind, &ids, &gr);
        gr.decls.push(d);
    }
    gr
}

impl Decl {
    pub fn recv(&self) -> bool {
        self.kind != Kind::Send
    }
    pub fn send(&self) -> bool {
        self.kind != Kind::Recv
    }
    pub fn fixed(&self) -> usize {
        self.fields.iter().map(|f| f.ty.size()).sum()
    }
    pub fn header(&self) -> Vec<String> {
        let mut h = vec![format!("class = {:#04x}", self.class), format!("id = {}", self.id)];
        match self.max {
            Some(m) => h.push(format!("max_payload_len = {m}")),
            None => h.push(format!("fixed_payload_len = {}", self.fixed())),
        }
        if self.default {
            h.push("flags = \"default_for_builder\"".into());
        }
        rotate(&mut h, self.rot);
        h
    }
    pub fn macro_name(&self) -> &'static str {
        match self.kind {
            Kind::Recv => "ubx_packet_recv",
            Kind::Send => "ubx_packet_send",
            Kind::RecvSend => "ubx_packet_recv_send",
        }
    }
    pub fn field_lines(&self) -> Vec<String> {
        let mut v: Vec<String> = self
            .fields
            .iter()
            .map(|f| {
                let mut s = String::new();
                if f.doc {
                    writeln!(s, "    /// the {} of it", f.name).unwrap();
                }
                let a = self.attr(f);
                if !a.is_empty() {
                    writeln!(s, "    #[ubx({})]", a.join(", ")).unwrap();
                }
                write!(s, "    {}: {},", f.name, f.ty.text()).unwrap();
                s
            })
            .collect();
        if let Some(i) = &self.items {
            v.push(format!("    {i}: &'a [LabItem],"));
        }
        v
    }
    pub fn attr(&self, f: &Fld) -> Vec<String> {
        let mut a: Vec<String> = vec![];
        let path = |s: &str| format!("{s}_{}", f.ty.word());
        match &f.map {
            Fmap::Plain => (),
            Fmap::Float { single, scale } => {
                a.push(format!("map_type = {}", if *single { "f32" } else { "f64" }));
                if let Some(s) = scale {
                    a.push(format!("scale = {s}"));
                }
            },
            Fmap::BareScale(s) => a.push(format!("scale = {s}")),
            Fmap::Widen(t) => a.push(format!("map_type = {t}")),
            Fmap::Enum(i) => {
                a.push(format!("map_type = E{i}"));
                if ENUM_FAIL.with(|e| e.borrow().contains(i)) {
                    a.push("may_fail".into());
                }
            },
            Fmap::Flags(i) => a.push(format!("map_type = B{i}")),
            Fmap::Word { from, into, fail } => {
                a.push(format!("map_type = {}", path("LabW")));
                if *from {
                    a.push(format!("from = {}", path("lab_from")));
                }
                if *into {
                    a.push(format!("into = {}", path("lab_into")));
                }
                if *fail != Chk::No {
                    a.push("may_fail".into());
                }
                if *fail == Chk::Path {
                    a.push(format!("is_valid = {}", path("lab_valid")));
                }
            },
            Fmap::Tag { fail } => {
                a.push("map_type = LabTag".into());
                a.push("from = LabTag::new".into());
                a.push("get_as_ref".into());
                if *fail {
                    a.push("is_valid = lab_bytes_ok".into());
                    a.push("may_fail".into());
                }
            },
            Fmap::Rest { size, fail, opt } => {
                if *opt {
                    a.push("map_type = Option<u32>".into());
                    a.push("from = lab_opt".into());
                } else {
                    a.push("map_type = LabIter".into());
                    a.push("from = LabIter::new".into());
                }
                if size.is_some() {
                    a.push(format!("size_fn = {}_size", f.name));
                }
                if *fail {
                    a.push("is_valid = lab_bytes_ok".into());
                    a.push("may_fail".into());
                }
            },
        }
        if let Some(x) = &f.alias {
            a.push(format!("alias = {x}"));
        }
        rotate(&mut a, f.rot);
        a
    }
    /// The declaration alone.
    pub fn text(&self) -> String {
        self.text_with(&[format!("#[ubx({})]", self.header().join(", "))], &self.field_lines())
    }
    pub fn text_with(&self, attrs: &[String], fields: &[String]) -> String {
        let lt = if self.items.is_some() { "<'a>" } else { "" };
        format!("#[{}]\n{}\nstruct {}{lt} {{\n{}\n}}\n", self.macro_name(), attrs.join("\n"), self.name, fields.join("\n"))
    }
    /// Methods the declaration refers to.
    pub fn helpers(&self) -> String {
        let mut s = String::new();
        if !self.recv() {
            return s;
        }
        for f in &self.fields {
            if let Fmap::Rest { size: Some((o, m, k)), .. } = &f.map {
                writeln!(s, "impl {}Ref<'_> {{ fn {}_size(&self) -> usize {{ (self.as_bytes()[{o}] as usize % {m}) * {k} }} }}", self.name, f.name).unwrap();
            }
        }
        s
    }

    // ---- meaning
    /// (field, start, end) in a payload that is long enough
    fn parts(&self, pl: &[u8]) -> Vec<(usize, usize)> {
        let mut at = 0;
        self.fields
            .iter()
            .map(|f| {
                let n = match &f.map {
                    Fmap::Rest { size: Some((o, m, k)), .. } => (pl[*o] as usize % m) * k,
                    Fmap::Rest { size: None, .. } => pl.len() - at.min(pl.len()),
                    _ => f.ty.size(),
                };
                at += n;
                (at - n, at)
            })
            .collect()
    }
    pub fn accepts(&self, pl: &[u8], gr: &Group) -> bool {
        let fixed = self.fixed();
        if self.max.is_none() {
            if pl.len() != fixed {
                return false;
            }
        } else if pl.len() < fixed {
            return false;
        }
        let parts = self.parts(pl);
        if parts.last().is_some_and(|p| p.1 > pl.len()) || parts.iter().any(|p| p.0 > pl.len()) {
            return false;
        }
        self.fields.iter().zip(&parts).all(|(f, (a, b))| match &f.map {
            Fmap::Enum(i) => {
                let e = &gr.enums[*i];
                e.reserved || e.named(pl[*a]).is_some()
            },
            Fmap::Word { fail, .. } => word_ok(*fail, f.ty.read(&pl[*a..*b])),
            Fmap::Tag { fail: true } => bytes_ok(&pl[*a..*b]),
            // the check of a variable part sees everything from its start
            Fmap::Rest { fail: true, .. } => bytes_ok(&pl[*a..]),
            _ => true,
        })
    }
    /// Expected dump of a delivered payload.
    pub fn dump(&self, pl: &[u8], gr: &Group) -> Vec<String> {
        let parts = self.parts(pl);
        let mut v = vec![self.name.clone(), format!("{}:{}", self.class, self.id), format!("b:{}", hex(pl))];
        for (f, (a, b)) in self.fields.iter().zip(parts) {
            let raw = &pl[a..b];
            let g = f.get();
            let plain = |t: Fty| match t {
                Fty::F32 => format!("s:{:08x}", t.read(raw)),
                Fty::F64 => format!("d:{:016x}", t.read(raw)),
                Fty::Bytes(_) | Fty::Unsized => format!("b:{}", hex(raw)),
                t => format!("i:{}", t.read(raw)),
            };
            if f.map != Fmap::Plain && !matches!(f.map, Fmap::BareScale(_) | Fmap::Rest { .. }) {
                v.push(format!("{g}_raw={}", plain(f.ty)));
            }
            v.push(format!(
                "{g}={}",
                match &f.map {
                    Fmap::Plain => plain(f.ty),
                    Fmap::Float { single: true, scale } => format!("s:{:08x}", (f.ty.float(raw) as f32 * scale.map_or(1.0, |s| s.parse::<f32>().unwrap())).to_bits()),
                    Fmap::Float { single: false, scale } => format!("d:{:016x}", (f.ty.float(raw) * scale.map_or(1.0, |s| s.parse::<f64>().unwrap())).to_bits()),
                    Fmap::BareScale(s) =>
                        if f.ty == Fty::F32 {
                            format!("s:{:08x}", (f.ty.float(raw) as f32 * s.parse::<f32>().unwrap()).to_bits())
                        } else {
                            format!("d:{:016x}", (f.ty.float(raw) * s.parse::<f64>().unwrap()).to_bits())
                        },
                    Fmap::Widen(_) => format!("i:{}", f.ty.read(raw)),
                    Fmap::Enum(i) => format!("e:{}:{}", gr.enums[*i].debug(raw[0]), raw[0]),
                    Fmap::Flags(_) => format!("i:{}", f.ty.read(raw)),
                    Fmap::Word { from, fail, .. } => format!("i:{}", f.ty.read(&f.ty.bytes(f.ty.read(raw) ^ word_key(*from, *fail)))),
                    Fmap::Tag { .. } => format!("b:{}", hex(raw)),
                    Fmap::Rest { opt: true, .. } =>
                        if raw.len() == 4 {
                            format!("i:{}", Fty::U32.read(raw))
                        } else {
                            "none".into()
                        },
                    Fmap::Rest { .. } => format!("b:{}", hex(raw)),
                }
            ));
        }
        v.push("debug".into());
        v
    }
    /// Random payload; mostly one that fits.
    pub fn payload(&self, g: &mut Gen, gr: &Group) -> Vec<u8> {
        let mut pl = vec![];
        let sloppy = g.chance(50);
        for f in &self.fields {
            match (&f.map, f.ty) {
                (Fmap::Enum(i), _) => {
                    let e = &gr.enums[*i];
                    if sloppy || (e.reserved && g.bool()) {
                        pl.push(g.byte());
                    } else {
                        let v = g.pick(&e.variants).1;
                        pl.push(v);
                    }
                },
                (Fmap::Word { fail, .. }, t) => {
                    let mut x = g.int(8 * t.size() as u32) as i128;
                    if !sloppy {
                        while !word_ok(*fail, t.read(&t.bytes(x))) {
                            x += 1;
                        }
                    }
                    pl.extend(t.bytes(x));
                },
                (Fmap::Tag { .. }, Fty::Bytes(n)) => {
                    let b = g.fill(n);
                    pl.extend(b);
                    if !sloppy {
                        let k = pl.len() - n;
                        pl[k] &= 0x7f;
                    }
                },
                (_, Fty::Unsized) => (),
                (_, t) => {
                    let b = g.fill(t.size());
                    pl.extend(b);
                },
            }
        }
        if self.max.is_some() && pl.len() >= self.fixed() {
            let need = {
                // long enough to locate every part
                let mut big = pl.clone();
                big.resize(pl.len() + 128, 0);
                let p = self.parts(&big);
                let last = &self.fields[self.fields.len() - 1];
                match (&last.map, p.last()) {
                    (Fmap::Rest { size: None, .. }, Some(x)) => x.0,
                    (_, Some(x)) => x.1,
                    _ => pl.len(),
                }
            };
            let extra = if g.bool() { g.below(5) } else { g.below(30) };
            let extra = if matches!(self.fields.last().unwrap().map, Fmap::Rest { size: None, .. }) || g.chance(40) { extra } else { 0 };
            let n = need + extra - pl.len();
            let mut t = g.fill(n);
            if !sloppy {
                for x in &mut t {
                    *x &= 0x7f;
                }
            }
            pl.extend(t);
        }
        match g.below(14) {
            0 => {
                let n = g.below(pl.len() + 1);
                pl.truncate(n);
            },
            1 => {
                pl.pop();
            },
            2 => pl.push(g.byte()),
            3 => {
                let n = g.below(9);
                let b = g.bytes(n);
                pl.extend(b);
            },
            _ => (),
        }
        pl
    }
    /// Builder input: tokens, and the payload they stand for.
    pub fn values(&self, g: &mut Gen, gr: &Group) -> (Vec<String>, Vec<u8>) {
        let mut toks = vec![];
        let mut pl = vec![];
        for f in &self.fields {
            let n = f.ty.size();
            match (&f.map, f.ty) {
                (Fmap::Plain, Fty::Bytes(_)) => {
                    let b = g.fill(n);
                    toks.push(hex(&b));
                    pl.extend(b);
                },
                (Fmap::Plain, Fty::F32 | Fty::F64) => {
                    let x = g.int(8 * n as u32);
                    toks.push(x.to_string());
                    pl.extend(&x.to_le_bytes()[..n]);
                },
                (Fmap::Float { single, scale }, t) => {
                    let bits = 8 * n as u32;
                    let r = t.read(&g.int(bits).to_le_bytes()[..n]);
                    let x = if *single { (r as f32 * scale.unwrap().parse::<f32>().unwrap()).to_bits() as u64 } else { (r as f64 * scale.unwrap().parse::<f64>().unwrap()).to_bits() };
                    toks.push(x.to_string());
                    pl.extend(t.bytes(r));
                },
                (Fmap::Enum(i), _) => {
                    let e = &gr.enums[*i];
                    let c = if e.reserved && g.bool() { g.byte() } else { g.pick(&e.variants).1 };
                    toks.push(c.to_string());
                    pl.push(c);
                },
                (Fmap::Word { into, .. }, t) => {
                    let x = t.read(&g.int(8 * n as u32).to_le_bytes()[..n]);
                    toks.push(x.to_string());
                    pl.extend(t.bytes(x ^ if *into { 0x2b } else { 0x15 }));
                },
                (_, t) => {
                    let x = t.read(&g.int(8 * n as u32).to_le_bytes()[..n]);
                    toks.push(x.to_string());
                    pl.extend(t.bytes(x));
                },
            }
        }
        if self.items.is_some() {
            let k = g.below(6);
            let mut b = vec![];
            for _ in 0..k {
                let (n, s) = (g.below(7) as u8, g.byte());
                b.extend([n, s]);
                pl.extend((0..n).map(|i| s.wrapping_add(i)));
            }
            toks.push(hex(&b));
        }
        (toks, pl)
    }
    /// The payload of the default builder.
    pub fn zero(&self) -> Vec<u8> {
        self.fields
            .iter()
            .flat_map(|f| match f.map {
                Fmap::Word { into, .. } => f.ty.bytes(if into { 0x2b } else { 0x15 }),
                _ => vec![0; f.ty.size()],
            })
            .collect()
    }
}
/// What the support types of the laboratory do (see SUPPORT).
fn word_key(from: bool, fail: Chk) -> i128 {
    if from {
        0x2b
    } else if fail == Chk::No {
        0x15
    } else {
        0x3c
    }
}
fn word_ok(fail: Chk, x: i128) -> bool {
    match fail {
        Chk::No => true,
        Chk::Own => x.rem_euclid(4) != 1,
        Chk::Path => x.rem_euclid(4) != 2,
    }
}
fn bytes_ok(b: &[u8]) -> bool {
    b.first() != Some(&0xff) && b.last() != Some(&0xee)
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::from("x");
    for x in b {
        write!(s, "{x:02x}").unwrap();
    }
    s
}
thread_local! {
    /// which enums of the group being written need may_fail
    static ENUM_FAIL: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(vec![]) };
}
/// Runs f while fields refer to this group's enums.
pub fn in_group<R>(gr: &Group, f: impl FnOnce() -> R) -> R {
    ENUM_FAIL.with(|e| *e.borrow_mut() = (0..gr.enums.len()).filter(|i| !gr.enums[*i].reserved).collect());
    f()
}

impl Group {
    /// Declarations and driver as one module body.
    pub fn text(&self) -> String {
        in_group(self, || self.text_())
    }
    fn text_(&self) -> String {
        let mut s = String::from("#![allow(dead_code, unused, non_camel_case_types, clippy::all)]\nuse super::super::*;\nuse super::lab::*;\n");
        for e in &self.enums {
            s.push_str(&e.text());
            writeln!(s, "impl LabShow for {0} {{ fn show(&self) -> String {{ format!(\"e:{{:?}}:{{}}\", self, *self as u8) }} }}", e.name).unwrap();
        }
        for f in &self.flags {
            s.push_str(&f.text());
            writeln!(s, "impl LabShow for {0} {{ fn show(&self) -> String {{ format!(\"i:{{}}\", self.bits()) }} }}", f.name).unwrap();
        }
        for d in &self.decls {
            s.push_str(&d.text());
            s.push_str(&d.helpers());
        }
        let recv: Vec<&Decl> = self.decls.iter().filter(|d| d.recv()).collect();
        let names: Vec<&str> = recv.iter().map(|d| d.name.as_str()).collect();
        if !recv.is_empty() {
            writeln!(s, "define_recv_packets!(\n enum PacketRef {{\n _ = UbxUnknownPacketRef,\n {}\n }}\n);", names.join(",\n ")).unwrap();
        }
        s.push_str("pub fn op(w: &[&str]) -> Vec<String> {\n let mut out: Vec<String> = vec![];\n match w[0] {\n");
        // dispatch
        s.push_str(" \"D\" => {\n");
        if !recv.is_empty() {
            s.push_str("  let payload_bytes = unhex(w[3]);\n  let cl: u8 = w[1].parse().unwrap(); let mi: u8 = w[2].parse().unwrap();\n  let p = match_packet(cl, mi, &payload_bytes).unwrap();\n  let cm = p.class_and_msg_id();\n  match p {\n");
            for d in &recv {
                writeln!(s, "   PacketRef::{0}(ref r) => {{ out.push(\"{0}\".into()); out.push(format!(\"{{}}:{{}}\", cm.0, cm.1)); out.push(r.as_bytes().show());", d.name).unwrap();
                for f in &d.fields {
                    let g = f.get();
                    if f.map != Fmap::Plain && !matches!(f.map, Fmap::BareScale(_) | Fmap::Rest { .. }) {
                        writeln!(s, "    out.push(format!(\"{g}_raw={{}}\", r.{g}_raw().show()));").unwrap();
                    }
                    writeln!(s, "    out.push(format!(\"{g}={{}}\", r.{g}().show()));").unwrap();
                }
                let dbg: String = d.fields.iter().map(|f| format!(".field(\"{}\", &r.{}())", f.name, f.get())).collect();
                writeln!(s, "    let a = format!(\"{{:?}} {{:#?}}\", r, r); let f = LabFmt(|f: &mut core::fmt::Formatter<'_>| f.debug_struct(\"{}\"){dbg}.finish()); let b = format!(\"{{:?}} {{:#?}}\", f, f);", d.name).unwrap();
                s.push_str("    out.push(if a == b { \"debug\".into() } else { format!(\"debug-differs {a} / {b}\") });\n   },\n");
            }
            s.push_str("   PacketRef::Unknown(u) => { out.push(\"Unknown\".into()); out.push(format!(\"{}:{}\", cm.0, cm.1)); out.push(format!(\"{}:{}\", u.class, u.msg_id)); out.push(u.payload.show()); },\n  }\n");
        }
        s.push_str(" },\n");
        // build
        s.push_str(" \"B\" => match w[1] {\n");
        for d in self.decls.iter().filter(|d| d.send()) {
            writeln!(s, "  \"{}\" => {{ let t = &w[2..];", d.name).unwrap();
            if d.items.is_some() {
                writeln!(s, "   let items = LabItem::list(&unhex(t[{}]));", d.fields.len()).unwrap();
            }
            let mut init = String::new();
            for (i, f) in d.fields.iter().enumerate() {
                let v = match &f.map {
                    Fmap::Enum(k) => format!("E{k}::{}(t[{i}].parse::<u8>().unwrap())", if self.enums[*k].reserved { "from" } else { "from_unchecked" }),
                    Fmap::Flags(k) => format!("B{k}::from_bits_truncate(t[{i}].parse().unwrap())"),
                    _ => format!("LabRead::read(t[{i}])"),
                };
                write!(init, "{}: {v}, ", f.get()).unwrap();
            }
            if let Some(i) = &d.items {
                write!(init, "{i}: &items").unwrap();
            }
            writeln!(s, "   let mk = || {}Builder {{ {init} }};", d.name).unwrap();
            if d.items.is_some() {
                s.push_str("   out.push(mk().into_packet_vec()[..].show()); let mut v = vec![1u8, 2, 3]; mk().extend_to(&mut v); out.push(v[..].show());\n");
            } else {
                writeln!(s, "   let b = mk().into_packet_bytes(); out.push(b[..].show()); let c: [u8; {0}Builder::PACKET_LEN] = mk().into(); out.push(c[..].show()); let mut v: Vec<u8> = vec![1, 2, 3]; mk().create_packet(&mut v).unwrap(); out.push(v[..].show());", d.name).unwrap();
                if d.default {
                    writeln!(s, "   out.push({}Builder::default().into_packet_bytes()[..].show());", d.name).unwrap();
                }
            }
            s.push_str("  },\n");
        }
        s.push_str("  _ => panic!(\"harness: builder\"),\n },\n");
        // enums: every code
        s.push_str(" \"E\" => { let x: u8 = w[2].parse().unwrap(); match w[1] {\n");
        for e in &self.enums {
            writeln!(s, "  \"{}\" => {{", e.name).unwrap();
            let raw = |v: &str| if e.into { format!("{v}.into_raw()") } else { format!("{v} as u8") };
            if e.reserved {
                writeln!(s, "   let v = {0}::from(x); out.push(format!(\"e:{{:?}}:{{}}\", v, {1})); out.push(json(&v));", e.name, raw("v")).unwrap();
            } else {
                writeln!(s, "   let ok = {0}::is_valid(x); out.push(ok.to_string()); if ok {{ let v = {0}::from_unchecked(x); out.push(format!(\"e:{{:?}}:{{}}\", v, {1})); out.push(json(&v)); }}", e.name, raw("v")).unwrap();
            }
            // the declared name for this code, if any, must be the same value
            writeln!(s, "   match x {{ {} _ => out.push(\"unnamed\".into()) }}", e.variants.iter().map(|(n, c)| format!("{c} => out.push((({0}::{n} as u8 == x) && {0}::{1}(x) == {0}::{n}).to_string()),", e.name, if e.reserved { "from" } else { "from_unchecked" })).collect::<String>()).unwrap();
            s.push_str("  },\n");
        }
        s.push_str("  _ => panic!(\"harness: enum\"),\n } },\n");
        s.push_str(" \"F\" => { match w[1] {\n");
        for f in &self.flags {
            writeln!(s, "  \"{0}\" => {{ let x: u{1} = w[2].parse().unwrap(); let v = {0}::from(x); out.push(v.bits().to_string()); out.push({2}.to_string()); out.push(json(&v));", f.name, f.bits, if f.into { "v.into_raw()" } else { "v.bits()" }).unwrap();
            for (n, _) in &f.consts {
                writeln!(s, "   out.push(format!(\"{{}}:{{}}\", {0}::{n}.bits(), v.contains({0}::{n})));", f.name).unwrap();
            }
            s.push_str("  },\n");
        }
        s.push_str("  _ => panic!(\"harness: flags\"),\n } },\n");
        s.push_str(" \"M\" => {\n");
        for d in &self.decls {
            writeln!(s, "  out.push(format!(\"{0}:{{}}:{{}}:{{:?}}:{{}}\", <{0} as UbxPacketMeta>::CLASS, <{0} as UbxPacketMeta>::ID, <{0} as UbxPacketMeta>::FIXED_PAYLOAD_LEN, <{0} as UbxPacketMeta>::MAX_PAYLOAD_LEN));", d.name).unwrap();
        }
        if !recv.is_empty() {
            s.push_str("  out.push(MAX_PAYLOAD_LEN.to_string());\n");
        }
        s.push_str(" },\n _ => panic!(\"harness: op\"),\n }\n out\n}\n");
        s
    }

    // ---- meaning
    pub fn expect_dispatch(&self, class: u8, id: u8, pl: &[u8]) -> Vec<String> {
        for d in self.decls.iter().filter(|d| d.recv() && (d.class, d.id) == (class, id)) {
            if d.accepts(pl, self) {
                return d.dump(pl, self);
            }
        }
        vec!["Unknown".into(), format!("{class}:{id}"), format!("{class}:{id}"), format!("b:{}", hex(pl))]
    }
    pub fn expect_build(&self, d: &Decl, pl: &[u8]) -> Vec<String> {
        let f = crate::model::frame(d.class, d.id, pl);
        let behind = [&[1u8, 2, 3], &f[..]].concat();
        let b = |x: &[u8]| format!("b:{}", hex(x));
        if d.items.is_some() {
            return vec![b(&f), b(&behind)];
        }
        let mut v = vec![b(&f), b(&f), b(&behind)];
        if d.default {
            v.push(b(&crate::model::frame(d.class, d.id, &d.zero())));
        }
        v
    }
    pub fn expect_enum(&self, e: &EnumD, x: u8) -> Vec<String> {
        let mut v = vec![];
        let val = format!("e:{}:{x}", e.debug(x));
        let js = format!("u8:{x}");
        if e.reserved {
            v.extend([val, js]);
        } else {
            let ok = e.named(x).is_some();
            v.push(ok.to_string());
            if ok {
                v.extend([val, js]);
            }
        }
        v.push(if e.named(x).is_some() { "true".into() } else { "unnamed".into() });
        v
    }
    pub fn expect_flags(&self, f: &FlagsD, x: u32) -> Vec<String> {
        let mut v = vec![x.to_string(), x.to_string(), format!("u{}:{x}", f.bits)];
        for (_, b) in &f.consts {
            v.push(format!("{}:{}", 1u64 << b, x >> b & 1 == 1));
        }
        v
    }
    pub fn expect_meta(&self) -> Vec<String> {
        let mut v: Vec<String> = self.decls.iter().map(|d| format!("{}:{}:{}:{:?}:{}", d.name, d.class, d.id, if d.max.is_none() { Some(d.fixed()) } else { None }, d.max.map_or(d.fixed(), |m| m as usize))).collect();
        let recv: Vec<&Decl> = self.decls.iter().filter(|d| d.recv()).collect();
        if !recv.is_empty() {
            v.push(recv.iter().map(|d| d.max.map_or(d.fixed(), |m| m as usize)).max().unwrap().to_string());
        }
        v
    }
}

/// Support code of the laboratory module.
pub const SUPPORT: &str = r##"
pub mod lab {
    #![allow(dead_code, unused, non_camel_case_types, clippy::all)]
    use std::string::{String, ToString};
    use std::vec::Vec;
    use std::format;
    pub fn unhex(s: &str) -> Vec<u8> {
        let s = &s[1..];
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    pub trait LabShow { fn show(&self) -> String; }
    macro_rules! ints { ($($t:ty),*) => { $( impl LabShow for $t { fn show(&self) -> String { format!("i:{}", self) } } )* } }
    ints!(u8, i8, u16, i16, u32, i32, u64, i64);
    impl LabShow for f32 { fn show(&self) -> String { format!("s:{:08x}", self.to_bits()) } }
    impl LabShow for f64 { fn show(&self) -> String { format!("d:{:016x}", self.to_bits()) } }
    impl LabShow for [u8] { fn show(&self) -> String { let mut s = String::from("b:x"); for x in self { s.push_str(&format!("{x:02x}")); } s } }
    impl<const N: usize> LabShow for [u8; N] { fn show(&self) -> String { self[..].show() } }
    impl LabShow for &[u8] { fn show(&self) -> String { (**self).show() } }
    impl LabShow for Option<u32> { fn show(&self) -> String { match self { Some(x) => x.show(), None => "none".into() } } }
    pub trait LabRead { fn read(s: &str) -> Self; }
    macro_rules! reads { ($($t:ty),*) => { $( impl LabRead for $t { fn read(s: &str) -> Self { s.parse().unwrap() } } )* } }
    reads!(u8, i8, u16, i16, u32, i32);
    impl LabRead for f32 { fn read(s: &str) -> Self { f32::from_bits(s.parse().unwrap()) } }
    impl LabRead for f64 { fn read(s: &str) -> Self { f64::from_bits(s.parse().unwrap()) } }
    impl<const N: usize> LabRead for [u8; N] { fn read(s: &str) -> Self { unhex(s).try_into().unwrap() } }

    macro_rules! words { ($($w:ident $t:ident $from:ident $into:ident $valid:ident),*) => { $(
        #[derive(Clone, Copy, Debug, Default, PartialEq, serde::Serialize)]
        pub struct $w(pub $t);
        impl $w {
            pub fn from(x: $t) -> Self { $w(x ^ 0x15) }
            pub fn from_unchecked(x: $t) -> Self { $w(x ^ 0x3c) }
            pub fn is_valid(x: $t) -> bool { (x as i64).rem_euclid(4) != 1 }
            pub fn into_raw(self) -> $t { self.0 ^ 0x15 }
        }
        pub fn $from(x: $t) -> $w { $w(x ^ 0x2b) }
        pub fn $into(x: $w) -> $t { x.0 ^ 0x2b }
        pub fn $valid(x: $t) -> bool { (x as i64).rem_euclid(4) != 2 }
        impl LabShow for $w { fn show(&self) -> String { self.0.show() } }
        impl LabRead for $w { fn read(s: &str) -> Self { $w(s.parse().unwrap()) } }
    )* } }
    words!(LabW_u8 u8 lab_from_u8 lab_into_u8 lab_valid_u8, LabW_i8 i8 lab_from_i8 lab_into_i8 lab_valid_i8,
        LabW_u16 u16 lab_from_u16 lab_into_u16 lab_valid_u16, LabW_i16 i16 lab_from_i16 lab_into_i16 lab_valid_i16,
        LabW_u32 u32 lab_from_u32 lab_into_u32 lab_valid_u32, LabW_i32 i32 lab_from_i32 lab_into_i32 lab_valid_i32);

    #[derive(Clone, Debug, PartialEq, serde::Serialize)]
    pub struct LabTag<'a>(pub &'a [u8]);
    impl<'a> LabTag<'a> { pub fn new(b: &'a [u8]) -> Self { LabTag(b) } }
    impl LabShow for LabTag<'_> { fn show(&self) -> String { self.0.show() } }
    pub fn lab_bytes_ok(b: &[u8]) -> bool { b.first() != Some(&0xff) && b.last() != Some(&0xee) }
    pub fn lab_opt(b: &[u8]) -> Option<u32> { if b.len() == 4 { Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]])) } else { None } }

    #[derive(Clone, Debug)]
    pub struct LabIter<'a>(pub core::slice::Iter<'a, u8>);
    impl<'a> LabIter<'a> { pub fn new(b: &'a [u8]) -> Self { LabIter(b.iter()) } }
    impl Iterator for LabIter<'_> { type Item = u8; fn next(&mut self) -> Option<u8> { self.0.next().copied() } }
    impl LabShow for LabIter<'_> { fn show(&self) -> String { self.clone().collect::<Vec<u8>>()[..].show() } }

    pub struct LabItem(pub u8, pub u8);
    impl LabItem {
        pub fn list(b: &[u8]) -> Vec<LabItem> { b.chunks(2).map(|c| LabItem(c[0], c[1])).collect() }
        pub fn extend_to<T: core::iter::Extend<u8>>(&self, out: &mut T) -> usize {
            out.extend((0..self.0).map(|i| self.1.wrapping_add(i)));
            self.0 as usize
        }
    }
    pub struct LabFmt<F>(pub F);
    impl<F: Fn(&mut core::fmt::Formatter<'_>) -> core::fmt::Result> core::fmt::Debug for LabFmt<F> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { (self.0)(f) }
    }
    /// the one number a value is serialised as
    pub fn json<T: serde::Serialize>(v: &T) -> String { v.serialize(Num).unwrap_or_else(|e| e.0) }
    pub struct Num;
    #[derive(Debug)]
    pub struct NumErr(pub String);
    impl core::fmt::Display for NumErr { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(&self.0) } }
    impl std::error::Error for NumErr {}
    impl serde::ser::Error for NumErr { fn custom<T: core::fmt::Display>(m: T) -> Self { NumErr(m.to_string()) } }
    type Imp = serde::ser::Impossible<String, NumErr>;
    macro_rules! num { ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Result<String, NumErr> { Ok(format!("{}:{}", stringify!($t), v)) } )* } }
    fn no<T>() -> Result<T, NumErr> { Err(NumErr("not a number".into())) }
    impl serde::Serializer for Num {
        type Ok = String; type Error = NumErr;
        type SerializeSeq = Imp; type SerializeTuple = Imp; type SerializeTupleStruct = Imp; type SerializeTupleVariant = Imp;
        type SerializeMap = Imp; type SerializeStruct = Imp; type SerializeStructVariant = Imp;
        num!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str);
        fn serialize_bytes(self, _: &[u8]) -> Result<String, NumErr> { no() }
        fn serialize_none(self) -> Result<String, NumErr> { no() }
        fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<String, NumErr> { no() }
        fn serialize_unit(self) -> Result<String, NumErr> { no() }
        fn serialize_unit_struct(self, _: &'static str) -> Result<String, NumErr> { no() }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<String, NumErr> { no() }
        fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<String, NumErr> { no() }
        fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, NumErr> { no() }
        fn serialize_seq(self, _: Option<usize>) -> Result<Imp, NumErr> { no() }
        fn serialize_tuple(self, _: usize) -> Result<Imp, NumErr> { no() }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, NumErr> { no() }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, NumErr> { no() }
        fn serialize_map(self, _: Option<usize>) -> Result<Imp, NumErr> { no() }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, NumErr> { no() }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, NumErr> { no() }
        fn collect_str<T: ?Sized + core::fmt::Display>(self, _: &T) -> Result<String, NumErr> { no() }
    }
    pub fn lines(f: impl Fn(usize, &[&str]) -> Vec<String>) {
        use std::io::{BufRead, Write};
        std::panic::set_hook(Box::new(|_| {}));
        let mut out = std::io::BufWriter::new(std::io::stdout().lock());
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            let w: Vec<&str> = l.split(' ').collect();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(w[0].parse().unwrap(), &w[1..])));
            let t = match r { Ok(v) => v.join("\t"), Err(e) => format!("panic\t{}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) };
            writeln!(out, "{}", t.replace('\n', " ")).unwrap();
        }
    }
}
"##;

#!/usr/bin/env python3
"""Generates harness/src/tables.rs, access.rs and cfgtab.rs from spec.json (committed; not run by any check)."""
import json, os

here = os.path.dirname(os.path.abspath(__file__))
S = json.load(open(f"{here}/spec.json"))
OUT = f"{here}/../harness/src"
P, E, F = S["packets"], S["enums"], S["flags"]

# Corrections from the audit against the protocol description.
for f in P["NavVelECEF"]["fields"]:
    if f["name"] == "ecef_vz":
        f["ty"] = "i32"

CUSTOM = {"FixStatusInfo", "NavSatSvFlags", "CfgItfmConfig", "CfgItfmConfig2", "UartMode", "TimTpFlags",
          "TimTpRefInfo", "TimTm2Flags"}
PLAIN_ENUM = {
    "ResetMode": [["HardwareResetImmediately", 0], ["ControlledSoftwareReset", 1],
                  ["ControlledSoftwareResetGpsOnly", 2], ["HardwareResetAfterShutdown", 4],
                  ["ControlledGpsStop", 8], ["ControlledGpsStart", 9]],
    "AlignmentToReferenceTime": [["Utc", 0], ["Gps", 1], ["Glo", 2], ["Bds", 3], ["Gal", 4]],
}
LISTS = {"NavSatIter": "NavSat", "RxmRawxInfoIter": "RxmRawx", "MonVerExtensionIter": "MonVer",
         "EsfMeasDataIter": "EsfMeas", "EsfRawDataIter": "EsfRaw", "DwrdIter": "Dwrd"}
SUBREC = ["NavSatSvInfo", "RxmRawxInfo"]


def getter(f):
    return f.get("attr", {}).get("alias", f["name"])


def mapping(f):
    a = f.get("attr", {})
    mt = a.get("map_type")
    if mt is None:
        return "Map::None"
    if mt in ("f64", "f32"):
        sc = a.get("scale", "1.0")
        return f"Map::Float {{ single: {str(mt == 'f32').lower()}, scale: {float(sc)!r}_f64 }}"
    if mt in E or mt in PLAIN_ENUM:
        return f"Map::Enum(&ENUM_{mt.upper()})"
    if mt in F:
        return f"Map::Flags(&FLAGS_{mt.upper()})"
    if mt in CUSTOM:
        return f"Map::Custom(Custom::{mt})"
    if mt == "&str":
        return "Map::Cstr"
    if mt == "Option<&str>":
        return "Map::OptStr"
    if mt == "Option<u32>":
        return "Map::OptU32"
    if mt in LISTS:
        return f"Map::List(ListKind::{LISTS[mt]})"
    raise Exception(mt)


def ty(f):
    t = f["ty"]
    if t.startswith("[u8;"):
        return f"Ty::Bytes({f['size']})"
    if t.startswith("&"):
        return "Ty::Bytes(0)"
    return "Ty::" + t.upper()


o = []
o.append("// Generated by spec/gen.py from the audited spec/spec.json. Golden: never regenerated by a check.")
o.append("#![allow(clippy::all)]\nuse crate::spec::*;\n")
for n, e in list(E.items()) + [(k, {"variants": v, "opts": ["plain"], "default": None}) for k, v in PLAIN_ENUM.items()]:
    rest = "Rest::Reserved" if "rest_reserved" in e["opts"] else "Rest::Error"
    vs = ", ".join(f'("{v}", {c})' for v, c in e["variants"])
    dv = dict(e["variants"]).get(e["default"])
    o.append(f'pub static ENUM_{n.upper()}: EnumDef = EnumDef {{ name: "{n}", rest: {rest}, default: {"None" if dv is None else f"Some({dv})"}, variants: &[{vs}] }};')
for n, f in F.items():
    cs = ", ".join(f'("{c}", {v})' for c, v in f["consts"])
    o.append(f'pub static FLAGS_{n.upper()}: FlagDef = FlagDef {{ name: "{n}", bits: {int(f["ty"][1:])}, consts: &[{cs}] }};')
o.append("pub static ALL_FLAGS: &[&FlagDef] = &[" + ", ".join(f"&FLAGS_{n.upper()}" for n in F) + "];")
o.append("pub static ALL_ENUMS: &[&EnumDef] = &[" + ", ".join(f"&ENUM_{n.upper()}" for n in E) + "];")
o.append("pub static PKTS: &[Pkt] = &[")
for n, p in P.items():
    fs = []
    for f in p["fields"]:
        if f["ty"].startswith("&"):
            continue
        fs.append(f'Field {{ name: "{f["name"]}", getter: "{getter(f)}", off: {f["off"]}, size: {f["size"]}, ty: {ty(f)}, map: {mapping(f)} }}')
    recv = S["recv"].index(n) if n in S["recv"] else None
    o.append(
        f'  Pkt {{ name: "{n}", recv: {p["kind"] != "send"}, send: {p["kind"] != "recv"}, class: {p["class"]}, id: {p["id"]}, '.replace("True", "true").replace("False", "false")
        + f'fixed: {"None" if p["fixed"] is None else f"Some({p["fixed"]})"}, max: {p["max"] if p["max"] is not None else p["fixed"]}, min: {p["min"]}, '
        + f'dispatch: {"None" if recv is None else f"Some({recv})"}, default_builder: {str(p["default"]).lower()}, fields: &[\n    '
        + ",\n    ".join(fs) + "] },"
    )
o.append("];")
open(f"{OUT}/tables.rs", "w").write("\n".join(o) + "\n")

# ---------------------------------------------------------------- access.rs
o = []
o.append("// Generated by spec/gen.py: calls every public accessor and builder of the crate by name.")
o.append("#![allow(clippy::all, unused_variables, unreachable_patterns, non_snake_case)]")
o.append("use crate::val::*;\nuse crate::emit::*;\nuse ublox::*;\n")


def rec_fn(n, p):
    o.append(f"pub fn rec_{n}(r: &{n}Ref) -> Vec<(&'static str, Thunk)> {{ let _ = r; vec![")
    for f in p["fields"]:
        g = getter(f)
        if f.get("attr", {}).get("map_type") and f["size"]:
            o.append(f'  ("{g}_raw", catch(|| r.{g}_raw().val())),')
        o.append(f'  ("{g}", catch(|| r.{g}().val())),')
    o.append("] }")


disp = [n for n in S["recv"]]
for n in disp + SUBREC:
    rec_fn(n, P[n])
o.append("pub fn fields_of(p: &PacketRef) -> Option<Vec<(&'static str, Thunk)>> { match p {")
for n in disp:
    o.append(f"  PacketRef::{n}(r) => Some(rec_{n}(r)),")
o.append("  PacketRef::Unknown(_) => None, _ => None } }")
o.append("pub fn raw_of<'a>(p: &'a PacketRef) -> (&'static str, &'a [u8]) { match p {")
for n in disp:
    o.append(f'  PacketRef::{n}(r) => ("{n}", r.as_bytes()),')
o.append('  PacketRef::Unknown(u) => ("Unknown", u.payload), _ => ("?", &[]) } }')
o.append("struct D<'a>(&'a dyn Fn(&mut core::fmt::Formatter<'_>) -> core::fmt::Result);")
o.append("impl core::fmt::Debug for D<'_> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { (self.0)(f) } }")
o.append("pub fn debug_of(p: &PacketRef, alt: bool) -> Option<String> { Some(match p {")
for n in disp:
    o.append(f'  PacketRef::{n}(r) => {{ let w = D(&|f| f.debug_struct("{n}")' + "".join(
        f'.field("{f["name"]}", &r.{getter(f)}())' for f in P[n]["fields"]) + ".finish()); if alt { format!(\"{:#?}\", w) } else { format!(\"{:?}\", w) } }")
o.append("  _ => return None }) }")
o.append("pub fn debug_inner(p: &PacketRef, alt: bool) -> Option<String> { Some(match p {")
for n in disp:
    o.append(f'  PacketRef::{n}(r) => if alt {{ format!("{{:#?}}", r) }} else {{ format!("{{:?}}", r) }},')
o.append("  _ => return None }) }")
o.append("#[cfg(feature = \"serde\")]\npub fn json_inner(p: &PacketRef) -> Option<String> { Some(match p {")
for n in disp:
    o.append(f"  PacketRef::{n}(r) => serde_json::to_string(r).map_err(|e| e.to_string()).unwrap(),")
o.append("  _ => return None }) }")
# metas
o.append("pub fn metas() -> Vec<(&'static str, u8, u8, Option<u16>, u16)> { vec![")
for n in P:
    o.append(f'  ("{n}", {n}::CLASS, {n}::ID, {n}::FIXED_PAYLOAD_LEN, {n}::MAX_PAYLOAD_LEN),')
o.append("] }")
for nm, ty_, fn in (("ack_for", "AckAckRef", "is_ack_for"), ("nak_for", "AckNakRef", "is_nak_for")):
    o.append(f"pub fn {nm}(r: &{ty_}) -> Vec<(&'static str, bool)> {{ vec![" + ", ".join(f'("{n}", r.{fn}::<{n}>())' for n in P) + "] }")
o.append("pub fn requests() -> Vec<(&'static str, [u8; 8])> { vec![" + ", ".join(f'("{n}", UbxPacketRequest::request_for::<{n}>().into_packet_bytes())' for n in P) + "] }")
o.append("pub fn rate_single(r: u8) -> Vec<(&'static str, Vec<u8>)> { vec![" + ", ".join(f'("{n}", CfgMsgSinglePortBuilder::set_rate_for::<{n}>(r).into_packet_bytes().to_vec())' for n in P) + "] }")
o.append("pub fn rate_all(r: [u8; 6]) -> Vec<(&'static str, Vec<u8>)> { vec![" + ", ".join(f'("{n}", CfgMsgAllPortsBuilder::set_rate_for::<{n}>(r).into_packet_bytes().to_vec())' for n in P) + "] }")
# flags
o.append("pub fn flag_consts() -> Vec<(&'static str, &'static str, Option<u64>)> { vec![")
for n, f in F.items():
    for c, v in f["consts"]:
        o.append(f'  ("{n}", "{c}", {n}::from_name("{c}").map(|x| x.bits() as u64)),')
    known = {v for _, v in f["consts"]}
    for b in range(int(f["ty"][1:])):
        if (1 << b) not in known:
            o.append(f'  ("{n}", "RESERVED{b}", {n}::from_name("RESERVED{b}").map(|x| x.bits() as u64)),')
o.append("] }")
o.append("pub fn flag_trunc(name: &str, raw: u64) -> Option<u64> { Some(match name {")
for n, f in F.items():
    o.append(f'  "{n}" => {n}::from_bits_truncate(raw as {f["ty"]}).bits() as u64,')
o.append("  _ => return None }) }")
# enum code -> named value (as u8) for the public variants
o.append("pub fn enum_consts() -> Vec<(&'static str, &'static str, u8, String)> { vec![")
for n, e in E.items():
    for v, c in e["variants"]:
        o.append(f'  ("{n}", "{v}", {n}::{v} as u8, format!("{{:?}}", {n}::{v})),')
o.append("] }")
for n in list(E):
    o.append(f"impl IntoVal for {n} {{ fn val(self) -> Val {{ Val::Enum(format!(\"{{:?}}\", self), self as u64) }} }}")
for n in F:
    if n == "NavBbrMask":
        continue
    o.append(f"impl IntoVal for {n} {{ fn val(self) -> Val {{ Val::Flags(self.bits() as u64) }} }}")

# ---------------------------------------------------------------- builders
def conv(f, i):
    a = f.get("attr", {})
    mt = a.get("map_type")
    t = f["ty"]
    if mt is None:
        if t.startswith("["):
            return f"v[{i}].bytes::<{f['size']}>()"
        return f"v[{i}].raw() as {t}"
    if mt in ("f32", "f64"):
        return f"v[{i}].float() as {mt}"
    if mt in E or mt in PLAIN_ENUM:
        vs = E[mt]["variants"] if mt in E else PLAIN_ENUM[mt]
        arms = ", ".join(f"{c} => {mt}::{n}" for n, c in vs)
        return f'match v[{i}].raw() {{ {arms}, x => panic!("harness: code {{}} for {mt}", x) }}'
    if mt in F:
        return f"{mt}::from_bits_truncate(v[{i}].raw() as {F[mt]['ty']})"
    if mt in ("UartMode", "CfgItfmConfig", "CfgItfmConfig2"):
        return f"mk_{mt}(&v[{i}])"
    raise Exception(mt)


senders = [n for n, p in P.items() if p["kind"] != "recv"]
for n in senders:
    if n == "CfgValSet":
        continue
    p = P[n]
    o.append(f"pub fn mk_{n}(v: &[Fv]) -> {n}Builder {{ {n}Builder {{ " + ", ".join(f"{getter(f)}: {conv(f, i)}" for i, f in enumerate(p["fields"])) + " } }")
o.append("pub fn emit(name: &str, v: &[Fv], how: &mut How) -> Vec<u8> { match name {")
for n in senders:
    if n == "CfgValSet":
        continue
    L = P[n]["fixed"] + 8
    o.append(f'  "{n}" => match how {{ How::Bytes => mk_{n}(v).into_packet_bytes().to_vec(), How::From => <[u8; {L}]>::from(mk_{n}(v)).to_vec(), How::Into => {{ let x: [u8; {L}] = mk_{n}(v).into(); x.to_vec() }}, How::Writer(w) => {{ w.result = Some(mk_{n}(v).create_packet(&mut w.w).map_err(werr)); w.w.out.clone() }}, #[cfg(feature = "std")] How::VecWriter(w) => {{ mk_{n}(v).create_packet(*w).map_err(|e| e.to_string()).unwrap(); w.clone() }}, How::Len => vec![0; {n}Builder::PACKET_LEN] }},')
o.append('  x => panic!("harness: no builder {}", x) } }')
o.append("pub fn default_bytes() -> Vec<(&'static str, Vec<u8>)> { vec![")
for n in senders:
    if P[n]["default"] and P[n]["kind"] != "recv":
        o.append(f'  ("{n}", {n}Builder::default().into_packet_bytes().to_vec()),')
o.append("] }")
# rebuild from decoded values
o.append("pub fn rebuild(p: &PacketRef) -> Option<Vec<u8>> { Some(match p {")
for n in senders:
    if P[n]["kind"] == "recv_send" and n in S["recv"]:
        o.append(f"  PacketRef::{n}(r) => {n}Builder {{ " + ", ".join(f"{getter(f)}: r.{getter(f)}()" for f in P[n]["fields"]) + " }.into_packet_bytes().to_vec(),")
o.append("  _ => return None }) }")
open(f"{OUT}/access.rs", "w").write("\n".join(o) + "\n")

# ---------------------------------------------------------------- cfgtab.rs
o = ["// Generated by spec/gen.py.", "#![allow(clippy::all)]", "use ublox::cfg_val::*;\nuse ublox::*;\nuse crate::cfgv::*;\n"]
o.append("pub static KEYS: &[(&str, u32, Kt)] = &[")
KT = {"bool": "Bool", "u8": "U8", "u16": "U16", "i16": "I16", "u32": "U32", "u64": "U64", "CfgInfMask": "Inf", "DataBits": "DataBits", "Parity": "Parity",
      "StopBits": "StopBits", "AlignmentToReferenceTime": "Align", "TpPulse": "TpPulse", "TpPulseLength": "TpLen"}
for n, k, t in S["cfg"]:
    o.append(f'  ("{n}", {k:#010x}, Kt::{KT[t]}),')
o.append("];")
o.append("pub fn make(i: usize, raw: u64) -> CfgVal { match i {")
for i, (n, k, t) in enumerate(S["cfg"]):
    o.append(f"  {i} => CfgVal::{n}(<{t} as Raw>::from_raw(raw)),")
o.append('  _ => panic!("harness: key index") } }')
o.append("pub fn unmake(v: &CfgVal) -> Option<(usize, u64)> { Some(match v {")
for i, (n, k, t) in enumerate(S["cfg"]):
    o.append(f"  CfgVal::{n}(x) => ({i}, Raw::to_raw(x)),")
o.append("  _ => return None }) }")
open(f"{OUT}/cfgtab.rs", "w").write("\n".join(o) + "\n")

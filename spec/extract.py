#!/usr/bin/env python3
"""Provenance tool, not run by any check: reads message layouts out of the pinned ublox sources once and writes
spec/spec.json, which was then audited against the UBX protocol description and is the golden oracle from there on.

usage: extract.py REPO > spec.json
"""
import json, re, sys

repo = sys.argv[1]
src = open(f"{repo}/ublox/src/ubx_packets/packets.rs").read()
cfg = open(f"{repo}/ublox/src/ubx_packets/cfg_val.rs").read()
src_nc = re.sub(r"//[^\n]*", "", src)

SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "f64": 8}


def split_top(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "([{<":
            depth += 1
        if c in ")]}>":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def num(s):
    s = s.strip()
    return int(s, 0) if not s.startswith("0b") else int(s[2:], 2)


packets = {}
pat = re.compile(
    r"#\[ubx_packet_(recv_send|recv|send)\]\s*#\[ubx\(([^\]]*)\)\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?struct (\w+)(<'a>)?\s*\{(.*?)\n?\}",
    re.S,
)
for m in pat.finditer(src_nc):
    kind, hdr, name, life, body = m.groups()
    h = {}
    for item in split_top(hdr):
        if not item:
            continue
        k, v = [x.strip() for x in item.split("=")]
        h[k] = v.strip('"') if v.startswith('"') else num(v)
    fields = []
    off = 0
    # attributes and fields
    i = 0
    attr = None
    for fm in re.finditer(r"#\[ubx\((.*?)\)\]|(?:pub )?(\w+)\s*:\s*([^,\n]+),", body, re.S):
        if fm.group(1) is not None:
            attr = fm.group(1)
            continue
        fname, ty = fm.group(2), fm.group(3).strip()
        f = {"name": fname, "ty": ty}
        if attr:
            a = {}
            for it in split_top(attr):
                if not it:
                    continue
                if "=" in it:
                    k, v = [x.strip() for x in it.split("=", 1)]
                    a[k] = v
                else:
                    a[it] = True
            f["attr"] = a
        attr = None
        am = re.match(r"\[u8;\s*(\d+)\]", ty)
        f["size"] = SIZES.get(ty, int(am.group(1)) if am else None)
        f["off"] = off
        off += f["size"] or 0
        fields.append(f)
    packets[name] = {
        "name": name,
        "kind": kind,
        "class": h["class"],
        "id": h["id"],
        "fixed": h.get("fixed_payload_len"),
        "max": h.get("max_payload_len"),
        "default": h.get("flags") == "default_for_builder",
        "fields": fields,
        "min": off,
    }
    if h.get("fixed_payload_len") is not None:
        assert off == h["fixed_payload_len"], name

enums = {}
for m in re.finditer(
    r"((?:#\[[^\]]*\]\s*)*)#\[ubx_extend\]\s*#\[ubx\(([^)]*)\)\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?enum (\w+)\s*\{(.*?)\n\}",
    src_nc,
    re.S,
):
    pre, opts, name, body = m.groups()
    opts = [x.strip() for x in opts.split(",")]
    variants, default, nextdef = [], None, False
    for vm in re.finditer(r"(#\[default\])|(\w+)\s*=\s*(\w+)\s*,", body):
        if vm.group(1):
            nextdef = True
            continue
        variants.append([vm.group(2), num(vm.group(3))])
        if nextdef:
            default, nextdef = vm.group(2), False
    enums[name] = {"variants": variants, "opts": opts, "default": default}

flags = {}
for m in re.finditer(
    r"#\[ubx_extend_bitflags\]\s*#\[ubx\(([^)]*)\)\]\s*bitflags!\s*\{(.*?)pub struct (\w+)\s*:\s*(\w+)\s*\{(.*?)\n\s*\}\s*\}",
    src_nc,
    re.S,
):
    opts, _, name, ty, body = m.groups()
    consts = [[c.group(1), num(c.group(2))] for c in re.finditer(r"const (\w+)\s*=\s*(\w+)\s*;", body)]
    flags[name] = {"ty": ty, "consts": consts, "opts": [x.strip() for x in opts.split(",")]}

recv = re.search(r"define_recv_packets!\(\s*enum PacketRef \{(.*?)\}", src_nc, re.S).group(1)
recv = [x.strip() for x in recv.split(",") if x.strip() and "=" not in x]

keys = [
    [m.group(1), int(m.group(2), 16), m.group(3)]
    for m in re.finditer(r"^\s*(\w+),\s*(0x[0-9a-fA-F]+),\s*(\w+),", cfg, re.M)
]
json.dump(
    {"packets": packets, "enums": enums, "flags": flags, "recv": recv, "cfg": keys},
    sys.stdout,
    indent=1,
)

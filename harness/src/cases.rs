//! Cases for the comparison of feature sets (C21): generated identically in every build of the probe.
use crate::emit::Fv;
use crate::gen::Gen;
use crate::gens::*;
use crate::model::frame;
use crate::spec::*;

#[derive(Clone, Debug, Hash)]
pub enum Case {
    /// a stream in chunks through a parser over a store of the given size
    Stream { data: Vec<u8>, chunks: Vec<usize>, cap: usize },
    /// frames with payloads of one message type
    Packet { pkt: &'static str, class: u8, id: u8, payload: Vec<u8> },
    Build { pkt: &'static str, values: Vec<Fv>, prefix: Vec<u8>, fail_reserve: bool, fail_write: Option<usize> },
    ConfigSet { items: Vec<(usize, u64)>, prefix: Vec<u8> },
}
pub fn cfg_item(g: &mut Gen) -> (usize, u64) {
    let i = g.below(crate::cfgtab::KEYS.len());
    let t = crate::cfgtab::KEYS[i].2;
    let raw = match t.codes() {
        Some(n) => g.below(n as usize) as u64,
        None => g.int(8 * t.width() as u32),
    };
    (i, raw)
}
pub fn gen_case(g: &mut Gen) -> Case {
    match g.weighted(&[4, 5, 5, 2]) {
        0 => {
            let data = stream(g, 14, false);
            let chunks = cuts(g, data.len());
            let cap = if g.bool() { g.range(4, 300) } else { 65536 + 64 };
            Case::Stream { data, chunks, cap }
        },
        1 => {
            let r = dispatched();
            let p = *g.pick(&r);
            let damage = g.chance(40);
            Case::Packet { pkt: p.name, class: p.class, id: p.id, payload: payload(g, p, damage) }
        },
        2 => {
            let s: Vec<_> = crate::tables::PKTS.iter().filter(|p| p.send && p.name != "CfgValSet").collect();
            let p = *g.pick(&s);
            let mut values = vec![];
            for f in p.fields {
                match f.map {
                    // any finite value: beyond the field the result is not specified, within it must agree
                    Map::Float { single, scale } => {
                        let (lo, hi) = limits(f);
                        let (lo, hi) = if single { (lo.max(-(1 << 22)), hi.min(1 << 22)) } else { (lo, hi) };
                        let r = (lo + g.upto((hi - lo) as u64) as i128) as f64;
                        // halves decide which way rounding goes
                        let r = match g.below(4) {
                            0 => r,
                            1 => (r + 0.5).min(hi as f64),
                            2 => (r - 0.5).max(lo as f64),
                            _ => (r + g.below(1000) as f64 / 1000.0).min(hi as f64),
                        };
                        let x = r * scale;
                        values.push(Fv::Float(if single { (x as f32 as f64).to_bits() } else { x.to_bits() }));
                    },
                    _ => values.push(value(g, f)),
                }
            }
            let n = g.below(8);
            let prefix = g.bytes(n);
            let fail_reserve = g.chance(30);
            let fail_write = if g.chance(120) { Some(g.below(p.fields.len() + 2)) } else { None };
            Case::Build { pkt: p.name, values, prefix, fail_reserve, fail_write }
        },
        _ => {
            let items = cfg_items(g, cfg_item, |i| crate::cfgtab::KEYS[i].2.width());
            Case::ConfigSet { items, prefix: existing(g) }
        },
    }
}
/// The bytes a parser is fed for a packet case: the frame, whole and behind noise.
pub fn packet_stream(class: u8, id: u8, payload: &[u8]) -> Vec<u8> {
    frame(class, id, payload)
}

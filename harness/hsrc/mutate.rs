//! Mutators of well-formed PSBTs, at the level of key-value maps and of bytes.

use crate::gen::{self, MapKind};
use crate::kv::{compact, Kv, Raw};
use crate::source::Src;

pub fn shuffle_fields(s: &mut Src, r: &mut Raw) {
    for m in r.maps.iter_mut() {
        s.shuffle(m);
    }
}

pub const INPUT_TYPES: &[u8] = &[
    0x0e, 0x0f, 0x10, 0x11, 0x12, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x13, 0x14, 0x15,
    0x16, 0x17, 0x18, 0x1d, 0x1e, 0xfc, 0x19, 0xff,
];
pub const OUTPUT_TYPES: &[u8] = &[0x03, 0x04, 0x00, 0x01, 0x02, 0x05, 0x06, 0x07, 0x09, 0x0a, 0xfc, 0x08, 0xff];
pub const GLOBAL_TYPES: &[u8] = &[0xfb, 0x02, 0x04, 0x05, 0x06, 0x03, 0x01, 0x00, 0x07, 0x08, 0xfc, 0x09, 0xff];

pub fn kind_of(r: &Raw, map: usize, n_inputs: usize) -> MapKind {
    let _ = r;
    if map == 0 {
        MapKind::Global
    } else if map <= n_inputs {
        MapKind::Input
    } else {
        MapKind::Output
    }
}

fn mutate_bytes_of(s: &mut Src, v: &mut Vec<u8>) {
    match s.u(9) {
        0 => {
            let n = 1 + s.len(4);
            v.extend(s.bytes(n));
        }
        1 => {
            v.pop();
        }
        2 => {
            let n = s.us(v.len() + 1);
            v.truncate(n);
        }
        3 if !v.is_empty() => {
            let i = s.us(v.len());
            v[i] ^= 1 << s.u(8);
        }
        4 if !v.is_empty() => {
            let i = s.us(v.len());
            v[i] = s.u(256) as u8;
        }
        5 => {
            let n = *s.pick(&[0usize, 1, 2, 3, 4, 5, 8, 20, 31, 32, 33, 34, 36, 63, 64, 65, 66, 68, 78, 96]);
            *v = s.bytes(n);
        }
        6 => *v = s.u32_edge().to_le_bytes().to_vec(),
        7 => v.clear(),
        _ => {
            let i = s.us(v.len() + 1);
            v.insert(i, s.u(256) as u8);
        }
    }
}

/// A pair of the given type; well-formed taken from a full map if there is one, otherwise noise.
pub fn some_pair(s: &mut Src, k: MapKind) -> Kv {
    let types = match k {
        MapKind::Global => GLOBAL_TYPES,
        MapKind::Input => INPUT_TYPES,
        MapKind::Output => OUTPUT_TYPES,
    };
    let ty = *s.pick(types);
    if s.bool() {
        let full: Vec<Kv> = match k {
            MapKind::Global => crate::model2::global_kv(&gen::global(s)),
            MapKind::Input => crate::model2::input_kv(&gen::input(s)),
            MapKind::Output => crate::model2::output_kv(&gen::output(s)),
        };
        if !full.is_empty() {
            return full[s.us(full.len())].clone();
        }
    }
    let kl = *s.pick(&[0usize, 0, 0, 1, 20, 32, 33, 64, 65, 78]);
    let vl = *s.pick(&[4usize, 0, 1, 8, 32, 33, 64, 66]);
    Kv { ty, key: s.bytes(kl), val: s.bytes(vl) }
}

/// One mutation of the maps. Returns its name.
pub fn mutate_kv(s: &mut Src, r: &mut Raw, n_inputs: usize) -> &'static str {
    let nm = r.maps.len();
    let mi = s.us(nm);
    let kind = kind_of(r, mi, n_inputs);
    let np = r.maps[mi].len();
    match s.u(14) {
        0 if np > 0 => {
            let i = s.us(np);
            r.maps[mi].remove(i);
            "drop pair"
        }
        1 if np > 0 => {
            let i = s.us(np);
            let kv = r.maps[mi][i].clone();
            let j = s.us(np + 1);
            r.maps[mi].insert(j, kv);
            "duplicate pair"
        }
        2 if np > 0 => {
            let i = s.us(np);
            let mut kv = r.maps[mi][i].clone();
            mutate_bytes_of(s, &mut kv.val);
            let j = s.us(np + 1);
            r.maps[mi].insert(j, kv);
            "duplicate key, other value"
        }
        3 | 4 if np > 0 => {
            let i = s.us(np);
            mutate_bytes_of(s, &mut r.maps[mi][i].key);
            "alter key data"
        }
        5..=7 if np > 0 => {
            let i = s.us(np);
            mutate_bytes_of(s, &mut r.maps[mi][i].val);
            "alter value"
        }
        8 if np > 0 => {
            let i = s.us(np);
            r.maps[mi][i].ty = match kind {
                MapKind::Global => *s.pick(GLOBAL_TYPES),
                MapKind::Input => *s.pick(INPUT_TYPES),
                MapKind::Output => *s.pick(OUTPUT_TYPES),
            };
            "change type"
        }
        9 => {
            let kv = some_pair(s, kind);
            let j = s.us(np + 1);
            r.maps[mi].insert(j, kv);
            "add pair"
        }
        10 if np > 0 => {
            let i = s.us(np);
            let kv = r.maps[mi].remove(i);
            let mj = s.us(nm);
            r.maps[mj].push(kv);
            "move pair to another map"
        }
        11 => {
            let n = match s.u(3) {
                0 => s.u(6),
                1 => s.u64_edge(),
                _ => s.u32_edge() as u64,
            };
            let ty = 4 + s.u(2) as u8;
            let mut v = compact(n);
            if s.chance(1, 8) {
                v.extend(s.bytes(3));
            }
            match r.maps[0].iter_mut().find(|kv| kv.ty == ty) {
                Some(kv) => kv.val = v,
                None => r.maps[0].push(Kv::new(ty, &[], &v)),
            }
            "change count"
        }
        12 if nm > 1 => {
            let i = s.us(nm);
            let j = s.us(nm);
            if s.bool() {
                let m = r.maps[i].clone();
                r.maps.insert(j, m);
                "copy map"
            } else {
                r.maps.remove(i);
                "remove map"
            }
        }
        13 if nm > 1 => {
            let i = s.us(nm);
            let j = s.us(nm);
            r.maps.swap(i, j);
            "swap maps"
        }
        _ => {
            let kv = some_pair(s, kind);
            r.maps[mi].push(kv);
            "add pair"
        }
    }
}

/// One mutation of raw bytes.
pub fn mutate_raw(s: &mut Src, b: &mut Vec<u8>) -> &'static str {
    let n = b.len();
    match s.u(9) {
        0 if n > 0 => {
            let k = s.us(n);
            b.truncate(k);
            "truncate"
        }
        1 if n > 0 => {
            let i = s.us(n);
            b[i] ^= 1 << s.u(8);
            "flip bit"
        }
        2 if n > 0 => {
            let i = s.us(n);
            b[i] = s.u(256) as u8;
            "set byte"
        }
        3 => {
            let i = s.us(n + 1);
            let k = 1 + s.len(9);
            let ins = s.bytes(k);
            b.splice(i..i, ins);
            "insert bytes"
        }
        4 if n > 0 => {
            let i = s.us(n);
            let j = (i + 1 + s.len(40)).min(n);
            b.drain(i..j);
            "delete bytes"
        }
        5 if n > 0 => {
            // A forged compact size.
            let i = s.us(n);
            let v = match s.u(5) {
                0 => vec![0xfd, 0xff, 0xff],
                1 => vec![0xfe, 0xff, 0xff, 0xff, 0xff],
                2 => vec![0xff; 9],
                3 => compact(s.u64_edge()),
                _ => vec![0xfe, 0, 9, 0x3d, 0],
            };
            let j = (i + if s.bool() { v.len() } else { 1 }).min(n);
            b.splice(i..j, v);
            "forge length"
        }
        6 if n > 1 => {
            let i = s.us(n);
            let j = (i + 1 + s.us(60)).min(n);
            let part = b[i..j].to_vec();
            let k = s.us(n);
            b.splice(k..k, part);
            "copy range"
        }
        7 => {
            let k = 1 + s.len(20);
            b.extend(s.bytes(k));
            "append"
        }
        _ => {
            if n > 0 {
                let i = s.us(n);
                b[i] = *s.pick(&[0u8, 1, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff]);
            }
            "set byte"
        }
    }
}

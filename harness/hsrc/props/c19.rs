//! C19: the v0 format is read and written exactly as rust-bitcoin does.

use std::str::FromStr;

use bitcoin::psbt as up;
use psbt_v2::v0::bitcoin as v0;

use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::kv::Kv;
use crate::props::c01::{v0_raw, well_formed};
use crate::source::Src;
use crate::{gen, kv, mutate, up as conv};

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        dual: false,
        quick: 250_000,
        thorough: 10_000_000,
        rule: "v0 PSBTs (well-formed, with 0-3 key-value mutations and 0-3 byte mutations, PSBTs of version 2, noise) and base64 texts (intact or damaged), read by both decoders; accepted values compared field by field, as bytes, hex and base64, each re-read by the other; non-trivial when the bytes are a PSBT both accept with some optional field, or are damaged",
        assumptions: &["rust-bitcoin 0.32.8 is the reference; a field only version 2 has is refused by v0 and kept as unknown by rust-bitcoin"],
        run,
    }
}

/// Fields of version 2 among those rust-bitcoin does not know.
pub fn excluded(p: &up::Psbt) -> bool {
    p.unknown.keys().any(|k| matches!(k.type_value, 0x02..=0x06))
        || p.inputs.iter().any(|i| i.unknown.keys().any(|k| matches!(k.type_value, 0x0e..=0x12)))
        || p.outputs.iter().any(|o| o.unknown.keys().any(|k| matches!(k.type_value, 0x03 | 0x04)))
}

pub fn upstream<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }

fn agree(what: &'static str, ours: Result<v0::Psbt, String>, theirs: Result<up::Psbt, String>, ctx: &mut Ctx) -> Res {
    match (ours, theirs) {
        (Ok(a), Ok(b)) => {
            check!(!excluded(&b), "v2 field accepted by v0", "{}", what);
            if conv::up(&a) != b {
                return fail("decoded values differ", format!("{}: {:?}\nversus rust-bitcoin's {:?}", what, a, b));
            }
            ctx.class(format!("{}: both accept", what));
            same_encoding(&a, &b)
        }
        (Err(_), Err(_)) => {
            ctx.class(format!("{}: both refuse", what));
            Ok(())
        }
        (Err(e), Ok(b)) => {
            if excluded(&b) {
                ctx.class(format!("{}: v2 field", what));
                return Ok(());
            }
            fail("v0 refuses what rust-bitcoin accepts", format!("{}: {}", what, e))
        }
        (Ok(_), Err(e)) => fail("v0 accepts what rust-bitcoin refuses", format!("{}: {}", what, e)),
    }
}

fn same_encoding(a: &v0::Psbt, b: &up::Psbt) -> Res {
    let (x, y) = (a.serialize(), b.serialize());
    check!(x == y, "encodings differ", "{}\nversus {}", kv::hex(&x), kv::hex(&y));
    check!(a.serialize_hex() == b.serialize_hex(), "hex differs", "{}", a.serialize_hex());
    check!(a.serialize_hex() == kv::hex(&x), "hex is not of the bytes", "{}", a.serialize_hex());
    let (t, u) = (a.to_string(), b.to_string());
    check!(t == u, "base64 differs", "{}\nversus {}", t, u);
    match v0::Psbt::deserialize(&y) {
        Ok(p) => check!(&p == a, "re-read value differs", "{}", kv::hex(&y)),
        Err(e) => return fail("v0 refuses an encoding", format!("{}: {}", e, kv::hex(&y))),
    }
    match up::Psbt::deserialize(&x) {
        Ok(p) => check!(&p == b, "value re-read by rust-bitcoin differs", "{}", kv::hex(&x)),
        Err(e) => return fail("rust-bitcoin refuses an encoding", format!("{}: {}", e, kv::hex(&x))),
    }
    match v0::Psbt::from_str(&u) {
        Ok(p) => check!(&p == a, "value re-read from text differs", "{}", u),
        Err(e) => return fail("v0 refuses a text", format!("{}: {}", e, u)),
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut damaged = false;
    let bytes = match s.u(20) {
        0 => {
            let n = s.us(120);
            let mut b = kv::MAGIC[..s.us(6)].to_vec();
            b.extend(s.bytes(n));
            ctx.class("noise");
            b
        }
        1 => {
            let (mut r, n, _) = well_formed(s);
            mutate::mutate_kv(s, &mut r, n);
            r.encode()
        }
        k => {
            let (mut r, n) = v0_raw(s);
            if s.bool() {
                mutate::shuffle_fields(s, &mut r);
            }
            match s.u(6) {
                0 => r.maps[0].push(Kv::new(0xfb, &[], &[0; 4])),
                1 => {
                    let v = s.u32_edge();
                    r.maps[0].push(Kv::new(0xfb, &[], &v.to_le_bytes()))
                }
                2 if s.chance(1, 4) => {
                    // A transaction that is not unsigned, or in the wrong form.
                    let tx = gen::tx(s);
                    let v = bitcoin::consensus::encode::serialize(&tx);
                    if let Some(k) = r.maps[0].iter_mut().find(|k| k.ty == 0) {
                        k.val = v;
                    }
                    damaged = true;
                }
                _ => {}
            }
            if k >= 8 {
                for _ in 0..s.u(4) {
                    ctx.class(format!("kv: {}", mutate::mutate_kv(s, &mut r, n)));
                    damaged = true;
                }
            }
            let mut b = r.encode();
            if k >= 14 {
                for _ in 0..1 + s.u(3) {
                    ctx.class(format!("bytes: {}", mutate::mutate_raw(s, &mut b)));
                    damaged = true;
                }
            }
            b
        }
    };
    ctx.note(|| format!("bytes {}", kv::hex(&bytes)));
    if damaged {
        ctx.nontrivial(&bytes);
    }
    let Some(theirs) = upstream(|| up::Psbt::deserialize(&bytes)) else {
        ctx.class("rust-bitcoin panics");
        return Ok(());
    };
    if let Ok(p) = &theirs {
        if p.inputs.iter().any(|i| *i != up::Input::default()) || p.outputs.iter().any(|o| *o != up::Output::default()) || !p.unknown.is_empty() || !p.xpub.is_empty() {
            ctx.nontrivial(&bytes);
        }
    }
    let ours = no_panic("v0 decode", || v0::Psbt::deserialize(&bytes))?;
    agree("bytes", ours.map_err(|e| e.to_string()), theirs.map_err(|e| e.to_string()), ctx)?;

    if s.chance(1, 6) {
        let mut t = kv::base64(&bytes);
        for _ in 0..s.u(3) {
            let i = s.us(t.len() + 1);
            match s.u(6) {
                0 => t.insert(i, *s.pick(&['=', ' ', '\n', 'A', '-', '_', '/', '+', 'é'])),
                1 if i < t.len() && t.is_char_boundary(i) => {
                    t.truncate(i);
                }
                2 => t.push('='),
                3 => {
                    t.pop();
                }
                4 => t = t.trim_end_matches('=').to_string(),
                _ => t = t.to_lowercase(),
            }
            if !t.is_ascii() {
                break;
            }
        }
        let Some(theirs) = upstream(|| up::Psbt::from_str(&t)) else { return Ok(()) };
        let ours = no_panic("v0 from text", || v0::Psbt::from_str(&t))?;
        agree("text", ours.map_err(|e| e.to_string()), theirs.map_err(|e| e.to_string()), ctx)?;
    }
    Ok(())
}

//! C18: sighash types convert without loss and reject what is not standard.

use std::str::FromStr;

use bitcoin::sighash::{EcdsaSighashType as E, TapSighashType as T};
use psbt_v2::{v0, v2, PsbtSighashType};

use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::source::Src;
use crate::{gen, kv};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        dual: false,
        quick: 500_000,
        thorough: 4_000_000,
        rule: "blocks of 256 consecutive numbers (blocks below 2^16 and random ones) through every conversion, text and PSBT encoding of both versions, and texts near the valid ones; non-trivial: every block and text",
        assumptions: &["the text of a number that is a sighash type is its SIGHASH_ name, other texts are hexadecimal with an optional 0x"],
        run,
    }
}

const ECDSA: [(u32, E); 6] = [
    (1, E::All), (2, E::None), (3, E::Single), (0x81, E::AllPlusAnyoneCanPay), (0x82, E::NonePlusAnyoneCanPay), (0x83, E::SinglePlusAnyoneCanPay),
];
const TAP: [(u32, T, &str); 7] = [
    (0, T::Default, "SIGHASH_DEFAULT"),
    (1, T::All, "SIGHASH_ALL"),
    (2, T::None, "SIGHASH_NONE"),
    (3, T::Single, "SIGHASH_SINGLE"),
    (0x81, T::AllPlusAnyoneCanPay, "SIGHASH_ALL|SIGHASH_ANYONECANPAY"),
    (0x82, T::NonePlusAnyoneCanPay, "SIGHASH_NONE|SIGHASH_ANYONECANPAY"),
    (0x83, T::SinglePlusAnyoneCanPay, "SIGHASH_SINGLE|SIGHASH_ANYONECANPAY"),
];

fn number(n: u32) -> Res {
    let t = PsbtSighashType::from_u32(n);
    check!(t.to_u32() == n, "to_u32", "{:#x} became {:#x}", n, t.to_u32());
    let text = t.to_string();
    match no_panic("from_str", || PsbtSighashType::from_str(&text))? {
        Ok(u) => check!(u == t && u.to_u32() == n, "text changes the number", "{:#x} is {} is {:#x}", n, text, u.to_u32()),
        Err(e) => return fail("own text refused", format!("{:#x} {}: {}", n, text, e)),
    }
    if let Some((_, _, name)) = TAP.iter().find(|x| x.0 == n) {
        check!(text == *name, "text of a named type", "{:#x} is {}", n, text);
    }
    match (t.ecdsa_hash_ty(), ECDSA.iter().find(|x| x.0 == n)) {
        (Ok(a), Some((_, b))) => check!(a == *b, "ecdsa type", "{:#x} is {:?}", n, a),
        (Err(_), None) => {}
        (a, b) => return fail("ecdsa_hash_ty", format!("{:#x}: {:?} expected {:?}", n, a, b)),
    }
    match (t.taproot_hash_ty(), TAP.iter().find(|x| x.0 == n)) {
        (Ok(a), Some((_, b, _))) => check!(a == *b, "taproot type", "{:#x} is {:?}", n, a),
        (Err(e), None) => check!(!e.to_string().is_empty(), "empty error", "{:#x}", n),
        (a, b) => return fail("taproot_hash_ty", format!("{:#x}: {:?} expected {:?}", n, a, b)),
    }
    Ok(())
}

fn in_psbt(s: &mut Src, n: Option<u32>) -> Res {
    let mut i = v2::Input::new(&gen::outpoint(s));
    i.sighash_type = n.map(PsbtSighashType::from_u32);
    let i0 = v0::Input { sighash_type: n.map(PsbtSighashType::from_u32), ..Default::default() };
    let e = n.map_or(Some(E::All), |n| ECDSA.iter().find(|x| x.0 == n).map(|x| x.1));
    let t = n.map_or(Some(T::Default), |n| TAP.iter().find(|x| x.0 == n).map(|x| x.1));
    check!(i.ecdsa_hash_ty().ok() == e, "v2 input ecdsa type", "{:?}: {:?}", n, i.ecdsa_hash_ty());
    check!(i.taproot_hash_ty().ok() == t, "v2 input taproot type", "{:?}: {:?}", n, i.taproot_hash_ty());
    check!(i0.ecdsa_hash_ty().ok() == e, "v0 input ecdsa type", "{:?}: {:?}", n, i0.ecdsa_hash_ty());
    check!(i0.taproot_hash_ty().ok() == t, "v0 input taproot type", "{:?}: {:?}", n, i0.taproot_hash_ty());
    let tx = bitcoin::Transaction {
        version: bitcoin::transaction::Version::TWO,
        lock_time: bitcoin::absolute::LockTime::ZERO,
        input: vec![bitcoin::TxIn::default()],
        output: vec![],
    };
    let mut p = v2::Creator::new().psbt();
    p.inputs.push(i);
    p.global.input_count = 1;
    let b = p.serialize();
    if let Some(n) = n {
        let mut want = vec![1, 3, 4];
        want.extend(n.to_le_bytes());
        check!(b.windows(7).any(|w| w == want), "v2 encoding of a sighash type", "{:#x}: {}", n, kv::hex(&b));
    }
    match v2::Psbt::deserialize(&b) {
        Ok(q) => check!(q == p, "v2 encoding changes the sighash type", "{:?} to {:?}", n, q.inputs[0].sighash_type),
        Err(e) => return fail("v2 encoding refused", e.to_string()),
    }
    let mut p = v0::Psbt::from_unsigned_tx(tx).unwrap();
    p.inputs[0] = i0;
    let b = p.serialize();
    if let Some(n) = n {
        let mut want = vec![1, 3, 4];
        want.extend(n.to_le_bytes());
        check!(b.windows(7).any(|w| w == want), "v0 encoding of a sighash type", "{:#x}: {}", n, kv::hex(&b));
    }
    match v0::Psbt::deserialize(&b) {
        Ok(q) => check!(q == p, "v0 encoding changes the sighash type", "{:?} to {:?}", n, q.inputs[0].sighash_type),
        Err(e) => return fail("v0 encoding refused", e.to_string()),
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let block = match s.u(4) {
        0 | 1 => s.u(256) as u32 * 256,
        2 => s.u32_edge() & !0xff,
        _ => s.raw() as u32 & !0xff,
    };
    ctx.nontrivial(&block.to_le_bytes());
    ctx.note(|| format!("numbers {:#x}..={:#x}", block, block | 0xff));
    ctx.class(if block < 0x10000 { "low block" } else { "high block" });
    for k in 0..256 {
        number(block | k)?;
    }
    in_psbt(s, None)?;
    let k = s.u(256) as u32;
    in_psbt(s, Some(block | k))?;
    let n = gen::sighash_u32(s);
    in_psbt(s, Some(n))?;
    for (n, e) in ECDSA {
        check!(PsbtSighashType::from(e).to_u32() == n, "from ecdsa type", "{:?}", e);
    }
    for (n, t, name) in TAP {
        check!(PsbtSighashType::from(t).to_u32() == n, "from taproot type", "{:?}", t);
        match PsbtSighashType::from_str(name) {
            Ok(x) => check!(x.to_u32() == n, "number of a name", "{} is {:#x}", name, x.to_u32()),
            Err(e) => return fail("name refused", format!("{}: {}", name, e)),
        }
    }
    // Texts.
    let mut text: Vec<u8> = match s.u(4) {
        0 => TAP[s.us(7)].2.as_bytes().to_vec(),
        1 => format!("{:#x}", s.u32_edge()).into_bytes(),
        2 => format!("{:x}", s.raw()).into_bytes(),
        _ => s.bytes(6).into_iter().map(|b| b & 0x7f).collect(),
    };
    for _ in 0..s.u(3) {
        crate::mutate::mutate_raw(s, &mut text);
        text.truncate(100);
    }
    let text = String::from_utf8_lossy(&text).into_owned();
    ctx.note(|| format!("text {:?}", text));
    let r = no_panic("from_str", || PsbtSighashType::from_str(&text))?;
    let named = TAP.iter().find(|x| x.2 == text).map(|x| x.0);
    let h = text.strip_prefix("0x").unwrap_or(&text);
    let plain = !h.is_empty() && h.len() <= 8 && h.bytes().all(|c| c.is_ascii_hexdigit());
    match (r, named) {
        (Ok(t), Some(n)) => check!(t.to_u32() == n, "number of a name", "{} is {:#x}", text, t.to_u32()),
        (Err(e), Some(_)) => return fail("name refused", format!("{}: {}", text, e)),
        (Ok(t), None) if plain => {
            let n = u32::from_str_radix(h, 16).unwrap();
            check!(t.to_u32() == n, "number of a hexadecimal text", "{} is {:#x}", text, t.to_u32());
        }
        (Err(e), None) => {
            check!(!plain, "hexadecimal text refused", "{}: {}", text, e);
            check!(e.to_string().contains(&text), "error does not name the text", "{}", e);
        }
        (Ok(t), None) => {
            // Whatever is accepted is at least numeric.
            check!(text.bytes().any(|c| c.is_ascii_hexdigit()), "text without a digit accepted", "{:?} is {:#x}", text, t.to_u32());
            number(t.to_u32())?;
        }
    }
    Ok(())
}

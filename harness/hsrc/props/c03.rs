//! C03: a v2 PSBT survives encoding to bytes, hex and base64 unchanged.

use std::str::FromStr;

use psbt_v2::v2::Psbt;

use crate::engine::{Ctx, Prop, Res};
use crate::source::Src;
use crate::{gen, kv, model2};

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        dual: true,
        quick: 300_000,
        thorough: 8_000_000,
        rule: "random typed PSBTs: every field of every map present with varying density, values over their whole range with boundary values, 0-3 (sometimes 250-255) inputs and outputs; non-trivial when it has an input or output and some optional field",
        assumptions: &["values the format cannot carry are excluded: unknown keys of known types, counts that disagree with the maps, shares without proofs, labels without address data"],
        run,
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::psbt2(s);
    let want = model2::to_raw(&p);
    let pairs: usize = want.maps.iter().map(|m| m.len()).sum();
    let base = 5 + 2 * p.inputs.len() + 2 * p.outputs.len();
    let bytes = p.serialize();
    if pairs > base && !(p.inputs.is_empty() && p.outputs.is_empty()) {
        ctx.nontrivial(&bytes);
    }
    ctx.class(format!("inputs {}", if p.inputs.len() > 9 { "250+".into() } else { p.inputs.len().to_string() }));
    ctx.class(format!("outputs {}", if p.outputs.len() > 9 { "250+".into() } else { p.outputs.len().to_string() }));
    ctx.note(|| format!("psbt {}", kv::hex(&bytes)));

    // The encoding holds exactly the pairs of the PSBT's fields.
    let got = match kv::Raw::parse(&bytes) {
        Ok(r) => r,
        Err(e) => return crate::engine::fail("encoding is not a PSBT", e),
    };
    let (a, b) = (got.sorted(), want.sorted());
    if a != b {
        let i = (0..a.maps.len().max(b.maps.len())).find(|i| a.maps.get(*i) != b.maps.get(*i)).unwrap();
        return crate::engine::fail(
            "encoding states other pairs",
            format!("map {}: encoded {:x?}, fields say {:x?}", i, a.maps.get(i), b.maps.get(i)),
        );
    }
    let back = match Psbt::deserialize(&bytes) {
        Ok(p) => p,
        Err(e) => return crate::engine::fail("own encoding does not decode", e.to_string()),
    };
    check!(back == p, "decoding gives another PSBT", "wrote {:?}, read {:?}", p, back);
    let hex = p.serialize_hex();
    check!(hex.eq_ignore_ascii_case(&kv::hex(&bytes)), "hex", "hex form {} of {}", hex, kv::hex(&bytes));
    let text = p.to_string();
    check!(text == kv::base64(&bytes), "base64", "text form {} of {}", text, kv::hex(&bytes));
    match Psbt::from_str(&text) {
        Ok(q) => check!(q == p, "text gives another PSBT", "wrote {:?}, read {:?}", p, q),
        Err(e) => return crate::engine::fail("own text does not parse", e.to_string()),
    }
    Ok(())
}

//! C04: the v2 decoder accepts exactly the well-formed PSBTs.

use psbt_v2::v2::Psbt;

use crate::engine::{fail, Ctx, Prop, Res};
use crate::model2::{self, Outcome};
use crate::source::Src;
use crate::{gen, kv, mutate};

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        dual: true,
        quick: 600_000,
        thorough: 15_000_000,
        rule: "well-formed key-value maps in random field order with 0-3 mutations (dropped, duplicated, moved, retyped or added pairs, altered key data and values, forged counts, maps removed, copied or swapped) and occasional byte damage, decoded and compared with a reference decoder; non-trivial when the reference decoder settles the case on a complete container",
        assumptions: &["left open (either answer accepted): non-minimal lengths, data after the last map, hybrid or (in derivations) uncompressed keys, non-standard sighash bytes in signatures, DER with out of range numbers, explicit default sighash byte, proprietary keys over 1024 bytes; extra bytes after a count are accepted as in the BIP-375 vectors", "transactions, points and xpubs are parsed with rust-bitcoin in the model too"],
        run,
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::psbt2(s);
    let mut r = model2::to_raw(&p);
    mutate::shuffle_fields(s, &mut r);
    let mut names = vec![];
    for _ in 0..s.u(4) {
        names.push(mutate::mutate_kv(s, &mut r, p.inputs.len()));
    }
    let mut bytes = r.encode();
    if s.chance(1, 10) {
        names.push(mutate::mutate_raw(s, &mut bytes));
    }
    for n in &names {
        ctx.class(*n);
    }
    ctx.note(|| format!("mutations {:?}, bytes {}", names, kv::hex(&bytes)));
    let want = model2::decode(&bytes);
    let got = Psbt::deserialize(&bytes);
    match (want, got) {
        (Outcome::Accept(m), Ok(g)) => {
            ctx.class("well-formed");
            ctx.nontrivial(&bytes);
            check!(g == *m, "field values differ", "bytes state {:?}, decoded {:?}", m, g);
        }
        (Outcome::Accept(_), Err(e)) => return fail("well-formed PSBT refused", format!("{} (mutations {:?})", e, names)),
        (Outcome::Reject(why), Ok(_)) => return fail("malformed PSBT accepted", format!("{} (mutations {:?})", why, names)),
        (Outcome::Reject(why), Err(_)) => {
            ctx.class(format!("malformed: {}", why));
            ctx.nontrivial(&bytes);
        }
        (Outcome::Either(why), r) => ctx.class(format!("open: {} ({})", why, if r.is_ok() { "accepted" } else { "refused" })),
    }
    Ok(())
}

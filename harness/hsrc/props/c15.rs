//! C15: finalizing succeeds exactly when there is enough data and keeps what it must.

use psbt_v2::v2::{self, Psbt};

use super::c14;
use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::keys::secp;
use crate::source::Src;
use crate::wallet::{self, Can, KINDS};
use crate::kv;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        dual: false,
        quick: 400_000,
        thorough: 2_000_000,
        rule: "spends of 1 to 3 coins of every output type (keys, multisignature, random miniscripts with keys, hashes, relative and absolute locks, taproot with up to four leaves), with any version, lock time and sequences and a random part of valid signatures, preimages and leaves, each input with or without other fields; oracle: satisfiability computed on the policy, and field by field comparison; non-trivial when satisfiability is decided",
        assumptions: &[
            "policies whose only satisfactions are ones the satisfier is free not to look for are not judged for success",
            "public key hashes in taproot leaves are not judged for success (miniscript 12.2 has no means for them)",
        ],
        run,
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let sp = wallet::spend(s, 3, &KINDS);
    let mut p = wallet::psbt2(s, &sp, 0);
    p.global.tx_modifiable_flags = s.u(8) as u8;
    let tx = sp.tx();
    let mut cans: Vec<Can> = vec![];
    for i in 0..sp.coins.len() {
        let d = wallet::data(s, &sp, &tx, i);
        wallet::fill_data(&mut p.inputs[i], &sp.coins[i], &d);
        cans.push(sp.can(i, &d));
    }
    if s.chance(1, 6) {
        // Through the encoding.
        p = match Psbt::deserialize(&p.serialize()) {
            Ok(q) => q,
            Err(e) => return fail("own encoding refused", e.to_string()),
        };
    }
    let negative = sp.env.version < 0;
    let all = cans.iter().all(|c| c.sat) && !negative;
    let none = cans.iter().any(|c| !c.sat_any);
    let full: Vec<usize> = (0..cans.len()).filter(|i| !cans[*i].sat).collect();
    ctx.note(|| format!("{}; satisfiable {:?}; {}", sp.describe(), cans, kv::hex(&p.serialize())));
    let f = match no_panic("Finalizer::new", || v2::Finalizer::new(p.clone()))? {
        Ok(f) => f,
        Err(e) => return fail("Finalizer refuses", e.to_string()),
    };
    let before = f.clone();
    let r = no_panic("finalize", || f.finalize(secp()))?;
    check!(f == before, "finalizing modifies the original", "");
    ctx.class(if all { "enough" } else if none { "too little" } else { "open" });
    if all || none {
        ctx.nontrivial(format!("{}", p).as_bytes());
    }
    let q = match r {
        Ok(q) => {
            check!(!none, "finalized with too little", "{:?}", cans);
            q
        }
        Err(e) => {
            let bad = match &e {
                v2::FinalizeError::FinalizeInput { input_index, .. } => Some(*input_index),
                v2::FinalizeError::InterpreterCheck(v2::InterpreterCheckError::InterpreterCheckInput(x)) => match x {
                    v2::InterpreterCheckInputError::Constructor { input_index, .. } => Some(*input_index),
                    v2::InterpreterCheckInputError::Satisfaction { input_index, .. } => Some(*input_index),
                },
                _ => None,
            };
            if all {
                let kind = bad.and_then(|i| sp.coins.get(i)).map(|c| format!("{:?}", c.kind)).unwrap_or_default();
                return fail(format!("enough data for {} but not finalized", kind), describe(&e));
            }
            match bad {
                Some(i) => check!(full.contains(&i) || negative, "an input that has enough is blamed", "input {}: {}", i, describe(&e)),
                None => return fail("no input is named", describe(&e)),
            }
            return Ok(());
        }
    };
    for c in &sp.coins {
        ctx.class(format!("{:?}", c.kind));
    }
    check!(q.global == p.global, "finalizing changes the global map", "{:?} expected {:?}", q.global, p.global);
    check!(q.outputs == p.outputs, "finalizing changes the outputs", "");
    check!(q.inputs.len() == p.inputs.len(), "finalizing changes the number of inputs", "");
    for (i, (a, b)) in p.inputs.iter().zip(&q.inputs).enumerate() {
        macro_rules! kept {
            ($($f:ident)*) => {$(
                check!(a.$f == b.$f, format!("finalizing changes {}", stringify!($f)), "input {}: {:?} expected {:?}", i, b.$f, a.$f);
            )*};
        }
        kept!(previous_txid spent_output_index sequence min_time min_height witness_utxo non_witness_utxo unknowns proprietaries);
        macro_rules! cleared {
            ($($f:ident)*) => {$(
                check!(b.$f == Default::default(), format!("finalizing keeps {}", stringify!($f)), "input {}: {:?}", i, b.$f);
            )*};
        }
        cleared!(partial_sigs sighash_type redeem_script witness_script bip32_derivations ripemd160_preimages sha256_preimages
            hash160_preimages hash256_preimages tap_key_sig tap_script_sigs tap_scripts tap_key_origins tap_internal_key tap_merkle_root);
        check!(b.final_script_sig.is_some() && b.final_script_witness.is_some(), "final fields missing", "input {}", i);
    }
    check!(q.is_finalized(), "is_finalized", "");
    c14::judge(&p, &q, &[])?;
    // The same from the bytes.
    let r = match Psbt::deserialize(&q.serialize()) {
        Ok(r) => r,
        Err(e) => return fail("encoding of a finalized PSBT refused", format!("{}: {}", e, kv::hex(&q.serialize()))),
    };
    check!(r == q, "finalized PSBT changes by encoding", "{:?} expected {:?}", r, q);
    Ok(())
}

fn describe(e: &dyn std::error::Error) -> String {
    let mut v = e.to_string();
    let mut e = e.source();
    while let Some(x) = e {
        v += &format!(": {}", x);
        e = x.source();
    }
    v
}

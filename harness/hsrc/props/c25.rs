//! C25: v2 and v0 take the same transaction to the same result.

use bitcoin::{FeeRate, ScriptBuf, Transaction, Witness};
use psbt_v2::v0::bitcoin as v0;
use psbt_v2::v0::miniscript::{finalize_mall, PsbtExt as _};
use psbt_v2::v2::{self, Psbt};
use psbt_v2::PsbtSighashType;

use super::c11::{store, vary};
use super::c14::{fault, tx_of};
use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::keys::secp;
use crate::source::Src;
use crate::wallet::{self, KINDS};
use crate::{interp, kv, up as conv};

fn prevouts(q: &v0::Psbt) -> Vec<bitcoin::TxOut> {
    q.iter_funding_utxos().filter_map(|x| x.ok()).cloned().collect()
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        dual: true,
        quick: 300_000,
        thorough: 2_000_000,
        rule: "spends of 1 to 3 coins of every output type as a v2 PSBT and as the v0 PSBT of the same transaction and data, with varied derivations and sighash types; both signed with the same store of any kind, given the same further signatures, preimages and up to two faults, finalized (allowing malleable satisfactions, as v2 does) and extracted with and without fee rate limits; non-trivial when a signature was added or an input finalized",
        assumptions: &[
            "an input without ECDSA signatures and with a sighash type that is none for ECDSA (the explicit taproot default) is not finalized by v0 (as in rust-miniscript) and is left out",
            "v0 also signs taproot inputs, only ECDSA signatures are compared",
        ],
        run,
    }
}

fn same_data(what: &str, p: &Psbt, q: &v0::Psbt) -> Res {
    check!(p.inputs.len() == q.inputs.len(), format!("{}: number of inputs", what), "");
    for (i, (a, b)) in p.inputs.iter().zip(&q.inputs).enumerate() {
        check!(
            a.final_script_sig.clone().unwrap_or_default() == b.final_script_sig.clone().unwrap_or_default(),
            format!("{}: final scripts differ", what),
            "input {}: v2 {:?} v0 {:?}", i, a.final_script_sig, b.final_script_sig
        );
        check!(
            a.final_script_witness.clone().unwrap_or_default() == b.final_script_witness.clone().unwrap_or_default(),
            format!("{}: final witnesses differ", what),
            "input {}: v2 {:?} v0 {:?}", i, a.final_script_witness, b.final_script_witness
        );
    }
    Ok(())
}

fn fees(p: &Psbt, q: &v0::Psbt) -> Res {
    let a = no_panic("v2 fee", || p.fee())?;
    let b = no_panic("v0 fee", || q.fee())?;
    check!(a.as_ref().ok() == b.as_ref().ok(), "fees differ", "v2 {:?} v0 {:?}", a, b);
    let x: Vec<_> = p.iter_funding_utxos().map(|x| x.ok().cloned()).collect();
    let y: Vec<_> = q.iter_funding_utxos().map(|x| x.ok().cloned()).collect();
    check!(x == y, "funding outputs differ", "v2 {:?} v0 {:?}", x, y);
    Ok(())
}

/// Splits the data over two copies and combines them in both versions.
fn combining(s: &mut Src, p: &mut Psbt, tx: &Transaction, ctx: &mut Ctx) -> Res {
    let (mut a, mut b) = (p.clone(), p.clone());
    for (x, y) in a.inputs.iter_mut().zip(&mut b.inputs) {
        macro_rules! split {
            ($($f:ident)*) => {$(
                let mut bits = s.raw();
                x.$f.retain(|k, _| {
                    bits = bits.rotate_left(2);
                    if bits & 3 == 0 {
                        y.$f.remove(k);
                    }
                    bits & 3 != 1
                });
            )*};
        }
        split!(partial_sigs bip32_derivations sha256_preimages hash256_preimages ripemd160_preimages hash160_preimages tap_script_sigs tap_scripts tap_key_origins unknowns proprietaries);
        macro_rules! either {
            ($($f:ident)*) => {$(
                match s.u(4) {
                    0 => x.$f = None,
                    1 => y.$f = None,
                    _ => {}
                }
            )*};
        }
        either!(redeem_script witness_script tap_key_sig tap_internal_key tap_merkle_root);
    }
    let (mut u, v) = (conv::from_v2(tx, &a), conv::from_v2(tx, &b));
    let r2 = match no_panic("v2 combine", || a.combine_with(b))? {
        Ok(x) => x,
        Err(e) => return fail("v2 refuses to combine", e.to_string()),
    };
    if let Err(e) = no_panic("v0 combine", || u.combine(v))? {
        return fail("v0 refuses to combine", e.to_string());
    }
    check!(r2 == *p, "v2 combining loses", "{:?} expected {:?}", r2, p);
    let want = conv::from_v2(tx, &r2);
    check!(u == want, "combining differs", "v2 {:?} v0 {:?}", want, u);
    ctx.class("combined");
    *p = r2;
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let sp = wallet::spend(s, 3, &KINDS);
    let flags = s.u(8) as u8;
    let mut p = wallet::psbt2(s, &sp, flags);
    let break_it = s.chance(1, 4);
    vary(s, &sp, &mut p, break_it);
    let tx = sp.tx();
    let mut q = conv::from_v2(&tx, &p);
    let st = store(s, &sp);
    ctx.note(|| format!("{}; {}", sp.describe(), kv::hex(&p.serialize())));
    fees(&p, &q)?;
    check!(no_panic("determine_lock_time", || p.determine_lock_time())?.ok() == Some(q.unsigned_tx.lock_time), "lock times differ", "");

    // Signing.
    let signer = match no_panic("Signer::new", || v2::Signer::new(p.clone()))? {
        Ok(x) => x,
        Err(e) => return fail("Signer refuses", e.to_string()),
    };
    let r2 = no_panic("v2 sign", || signer.sign(&st, secp()))?;
    let r0 = no_panic("v0 sign", || q.sign(&st, secp()))?;
    match (r2, r0) {
        (Ok((x, used)), r0) => {
            p = x;
            let (used0, errs0) = match r0 {
                Ok(u) => (u, Default::default()),
                Err((u, e)) => (u, e),
            };
            for i in 0..p.inputs.len() {
                if sp.coins[i].kind == wallet::Kind::Tr {
                    continue;
                }
                let (a, b) = (&p.inputs[i].partial_sigs, &q.inputs[i].partial_sigs);
                check!(a == b, format!("signatures of {:?} differ", sp.coins[i].kind), "input {}: v2 {:?} v0 {:?}", i, a, b);
                if !a.is_empty() {
                    ctx.class(format!("signed {:?}", sp.coins[i].kind));
                    ctx.nontrivial(&p.serialize());
                    check!(!errs0.contains_key(&i), "v0 reports a signed input as failing", "input {}: {:?}", i, errs0.get(&i));
                }
                let mut u2 = used.get(&i).cloned().unwrap_or_default();
                let mut u0: Vec<bitcoin::PublicKey> = match used0.get(&i) {
                    Some(v0::SigningKeys::Ecdsa(v)) => v.clone(),
                    _ => vec![],
                };
                u2.sort();
                u2.dedup();
                u0.sort();
                u0.dedup();
                check!(u2 == u0, "keys reported as used differ", "input {}: v2 {:?} v0 {:?}", i, u2, u0);
            }
        }
        (Err((_, e)), Ok(_)) => {
            // Inputs only signed with Schnorr signatures in v0 are no errors there.
            let ecdsa: Vec<_> = e.keys().filter(|i| sp.coins[**i].kind != wallet::Kind::Tr).collect();
            check!(ecdsa.is_empty(), "only v2 fails to sign", "{:?}", e);
            ctx.class("v2 fails to sign taproot");
            return Ok(());
        }
        (Err(_), Err(_)) => {
            ctx.class("both fail to sign");
            return Ok(());
        }
    }

    // What else is known of the coins.
    for i in 0..p.inputs.len() {
        let d = wallet::data(s, &sp, &tx, i);
        let c = &sp.coins[i];
        let mut x = v2::Input::new(&c.outpoint());
        wallet::fill_data(&mut x, c, &d);
        let o = &mut p.inputs[i];
        let ty = o.sighash_type.and_then(|t| t.ecdsa_hash_ty().ok());
        if c.kind == wallet::Kind::Tr {
            o.partial_sigs.clear();
            o.sighash_type = x.sighash_type.filter(|t| *t != PsbtSighashType::from_u32(0));
            o.tap_key_sig = x.tap_key_sig;
            o.tap_script_sigs = x.tap_script_sigs;
            o.tap_scripts = x.tap_scripts;
        } else if s.chance(3, 4) {
            // Signatures of the type the others have.
            let ty = ty.unwrap_or(bitcoin::EcdsaSighashType::All);
            for k in d.sigs.keys() {
                o.partial_sigs.insert(c.pubkey(*k), c.ecdsa_sig(&tx, i, ty, *k));
            }
            if c.uncompressed {
                o.partial_sigs.retain(|k, _| !k.compressed);
            }
        }
        o.sha256_preimages = x.sha256_preimages;
        o.hash256_preimages = x.hash256_preimages;
        o.ripemd160_preimages = x.ripemd160_preimages;
        o.hash160_preimages = x.hash160_preimages;
    }
    if s.chance(1, 3) {
        combining(s, &mut p, &tx, ctx)?;
    }
    let mut faults = vec![];
    if s.chance(1, 3) {
        for _ in 0..1 + s.us(2) {
            faults.push(fault(s, &sp, &mut p));
        }
    }
    faults.retain(|f| *f != "none");
    let Some(tx) = tx_of(&p) else { return Ok(()) };
    let mut q = conv::from_v2(&tx, &p);
    ctx.note(|| format!("{}; faults {:?}; {}", sp.describe(), faults, kv::hex(&p.serialize())));
    fees(&p, &q)?;
    if s.chance(1, 8) {
        // Through their encodings.
        p = match Psbt::deserialize(&p.serialize()) {
            Ok(x) => x,
            Err(_) => return Ok(()),
        };
        q = match v0::Psbt::deserialize(&q.serialize()) {
            Ok(x) => x,
            Err(e) => return fail("only v0 refuses its encoding", e.to_string()),
        };
    }

    // Finalizing.
    let f = no_panic("Finalizer::new", || v2::Finalizer::new(p.clone()))?;
    // With such a type and no ECDSA signature v0 refuses and v2 does not care.
    let zero = p.inputs.iter().any(|i| i.partial_sigs.is_empty() && i.sighash_type.map_or(false, |t| t.ecdsa_hash_ty().is_err()));
    // Out of range indices are the business of C17 and C02.
    let funded = q.iter_funding_utxos().all(|x| x.is_ok());
    if !funded || zero {
        ctx.class("not compared");
        return Ok(());
    }
    let r2 = match f {
        Ok(f) => no_panic("v2 finalize", || f.finalize(secp()))?.map_err(|e| e.to_string()),
        Err(e) => Err(e.to_string()),
    };
    // Only the function checks the types of the signatures.
    let form = if faults.is_empty() && !break_it { s.u(3) } else { 0 };
    let r0 = no_panic("v0 finalize", || match form {
        0 => {
            let mut x = q.clone();
            finalize_mall(&mut x, secp()).map(|_| x).map_err(|e| format!("{:?}", e))
        }
        1 => q.clone().finalize_mall(secp()).map_err(|e| format!("{:?}", e.1)),
        _ => {
            let mut x = q.clone();
            x.finalize_mall_mut(secp()).map(|_| x).map_err(|e| format!("{:?}", e))
        }
    })?;
    let (p, q) = match (r2, r0) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), Err(_)) => {
            ctx.class(if faults.is_empty() { "both fail to finalize" } else { "both fail to finalize a fault" });
            return Ok(());
        }
        // As rust-miniscript, v0 takes an invalid preimage that leaves a lock time to a final
        // sequence or a first version; C14 asks more of v2.
        (Err(_), Ok(b)) if interp::verify_tx(&b.clone().extract_tx_unchecked_fee_rate(), &prevouts(&b)).is_err() => {
            ctx.class("v0 finalizes an invalid transaction");
            return Ok(());
        }
        (a, b) => {
            return fail(
                if a.is_ok() { "only v2 finalizes" } else { "only v0 finalizes" },
                format!("faults {:?}: v2 {:?} v0 {:?}", faults, a.map(|_| ()), b.map(|_| ())),
            );
        }
    };
    ctx.nontrivial(&p.serialize());
    ctx.class(if faults.is_empty() { "both finalize" } else { "both finalize with a fault" });
    same_data("finalizing", &p, &q)?;
    fees(&p, &q)?;

    // Extracting.
    let e = match no_panic("Extractor::new", || v2::Extractor::new(p.clone()))? {
        Ok(e) => e,
        Err(e) => return fail("Extractor refuses", e.to_string()),
    };
    let t2 = no_panic("v2 extract", || e.extract_tx_unchecked_fee_rate())?.map_err(|e| e.to_string());
    let t0 = no_panic("v0 extract", || q.clone().extract_tx_unchecked_fee_rate())?;
    check!(t2.as_ref().ok() == Some(&t0), "extracted transactions differ", "v2 {:?} v0 {:?}", t2, t0);
    let t0m = no_panic("v0 miniscript extract", || q.extract(secp()))?.map_err(|e| e.to_string());
    check!(t0m.as_ref() == Ok(&t0), "extracted transactions differ (miniscript)", "{:?} {:?}", t0m, t0);
    let mut stripped: Transaction = t0.clone();
    for i in &mut stripped.input {
        i.script_sig = ScriptBuf::new();
        i.witness = Witness::new();
    }
    check!(stripped == tx, "extracted transaction is another", "{:?} expected {:?}", stripped, tx);
    let fee = q.fee().ok().map(|f| f.to_sat());
    let weight = t0.weight();
    let limit = match (fee, s.u(3)) {
        // Around the actual rate.
        (Some(f), 0 | 1) => FeeRate::from_sat_per_kwu((f.min(1 << 50) * 1000 / weight.to_wu().max(1)).saturating_add(s.u(3)).saturating_sub(1)),
        _ => FeeRate::from_sat_per_kwu(s.u64_edge() >> 10),
    };
    for form in 0..3 {
        let a = no_panic("v2 extract with limit", || match form {
            0 => e.extract_tx(),
            1 => e.extract_tx_fee_rate_limit(),
            _ => e.extract_tx_with_fee_rate_limit(limit),
        })?
        .map_err(|e| e.to_string());
        let b = no_panic("v0 extract with limit", || match form {
            0 => q.clone().extract_tx(),
            1 => q.clone().extract_tx_fee_rate_limit(),
            _ => q.clone().extract_tx_with_fee_rate_limit(limit),
        })?
        .map_err(|e| e.to_string());
        check!(a.as_ref().ok() == b.as_ref().ok(), "extraction with a limit differs", "form {} limit {}: v2 {:?} v0 {:?}", form, limit, a, b);
        ctx.class(if a.is_ok() { "within the limit" } else { "above the limit" });
    }
    Ok(())
}

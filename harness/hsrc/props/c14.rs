//! C14: a finalized v2 PSBT extracts to a transaction valid under consensus.

use bitcoin::absolute::LockTime;
use bitcoin::hashes::Hash;
use bitcoin::sighash::{EcdsaSighashType, TapSighashType};
use bitcoin::taproot::LeafVersion;
use bitcoin::{Amount, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Txid, Witness};
use psbt_v2::v2::{self, Psbt};
use psbt_v2::PsbtSighashType;

use super::c11::TYPES;
use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::keys::secp;
use crate::source::Src;
use crate::wallet::{self, kref, Spend, KINDS};
use crate::{gen, interp, kv};

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        dual: false,
        quick: 400_000,
        thorough: 2_000_000,
        rule: "spends of 1 to 3 coins of every output type with random scripts and random parts of their signatures and preimages, then zero to three faults: signatures filed elsewhere or made for another transaction, amount, type, leaf, key or input, wrong preimages, scripts, control blocks and leaf versions, changed sequences, versions, lock times, outputs, amounts and outpoints; when finalizing succeeds the extracted transaction is run through an independent consensus interpreter; non-trivial when it succeeds or a fault was put in",
        assumptions: &["signature verification of libsecp256k1 and sighash digests of the bitcoin crate", "both funding fields of an input agree"],
        run,
    }
}

/// The transaction `p` describes.
pub fn tx_of(p: &Psbt) -> Option<Transaction> {
    let locks: Vec<_> = p.inputs.iter().map(|i| (i.min_time.map(|t| t.to_consensus_u32()), i.min_height.map(|t| t.to_consensus_u32()))).collect();
    let lock = wallet::bip370_lock(p.global.fallback_lock_time.map(|l| l.to_consensus_u32()), &locks)?;
    Some(Transaction {
        version: p.global.tx_version,
        lock_time: LockTime::from_consensus(lock),
        input: p
            .inputs
            .iter()
            .map(|i| TxIn {
                previous_output: bitcoin::OutPoint { txid: i.previous_txid, vout: i.spent_output_index },
                script_sig: ScriptBuf::new(),
                sequence: i.sequence.unwrap_or(Sequence(0xffff_ffff)),
                witness: Witness::new(),
            })
            .collect(),
        output: p.outputs.iter().map(|o| TxOut { value: o.amount, script_pubkey: o.script_pubkey.clone() }).collect(),
    })
}

pub fn funding(p: &Psbt) -> Option<Vec<TxOut>> {
    p.inputs
        .iter()
        .map(|i| match (&i.witness_utxo, &i.non_witness_utxo) {
            (Some(o), _) => Some(o.clone()),
            (None, Some(t)) => t.output.get(i.spent_output_index as usize).cloned(),
            _ => None,
        })
        .collect()
}

const TAP: [TapSighashType; 7] = [
    TapSighashType::Default,
    TapSighashType::All,
    TapSighashType::None,
    TapSighashType::Single,
    TapSighashType::AllPlusAnyoneCanPay,
    TapSighashType::NonePlusAnyoneCanPay,
    TapSighashType::SinglePlusAnyoneCanPay,
];

/// One fault; returns its name.
pub fn fault(s: &mut Src, sp: &Spend, p: &mut Psbt) -> &'static str {
    let n = p.inputs.len();
    let at = s.us(n);
    let coin = &sp.coins[at];
    let tx = match tx_of(p) {
        Some(t) => t,
        None => return "none",
    };
    let prevouts = sp.prevouts();
    let inp = &mut p.inputs[at];
    match s.u(32) {
        0 => {
            // Two signatures change places.
            let ks: Vec<_> = inp.partial_sigs.keys().copied().collect();
            if ks.len() < 2 {
                return "none";
            }
            let (a, b) = (inp.partial_sigs[&ks[0]], inp.partial_sigs[&ks[1]]);
            inp.partial_sigs.insert(ks[0], b);
            inp.partial_sigs.insert(ks[1], a);
            "signatures exchanged"
        }
        1 => {
            for k in &coin.keys {
                let t = inp.sighash_type.and_then(|t| t.ecdsa_hash_ty().ok()).unwrap_or(EcdsaSighashType::All);
                if coin.kind != wallet::Kind::Tr {
                    let mut g = coin.ecdsa_sig(&tx, at, *s.pick(&TYPES), *k);
                    g.sighash_type = t;
                    inp.partial_sigs.insert(coin.pubkey(*k), g);
                }
            }
            "signature of another type"
        }
        2 => {
            if let Some((k, _)) = inp.partial_sigs.iter().next() {
                let k = *k;
                inp.partial_sigs.insert(k, gen::ecdsa_sig(s));
            }
            "arbitrary signature"
        }
        3 => {
            inp.sequence = wallet::seq(s).map(Sequence);
            "sequence"
        }
        4 => {
            p.global.tx_version = bitcoin::transaction::Version(*s.pick(&[0, 1, 2, 3, -1, i32::MAX, i32::MIN]));
            "version"
        }
        5 => {
            p.global.fallback_lock_time = Some(LockTime::from_consensus(s.u32_edge()));
            for i in &mut p.inputs {
                i.min_time = None;
                i.min_height = None;
            }
            "lock time"
        }
        6 => {
            if let Some(o) = p.outputs.last_mut() {
                o.amount = Amount::from_sat(o.amount.to_sat() ^ 1);
            }
            "output amount"
        }
        7 => {
            let a = Amount::from_sat(s.u(1000));
            if let Some(o) = &mut inp.witness_utxo {
                o.value = a;
            }
            if let Some(t) = &mut inp.non_witness_utxo {
                if let Some(o) = t.output.get_mut(inp.spent_output_index as usize) {
                    o.value = a;
                }
            }
            "funding amount"
        }
        8 => {
            let mut t = inp.previous_txid.to_byte_array();
            t[0] ^= 1;
            inp.previous_txid = Txid::from_byte_array(t);
            "outpoint"
        }
        9 => {
            // A preimage of something else.
            let wrong = match s.u(4) {
                0 => wallet::preimage(0).to_vec(),
                1 => vec![0; 32],
                2 => s.bytes(31),
                _ => s.bytes(33),
            };
            for v in inp
                .sha256_preimages
                .values_mut()
                .chain(inp.hash256_preimages.values_mut())
                .chain(inp.ripemd160_preimages.values_mut())
                .chain(inp.hash160_preimages.values_mut())
            {
                *v = wrong.clone();
            }
            "preimages"
        }
        10 => {
            // Everything of another input.
            let o = s.us(n);
            let other = p.inputs[o].clone();
            let inp = &mut p.inputs[at];
            match s.u(3) {
                0 => inp.partial_sigs = other.partial_sigs,
                1 => {
                    inp.redeem_script = other.redeem_script;
                    inp.witness_script = other.witness_script;
                }
                _ => {
                    inp.tap_scripts = other.tap_scripts;
                    inp.tap_script_sigs = other.tap_script_sigs;
                    inp.tap_key_sig = other.tap_key_sig;
                }
            }
            "data of another input"
        }
        11 => {
            if let Some(w) = &mut inp.witness_script {
                let mut b = w.to_bytes();
                b.push(0x61);
                *w = b.into();
            } else if let Some(w) = &mut inp.redeem_script {
                let mut b = w.to_bytes();
                b.push(0x61);
                *w = b.into();
            }
            "script"
        }
        12 => {
            if coin.kind != wallet::Kind::Tr {
                return "none";
            }
            // A key path signature made by a wrong key, of a wrong type, without tweak or of a wrong leaf.
            let t = coin.tap.as_ref().unwrap();
            let ty = *s.pick(&TAP);
            let leaf = if s.bool() { t.leaves.first().map(|l| l.2) } else { None };
            let k = if s.bool() { t.internal } else { wallet::key(s) };
            if let Some(mut g) = coin.tap_sig(&tx, at, ty, k, leaf, &prevouts) {
                if s.bool() {
                    g.sighash_type = *s.pick(&TAP);
                }
                inp.tap_key_sig = Some(g);
            }
            "key path signature"
        }
        13 => {
            let ty = *s.pick(&TAP);
            for g in inp.tap_script_sigs.values_mut() {
                g.sighash_type = ty;
            }
            "types of leaf signatures"
        }
        14 => {
            let v: Vec<_> = inp.tap_script_sigs.iter().map(|(k, g)| (*k, *g)).collect();
            if v.len() < 2 {
                return "none";
            }
            inp.tap_script_sigs.insert(v[0].0, v[1].1);
            inp.tap_script_sigs.insert(v[1].0, v[0].1);
            "leaf signatures exchanged"
        }
        15 => {
            let m = std::mem::take(&mut inp.tap_scripts);
            let v: Vec<_> = m.into_iter().collect();
            for (i, (cb, _)) in v.iter().enumerate() {
                inp.tap_scripts.insert(cb.clone(), v[(i + 1) % v.len()].1.clone());
            }
            "control blocks exchanged"
        }
        16 => {
            let m = std::mem::take(&mut inp.tap_scripts);
            for (mut cb, x) in m {
                match s.u(4) {
                    0 => cb.output_key_parity = bitcoin::secp256k1::Parity::from_u8(cb.output_key_parity.to_u8() ^ 1).unwrap(),
                    1 => cb.internal_key = kref(wallet::key(s)).x,
                    2 => cb.leaf_version = gen::leaf_version(s),
                    _ => cb.merkle_branch = gen::control_block(s).merkle_branch,
                }
                inp.tap_scripts.insert(cb, x);
            }
            "control block"
        }
        17 => {
            let v = if s.bool() { LeafVersion::TapScript } else { gen::leaf_version(s) };
            for x in inp.tap_scripts.values_mut() {
                x.1 = v;
            }
            "leaf version"
        }
        18 => {
            let (a, b) = (s.us(n), s.us(n));
            p.inputs.swap(a, b);
            "input order"
        }
        19 => {
            if p.outputs.len() > 1 {
                p.outputs.swap(0, 1);
            }
            "output order"
        }
        20 => {
            p.outputs.push(v2::Output::new(gen::txout(s)));
            p.global.output_count += 1;
            "another output"
        }
        21 => {
            p.outputs.pop();
            p.global.output_count = p.outputs.len();
            "an output less"
        }
        22 => {
            // Uncompressed keys.
            let m = std::mem::take(&mut inp.partial_sigs);
            for (mut k, g) in m {
                k.compressed = !k.compressed;
                inp.partial_sigs.insert(k, g);
            }
            "form of keys"
        }
        23 => {
            let ty = *s.pick(&TYPES);
            inp.sighash_type = Some(PsbtSighashType::from_u32(super::c11::number(ty)));
            for g in inp.partial_sigs.values_mut() {
                g.sighash_type = ty;
            }
            "types of signatures"
        }
        24 => {
            // Another coin altogether is named as funding.
            let o = sp.coins[s.us(n)].clone();
            if inp.witness_utxo.is_some() {
                inp.witness_utxo = Some(o.txout().clone());
                inp.non_witness_utxo = None;
            } else {
                inp.non_witness_utxo = Some(o.prev.clone());
                inp.spent_output_index = o.vout;
            }
            "another funding output"
        }
        25 | 29 | 30 => {
            // A script the output does not have.
            let x = match s.u(4) {
                0 => coin.txout().script_pubkey.clone(),
                1 => match &inp.witness_script {
                    Some(w) => w.to_p2wsh(),
                    None => gen::script(s),
                },
                2 => gen::script(s),
                _ => sp.coins[s.us(n)].txout().script_pubkey.clone(),
            };
            match (inp.redeem_script.is_none(), inp.witness_script.is_none()) {
                (true, true) if s.bool() => inp.witness_script = Some(x),
                (true, _) => inp.redeem_script = Some(x),
                (false, true) => inp.witness_script = Some(x),
                _ => return "none",
            }
            "needless script"
        }
        26 => {
            match (inp.redeem_script.is_some(), inp.witness_script.is_some()) {
                (true, true) if s.bool() => inp.witness_script = None,
                (true, _) => inp.redeem_script = None,
                (false, true) => inp.witness_script = None,
                _ => return "none",
            }
            "script missing"
        }
        27 => {
            // Scripts of the wrong kind for their place.
            std::mem::swap(&mut inp.redeem_script, &mut inp.witness_script);
            "scripts exchanged"
        }
        28 => {
            // Signatures nobody asked for.
            for _ in 0..1 + s.us(2) {
                let k = wallet::key(s);
                let mut g = coin.ecdsa_sig(&tx, at, EcdsaSighashType::All, k);
                if let Some(t) = inp.sighash_type.and_then(|t| t.ecdsa_hash_ty().ok()) {
                    g.sighash_type = t;
                }
                inp.partial_sigs.entry(coin.pubkey(k)).or_insert(g);
            }
            "signatures of strangers"
        }
        _ => {
            let spk = gen::script(s);
            if let Some(o) = &mut inp.witness_utxo {
                o.script_pubkey = spk.clone();
            }
            if let Some(t) = &mut inp.non_witness_utxo {
                if let Some(o) = t.output.get_mut(inp.spent_output_index as usize) {
                    o.script_pubkey = spk;
                }
            }
            "funding script"
        }
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let sp = wallet::spend(s, 3, &KINDS);
    let mut p = wallet::psbt2(s, &sp, 0);
    let tx = sp.tx();
    for i in 0..sp.coins.len() {
        let mut d = wallet::data(s, &sp, &tx, i);
        for _ in 0..4 {
            if sp.can(i, &d).sat {
                break;
            }
            d = wallet::data(s, &sp, &tx, i);
        }
        wallet::fill_data(&mut p.inputs[i], &sp.coins[i], &d);
    }
    let mut faults = vec![];
    for _ in 0..s.us(4) {
        faults.push(fault(s, &sp, &mut p));
    }
    faults.retain(|f| *f != "none");
    ctx.note(|| format!("{}; faults: {}; {}", sp.describe(), faults.join(", "), kv::hex(&p.serialize())));
    let agree = p.inputs.iter().all(|i| match (&i.witness_utxo, &i.non_witness_utxo) {
        (Some(o), Some(t)) => t.output.get(i.spent_output_index as usize) == Some(o),
        _ => true,
    });
    if !agree {
        return Ok(());
    }
    if !faults.is_empty() {
        ctx.nontrivial(format!("{:?}{}", faults, p).as_bytes());
    }
    let f = match no_panic("Finalizer::new", || v2::Finalizer::new(p.clone()))? {
        Ok(f) => f,
        Err(_) => {
            ctx.class("no finalizer");
            return Ok(());
        }
    };
    let q = match no_panic("finalize", || f.finalize(secp()))? {
        Ok(q) => q,
        Err(_) => {
            ctx.class("not finalized");
            return Ok(());
        }
    };
    ctx.class(if faults.is_empty() { "finalized" } else { "finalized with fault" });
    for (c, i) in sp.coins.iter().zip(&q.inputs) {
        if faults.is_empty() {
            ctx.class(format!("{:?}{}", c.kind, if c.tap.is_some() && i.final_script_witness.as_ref().map_or(0, |w| w.len()) > 1 { " script path" } else { "" }));
        }
    }
    if faults.is_empty() {
        ctx.nontrivial(format!("{}", p).as_bytes());
    }
    judge(&p, &q, &faults)
}

pub fn judge(p: &Psbt, q: &Psbt, faults: &[&str]) -> Res {
    let e = match no_panic("Extractor::new", || v2::Extractor::new(q.clone()))? {
        Ok(e) => e,
        Err(e) => return fail("Extractor refuses a finalized PSBT", e.to_string()),
    };
    let t = match no_panic("extract", || e.extract_tx_unchecked_fee_rate())? {
        Ok(t) => t,
        Err(e) => return fail("extraction of a finalized PSBT", e.to_string()),
    };
    let Some(w) = tx_of(p) else { return fail("finalized without lock time", "") };
    let mut stripped = t.clone();
    for i in &mut stripped.input {
        i.script_sig = ScriptBuf::new();
        i.witness = Witness::new();
    }
    check!(stripped == w, "extracted transaction is another", "{:?} expected {:?}", stripped, w);
    let Some(prevouts) = funding(p) else { return fail("finalized without funding output", "") };
    if let Err(e) = interp::verify_tx(&t, &prevouts) {
        return fail(format!("invalid transaction: {}", e.split(": ").nth(1).unwrap_or("")), format!("{} (faults {:?}): {:?}", e, faults, t));
    }
    Ok(())
}

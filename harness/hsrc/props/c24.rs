//! C24: the v0 signer checks pass exactly the PSBTs BIP-174 lets a signer sign.

use bitcoin::hashes::{hash160, sha256, Hash};
use bitcoin::{Amount, Script, ScriptBuf, Transaction, TxOut};
use psbt_v2::v0::bitcoin as v0;

use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::props::c01::render;
use crate::source::Src;
use crate::wallet::{self, kref, KINDS, NK};
use crate::{gen, kv, up as conv};

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        dual: false,
        quick: 400_000,
        thorough: 8_000_000,
        rule: "spends of 1 to 4 coins of every output type with right data, then at some inputs any of: other or missing scripts (of another coin, hashed once more or once less, swapped, random), other or missing funding data (altered transaction, other output, witness utxo for a legacy output, both forms), signatures and sighash types; oracle: BIP-174's four conditions computed from the raw scripts; non-trivial when a script or both funding forms are present",
        assumptions: &["open: a witness utxo that differs from the output of an accompanying right non-witness utxo, and a witness utxo for a script hash output without redeem script"],
        run,
    }
}

fn p2sh(s: &Script) -> Vec<u8> {
    let mut v = vec![0xa9, 0x14];
    v.extend_from_slice(hash160::Hash::hash(s.as_bytes()).as_byte_array());
    v.push(0x87);
    v
}

fn p2wsh(s: &Script) -> Vec<u8> {
    let mut v = vec![0x00, 0x20];
    v.extend_from_slice(sha256::Hash::hash(s.as_bytes()).as_byte_array());
    v
}

fn is_p2sh(b: &[u8]) -> bool { b.len() == 23 && b[0] == 0xa9 && b[1] == 0x14 && b[22] == 0x87 }

fn is_program(b: &[u8]) -> bool { b.len() >= 4 && b.len() <= 42 && (b[0] == 0 || (0x51..=0x60).contains(&b[0])) && b[1] as usize == b.len() - 2 }

fn is_v0_program(b: &[u8]) -> bool { is_program(b) && b[0] == 0 && (b.len() == 22 || b.len() == 34) }

/// Whether the input may be signed; None when left open.
fn judge(tx: &Transaction, i: usize, inp: &v0::Input) -> (Option<bool>, &'static str) {
    let prev = tx.input[i].previous_output;
    if let Some(t) = &inp.non_witness_utxo {
        if t.compute_txid() != prev.txid {
            return (Some(false), "other transaction");
        }
    }
    let of_tx = inp.non_witness_utxo.as_ref().and_then(|t| t.output.get(prev.vout as usize));
    let mut open = false;
    if let (Some(w), Some(_)) = (&inp.witness_utxo, &inp.non_witness_utxo) {
        open |= Some(w) != of_tx;
    }
    let funding: Option<&TxOut> = inp.witness_utxo.as_ref().or(of_tx);
    let spk = funding.map(|o| o.script_pubkey.as_bytes());
    if let Some(w) = &inp.witness_utxo {
        let b = w.script_pubkey.as_bytes();
        let legacy = if is_p2sh(b) {
            match &inp.redeem_script {
                Some(r) => !is_v0_program(r.as_bytes()),
                None => {
                    open = true;
                    false
                }
            }
        } else {
            !is_program(b)
        };
        if legacy {
            return (Some(false).filter(|_| !open), "witness utxo for a legacy output");
        }
    }
    if let Some(r) = &inp.redeem_script {
        if spk != Some(&p2sh(r)[..]) {
            return (Some(false).filter(|_| !open), "redeem script is for another output");
        }
    }
    if let Some(w) = &inp.witness_script {
        let want = p2wsh(w);
        let ok = match &inp.redeem_script {
            Some(r) => r.as_bytes() == want,
            None => spk == Some(&want[..]),
        };
        if !ok {
            // Wrong in any case when nothing can be it.
            return (Some(false).filter(|_| !open), "witness script is for another output");
        }
    }
    (Some(true).filter(|_| !open), "right")
}

fn other_script(s: &mut Src, sp: &wallet::Spend, i: usize) -> ScriptBuf {
    let c = &sp.coins[i];
    let d = &sp.coins[s.us(sp.coins.len())];
    match s.u(10) {
        0 => d.redeem.clone().unwrap_or_default(),
        1 => d.witness_script.clone().unwrap_or_default(),
        2 => d.spk.clone(),
        3 => c.redeem.clone().or(c.witness_script.clone()).unwrap_or_default().to_p2sh(),
        4 => c.redeem.clone().or(c.witness_script.clone()).unwrap_or_default().to_p2wsh(),
        5 => ScriptBuf::new_p2wpkh(&kref(s.us(NK)).comp().wpubkey_hash().unwrap()),
        6 => c.witness_script.clone().or(c.redeem.clone()).unwrap_or_default(),
        7 => {
            let mut b = c.redeem.clone().unwrap_or_default().into_bytes();
            b.push(0x51);
            ScriptBuf::from(b)
        }
        _ => gen::script(s),
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let sp = wallet::spend(s, 4, &KINDS);
    let p2 = wallet::psbt2(s, &sp, 0);
    let mut tx = sp.tx();
    let mut p = conv::from_v2(&tx, &p2);
    let times = if s.chance(1, 4) { 0 } else { 1 + s.u(2) };
    for _ in 0..times {
        let i = s.us(sp.coins.len());
        let c = &sp.coins[i];
        match s.u(14) {
            0 => p.inputs[i].redeem_script = None,
            1 => p.inputs[i].witness_script = None,
            2 | 3 => p.inputs[i].redeem_script = Some(other_script(s, &sp, i)),
            4 | 5 => p.inputs[i].witness_script = Some(other_script(s, &sp, i)),
            6 => {
                let inp = &mut p.inputs[i];
                core::mem::swap(&mut inp.redeem_script, &mut inp.witness_script);
            }
            7 => {
                p.inputs[i].witness_utxo = Some(c.txout().clone());
                if s.bool() {
                    p.inputs[i].non_witness_utxo = None;
                }
            }
            8 => p.inputs[i].non_witness_utxo = Some(c.prev.clone()),
            9 => {
                let mut t = c.prev.clone();
                match s.u(4) {
                    0 => t.version.0 ^= 1,
                    1 => t.output.push(gen::txout(s)),
                    2 => t.output[c.vout as usize].value = Amount::from_sat(s.u(1000)),
                    // A witness is no part of the txid.
                    _ => t.input.iter_mut().for_each(|i| i.witness = gen::witness(s)),
                }
                p.inputs[i].non_witness_utxo = Some(t);
            }
            10 => {
                // Another output of the right transaction, or none.
                tx.input[i].previous_output.vout = s.u(6) as u32;
                p.unsigned_tx.input[i].previous_output.vout = tx.input[i].previous_output.vout;
            }
            11 => {
                let spk = other_script(s, &sp, i);
                p.inputs[i].witness_utxo = Some(TxOut { value: c.txout().value, script_pubkey: spk });
            }
            12 => {
                p.inputs[i].witness_utxo = None;
                p.inputs[i].non_witness_utxo = None;
            }
            _ => {
                // Data of another input.
                let j = s.us(sp.coins.len());
                let mut q = p.inputs[j].clone();
                if s.bool() {
                    q.non_witness_utxo = p.inputs[i].non_witness_utxo.clone();
                }
                p.inputs[i] = q;
            }
        }
    }
    for inp in p.inputs.iter_mut() {
        if s.chance(1, 6) {
            inp.sighash_type = Some(psbt_v2::PsbtSighashType::from_u32(gen::sighash_u32(s)));
        }
        if s.chance(1, 6) {
            inp.partial_sigs.insert(gen::pubkey(s), gen::ecdsa_sig(s));
        }
    }
    ctx.note(|| format!("{}; {}", sp.describe(), kv::hex(&p.serialize())));
    let verdicts: Vec<_> = p.inputs.iter().enumerate().map(|(i, x)| judge(&tx, i, x)).collect();
    for v in &verdicts {
        ctx.class(format!("{}{}", v.1, if v.0.is_none() { " (open)" } else { "" }));
    }
    if p.inputs.iter().any(|i| i.redeem_script.is_some() || i.witness_script.is_some() || i.non_witness_utxo.is_some() && i.witness_utxo.is_some()) {
        ctx.nontrivial(&p.serialize());
    }
    let before = p.clone();
    let r = no_panic("signer_checks", || p.signer_checks())?;
    check!(p == before, "the checks change the PSBT", "");
    if let Err(e) = &r {
        render(e)?;
    }
    if verdicts.iter().any(|v| v.0 == Some(false)) {
        let why = verdicts.iter().find(|v| v.0 == Some(false)).unwrap().1;
        check!(r.is_err(), format!("checks pass: {}", why), "{:?}", verdicts);
    } else if verdicts.iter().all(|v| v.0 == Some(true)) {
        if let Err(e) = r {
            let k: Vec<_> = sp.coins.iter().map(|c| c.kind).collect();
            return fail("checks refuse a right PSBT", format!("{:?} for {:?}", e, k));
        }
    }
    Ok(())
}

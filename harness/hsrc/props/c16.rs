//! C16: extraction demands finalized inputs and enforces the fee rate limit.

use bitcoin::absolute::LockTime;
use bitcoin::{transaction, Amount, FeeRate, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Witness};
use psbt_v2::v2::{self, ExtractTxFeeRateError};

use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::source::Src;
use crate::wallet::bip370_lock;
use crate::{gen, kv};

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        dual: false,
        quick: 600_000,
        thorough: 20_000_000,
        rule: "PSBTs with any fields, each input with both, one or none of the final fields, funding amounts aimed at fee rates just below, at and above the limit, at overflow and at negative fees, funding outputs missing or out of range, and limits from zero to the maximum; oracle: the transaction, fee and fee rate computed independently in 128 bits; non-trivial when all inputs are finalized",
        assumptions: &["the fee rate is the whole number of satoshis per 1000 weight units, rounded down, as FeeRate represents it; fees of more than 2^64/1000 sat are only required not to be accepted below their saturated rate"],
        run,
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match s.u(10) {
        0 => 0,
        1..=5 => 1,
        _ => 1 + s.few(4),
    };
    let m = s.few(4);
    let mut p = v2::Psbt { global: gen::global(s), inputs: vec![], outputs: vec![] };
    let skip = s.chance(1, 5);
    for _ in 0..n {
        let mut i = if s.chance(1, 4) { gen::input(s) } else { v2::Input::new(&gen::outpoint(s)) };
        i.min_time = None;
        i.min_height = None;
        if s.chance(1, 10) {
            i.min_time = Some(gen::time(s));
        }
        if s.chance(1, 10) {
            i.min_height = Some(gen::height(s));
        }
        if s.bool() {
            i.sequence = Some(Sequence(s.u32_edge()));
        }
        i.final_script_sig = Some(if s.bool() { ScriptBuf::new() } else { ScriptBuf::from(gen::blob(s)) });
        i.final_script_witness = Some(if s.bool() { Witness::new() } else { gen::witness(s) });
        if skip && s.bool() {
            match s.u(3) {
                0 => i.final_script_sig = None,
                1 => i.final_script_witness = None,
                _ => {
                    i.final_script_sig = None;
                    i.final_script_witness = None;
                }
            }
        }
        p.inputs.push(i);
    }
    let big = s.chance(1, 8);
    for _ in 0..m {
        let mut o = gen::output(s);
        o.amount = Amount::from_sat(if big { s.u64_edge() } else { s.u(1_000_000_000) });
        p.outputs.push(o);
    }
    p.global.input_count = n;
    p.global.output_count = m;
    let locks: Vec<_> = p.inputs.iter().map(|i| (i.min_time.map(|x| x.to_consensus_u32()), i.min_height.map(|x| x.to_consensus_u32()))).collect();
    let lock = bip370_lock(p.global.fallback_lock_time.map(|l| l.to_consensus_u32()), &locks);
    let finalized = p.inputs.iter().all(|i| i.final_script_sig.is_some() && i.final_script_witness.is_some());
    let tx = lock.filter(|_| finalized).map(|l| Transaction {
        version: p.global.tx_version,
        lock_time: LockTime::from_consensus(l),
        input: p
            .inputs
            .iter()
            .map(|i| TxIn {
                previous_output: bitcoin::OutPoint { txid: i.previous_txid, vout: i.spent_output_index },
                script_sig: i.final_script_sig.clone().unwrap(),
                sequence: i.sequence.unwrap_or(Sequence::MAX),
                witness: i.final_script_witness.clone().unwrap(),
            })
            .collect(),
        output: p.outputs.iter().map(|o| TxOut { value: o.amount, script_pubkey: o.script_pubkey.clone() }).collect(),
    });

    // Funding, aimed at a limit.
    let weight = tx.as_ref().map(weight).unwrap_or(500);
    let limit: u64 = match s.u(6) {
        0 | 1 => 25_000 * 250,
        2 => s.u(2000),
        3 => *s.pick(&[0, 1, u64::MAX, u64::MAX / 2, u64::MAX / 1000]),
        _ => s.u64_edge(),
    };
    let out_sum: u128 = p.outputs.iter().map(|o| o.amount.to_sat() as u128).sum();
    let fee_target: i128 = match s.u(5) {
        0..=2 => {
            let l = if s.bool() { limit } else { 25_000 * 250 };
            (l as i128) * (weight as i128) / 1000 + s.u(7) as i128 - 3
        }
        3 => s.u64_edge() as i128,
        _ => -(s.u(3) as i128),
    };
    let mut left: i128 = out_sum as i128 + fee_target;
    for k in 0..n {
        let v = if k + 1 == n { left.clamp(0, u64::MAX as i128) } else { (left / 2).clamp(0, u64::MAX as i128) };
        left -= v;
        let value = Amount::from_sat(if s.chance(1, 40) { s.u64_edge() } else { v as u64 });
        let i = &mut p.inputs[k];
        i.witness_utxo = None;
        i.non_witness_utxo = None;
        match s.u(16) {
            0 => {
                // Missing or out of range.
                if s.bool() {
                    i.non_witness_utxo = Some(prev(i.spent_output_index.min(2), value, false));
                    if i.spent_output_index < 3 {
                        i.non_witness_utxo = None;
                    }
                }
            }
            1..=5 if i.spent_output_index < 4 => i.non_witness_utxo = Some(prev(i.spent_output_index, value, true)),
            6 => {
                i.witness_utxo = Some(TxOut { value, script_pubkey: gen::script(s) });
                i.non_witness_utxo = Some(gen::tx(s));
            }
            _ => i.witness_utxo = Some(TxOut { value, script_pubkey: gen::script(s) }),
        }
    }
    let mut ins: Option<u128> = Some(0);
    for i in &p.inputs {
        let v = match (&i.witness_utxo, &i.non_witness_utxo) {
            (Some(u), _) => Some(u.value),
            (None, Some(t)) => t.output.get(i.spent_output_index as usize).map(|o| o.value),
            _ => None,
        };
        ins = match (ins, v) {
            (Some(a), Some(b)) => Some(a + b.to_sat() as u128),
            _ => None,
        };
    }
    let fee: Option<u64> = match ins {
        Some(i) if i <= u64::MAX as u128 && out_sum <= u64::MAX as u128 && i >= out_sum => Some((i - out_sum) as u64),
        _ => None,
    };
    ctx.note(|| format!("finalized {}, lock {:?}, fee {:?}, weight {}, limit {} sat/kwu: {}", finalized, lock, fee, weight, limit, kv::hex(&p.serialize())));
    if finalized {
        ctx.nontrivial(&p.serialize());
    }

    let e = no_panic("Extractor::new", || v2::Extractor::new(p.clone()))?;
    let (tx, e) = match (tx, e) {
        (None, Ok(_)) => return fail("Extractor::new accepts", format!("finalized {} lock {:?}", finalized, lock)),
        (None, Err(x)) => {
            ctx.class("not extractable");
            let is_final = matches!(x, v2::ExtractError::PsbtNotFinalized);
            check!(is_final != finalized || lock.is_none(), "kind of error of Extractor::new", "{}", x);
            check!(p.inputs.is_empty() || p.is_finalized() == finalized, "is_finalized", "{}", p.is_finalized());
            return Ok(());
        }
        (Some(_), Err(x)) => return fail("Extractor::new refuses", x.to_string()),
        (Some(t), Ok(e)) => (t, e),
    };
    check!(p.is_finalized(), "is_finalized", "false for a finalized PSBT");
    match no_panic("extract_tx_unchecked_fee_rate", || e.extract_tx_unchecked_fee_rate())? {
        Ok(t) => check!(t == tx, "transaction extracted unchecked", "{:?} expected {:?}", t, tx),
        Err(x) => return fail("extract_tx_unchecked_fee_rate fails", x.to_string()),
    }
    judge(ctx, "extract_tx", no_panic("extract_tx", || e.extract_tx())?, &tx, fee, 25_000 * 250)?;
    judge(ctx, "extract_tx_fee_rate_limit", no_panic("extract_tx_fee_rate_limit", || e.extract_tx_fee_rate_limit())?, &tx, fee, 25_000 * 250)?;
    let max = FeeRate::from_sat_per_kwu(limit);
    judge(ctx, "extract_tx_with_fee_rate_limit", no_panic("extract_tx_with_fee_rate_limit", || e.extract_tx_with_fee_rate_limit(max))?, &tx, fee, limit)?;
    Ok(())
}

fn weight(t: &Transaction) -> u64 {
    // Counted on the encoding.
    let total = bitcoin::consensus::serialize(t).len() as u64;
    let mut bare = t.clone();
    bare.input.iter_mut().for_each(|i| i.witness = Witness::new());
    let base = if t.input.is_empty() {
        // The encoding of a transaction without inputs has the segwit marker.
        bitcoin::consensus::serialize(&bare).len() as u64 - 2
    } else {
        bitcoin::consensus::serialize(&bare).len() as u64
    };
    let total = if t.input.is_empty() { base } else { total };
    base * 3 + total
}

fn judge(ctx: &mut Ctx, what: &str, r: Result<Transaction, ExtractTxFeeRateError>, tx: &Transaction, fee: Option<u64>, limit: u64) -> Res {
    let fee = match fee {
        None => {
            ctx.class("no fee");
            return match r {
                Err(ExtractTxFeeRateError::Fee(_)) => Ok(()),
                x => fail(format!("{} without a fee", what), format!("{:?}", x)),
            };
        }
        Some(f) => f,
    };
    // The weight of transactions without inputs is a matter of definition.
    let (lo, hi) = if tx.input.is_empty() {
        let w = weight(tx) as u128;
        (fee as u128 * 1000 / (w + 10), fee as u128 * 1000 / w.saturating_sub(10).max(1))
    } else {
        let r = fee as u128 * 1000 / weight(tx) as u128;
        (r, r)
    };
    let lo = lo.min(u64::MAX as u128 / weight(tx) as u128 - u128::from(tx.input.is_empty()));
    match r {
        Ok(t) => {
            ctx.class("below the limit");
            check!(lo <= limit as u128, format!("{} ignores the limit", what), "fee {} rate {} limit {}", fee, lo, limit);
            check!(t == *tx, format!("transaction of {}", what), "{:?} expected {:?}", t, tx);
        }
        Err(ExtractTxFeeRateError::FeeTooHigh { fee: f, max }) => {
            ctx.class("above the limit");
            check!(hi > limit as u128, format!("{} refuses a fee within the limit", what), "fee {} rate {} limit {}", fee, hi, limit);
            check!(max == FeeRate::from_sat_per_kwu(limit), format!("limit reported by {}", what), "{:?} is {}", max, limit);
            let f = f.to_sat_per_kwu() as u128;
            check!(f >= lo && f <= hi.max(lo), format!("rate reported by {}", what), "{} is {} to {}", f, lo, hi);
        }
        Err(x) => return fail(format!("{} fails", what), x.to_string()),
    }
    Ok(())
}

fn prev(index: u32, value: Amount, reach: bool) -> Transaction {
    let n = if reach { index + 1 } else { index };
    Transaction {
        version: transaction::Version::TWO,
        lock_time: LockTime::ZERO,
        input: vec![],
        output: (0..n)
            .map(|k| TxOut { value: if k == index { value } else { Amount::from_sat(k as u64 + 7) }, script_pubkey: ScriptBuf::new() })
            .collect(),
    }
}

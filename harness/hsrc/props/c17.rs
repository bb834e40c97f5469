//! C17: fees and funding outputs are computed exactly or refused.

use bitcoin::absolute::LockTime;
use bitcoin::{transaction, Amount, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Witness};
use psbt_v2::{v0, v2, FeeError, FundingUtxoError};

use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::gen;
use crate::source::Src;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        dual: false,
        quick: 600_000,
        thorough: 20_000_000,
        rule: "transactions with 0 to 5 inputs and 0 to 4 outputs, each input with a witness utxo, a non-witness utxo with 0 to 4 outputs and an index in or out of its range, both (of different value) or none, amounts over all 64 bits and aimed at sums around 2^64 and at fees around zero, as v2 and as v0 PSBTs; oracle: sums in 128 bits; non-trivial when every funding output is known",
        assumptions: &[],
        run,
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Bad {
    Missing,
    Out,
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.few(6);
    let m = s.few(5);
    let style = s.u(4);
    let mut funds: Vec<(OutPoint, Option<TxOut>, Option<Transaction>)> = vec![];
    let mut outs: Vec<TxOut> = vec![];
    let hole = s.chance(1, 4);
    for _ in 0..m {
        outs.push(TxOut { value: Amount::from_sat(val(s, style)), script_pubkey: gen::script(s) });
    }
    let out_sum: u128 = outs.iter().map(|o| o.value.to_sat() as u128).sum();
    let mut left: i128 = match s.u(4) {
        0 => out_sum as i128 + s.u(5) as i128 - 2,
        1 => (1i128 << 64) + s.u(5) as i128 - 2,
        _ => -1,
    };
    let aimed = left >= 0;
    for k in 0..n {
        let v = if aimed {
            let v = if k + 1 == n { left } else { left / 2 }.clamp(0, u64::MAX as i128);
            left -= v;
            v as u64
        } else {
            val(s, style)
        };
        let mut op = gen::outpoint(s);
        let form = if hole { s.u(6) } else { s.u(4) };
        op.vout = match (form, s.u(8)) {
            (4, 0) => s.u32_edge(),
            (4, 1) => u32::MAX,
            _ => s.u(4) as u32,
        };
        let o = TxOut { value: Amount::from_sat(v), script_pubkey: gen::script(s) };
        let (w, t) = match form {
            0 => (Some(o), None),
            1 | 2 => {
                let extra = s.us(3);
                (None, Some(tx(s, op.vout as usize + 1 + extra, op.vout as usize, o)))
            }
            3 => {
                // Both; the witness utxo counts.
                let len = s.us(5);
                (Some(o), Some(tx(s, len, usize::MAX, TxOut::NULL)))
            }
            4 => {
                let len = s.us(op.vout.min(4) as usize + 1).min(op.vout as usize);
                (None, Some(tx(s, len, usize::MAX, TxOut::NULL)))
            }
            _ => (None, None),
        };
        funds.push((op, w, t));
    }
    let want: Vec<Result<TxOut, Bad>> = funds
        .iter()
        .map(|(op, w, t)| match (w, t) {
            (Some(w), _) => Ok(w.clone()),
            (None, Some(t)) => t.output.get(op.vout as usize).cloned().ok_or(Bad::Out),
            _ => Err(Bad::Missing),
        })
        .collect();
    let in_sum: Option<u128> = want.iter().map(|w| w.as_ref().ok().map(|o| o.value.to_sat() as u128)).sum();
    let max = u64::MAX as u128;
    let fee: Option<u64> = in_sum.filter(|i| *i <= max && out_sum <= max && *i >= out_sum).map(|i| (i - out_sum) as u64);
    ctx.note(|| format!("inputs {:?}, outputs {:?}: fee {:?}", want, outs, fee));
    ctx.class(match (in_sum, fee) {
        (None, _) => "missing",
        (_, Some(0)) => "zero fee",
        (_, Some(_)) => "fee",
        (Some(i), None) if i > max => "input overflow",
        _ if out_sum > max => "output overflow",
        _ => "negative",
    });
    if in_sum.is_some() && n > 0 {
        ctx.nontrivial(format!("{:?}{:?}", want, outs).as_bytes());
    }

    // Version 2.
    let mut p = v2::Creator::new().constructor_modifiable();
    for (op, w, t) in &funds {
        let mut b = v2::InputBuilder::new(op);
        if let Some(w) = w {
            b = b.segwit_fund(w.clone());
        }
        if let Some(t) = t {
            b = b.legacy_fund(t.clone());
        }
        p = p.input(b.build());
    }
    for o in &outs {
        p = p.output(v2::OutputBuilder::new(o.clone()).build());
    }
    let p = p.psbt().unwrap();
    let got: Vec<_> = no_panic("v2 iter_funding_utxos", || p.iter_funding_utxos().map(|r| r.cloned()).collect())?;
    check!(got.len() == n, "number of v2 funding utxos", "{} of {}", got.len(), n);
    for (k, (g, w)) in got.iter().zip(&want).enumerate() {
        let one = p.inputs[k].funding_utxo().cloned();
        check!(one == *g, "v2 funding_utxo differs from the iterator", "{:?} {:?}", one, g);
        match (g, w) {
            (Ok(a), Ok(b)) => check!(a == b, "v2 funding utxo", "{:?} expected {:?}", a, b),
            (Err(FundingUtxoError::MissingUtxo), Err(Bad::Missing)) => {}
            (Err(FundingUtxoError::OutOfBounds { vout, len }), Err(Bad::Out)) => check!(
                *vout == funds[k].0.vout as usize && *len == funds[k].2.as_ref().unwrap().output.len(),
                "v2 out of bounds error", "{} of {}", vout, len
            ),
            (a, b) => return fail("v2 funding utxo", format!("{:?} expected {:?}", a, b)),
        }
    }
    let r = no_panic("v2 fee", || p.fee())?;
    check!(r.as_ref().ok().map(|a| a.to_sat()) == fee, "v2 fee", "{:?} expected {:?}", r, fee);
    if let Err(e) = r {
        let ok = match e {
            FeeError::FundingUtxo(FundingUtxoError::MissingUtxo) => want.contains(&Err(Bad::Missing)),
            FeeError::FundingUtxo(FundingUtxoError::OutOfBounds { .. }) => want.contains(&Err(Bad::Out)),
            // Whether the sum up to a missing one already overflows is not fixed.
            FeeError::InputOverflow => in_sum.map_or(true, |i| i > max),
            FeeError::OutputOverflow => out_sum > max,
            FeeError::Negative => in_sum.map_or(false, |i| i <= max && out_sum <= max && i < out_sum),
            #[allow(unreachable_patterns)]
            _ => true,
        };
        check!(ok, "kind of v2 fee error", "{:?}", e);
    }

    // Version 0.
    let t = Transaction {
        version: transaction::Version::TWO,
        lock_time: LockTime::ZERO,
        input: funds.iter().map(|f| TxIn { previous_output: f.0, script_sig: ScriptBuf::new(), sequence: Sequence::MAX, witness: Witness::new() }).collect(),
        output: outs.clone(),
    };
    let mut q = v0::Psbt::from_unsigned_tx(t).unwrap();
    for (k, (_, w, t)) in funds.iter().enumerate() {
        q.inputs[k].witness_utxo = w.clone();
        q.inputs[k].non_witness_utxo = t.clone();
    }
    use v0::bitcoin::Error as E0;
    let got: Vec<_> = no_panic("v0 iter_funding_utxos", || q.iter_funding_utxos().map(|r| r.cloned()).collect())?;
    check!(got.len() == n, "number of v0 funding utxos", "{} of {}", got.len(), n);
    for (k, (g, w)) in got.iter().zip(&want).enumerate() {
        match (g, w) {
            (Ok(a), Ok(b)) => check!(a == b, "v0 funding utxo", "{:?} expected {:?}", a, b),
            (Err(E0::MissingUtxo), Err(Bad::Missing)) => {}
            (Err(E0::PsbtUtxoOutOfbounds), Err(Bad::Out)) => {}
            (a, b) => return fail("v0 funding utxo", format!("{:?} expected {:?}", a, b)),
        }
        let one = no_panic("v0 spend_utxo", || q.spend_utxo(k).cloned())?;
        check!(one.as_ref().ok() == w.as_ref().ok(), "v0 spend_utxo", "{:?} expected {:?}", one, w);
    }
    let r = no_panic("v0 fee", || q.fee())?;
    check!(r.as_ref().ok().map(|a| a.to_sat()) == fee, "v0 fee", "{:?} expected {:?}", r, fee);
    if let Err(e) = r {
        let ok = match e {
            E0::MissingUtxo => want.contains(&Err(Bad::Missing)),
            E0::PsbtUtxoOutOfbounds => want.contains(&Err(Bad::Out)),
            E0::FeeOverflow => in_sum.map_or(true, |i| i > max) || out_sum > max,
            E0::NegativeFee => in_sum.map_or(false, |i| i <= max && out_sum <= max && i < out_sum),
            _ => false,
        };
        check!(ok, "kind of v0 fee error", "{:?}", e);
    }
    Ok(())
}

fn val(s: &mut Src, style: u64) -> u64 {
    match style {
        0 | 1 => s.u(1_000_000),
        2 => s.u64_edge() / 4,
        _ => s.u64_edge(),
    }
}

fn tx(s: &mut Src, len: usize, at: usize, o: TxOut) -> Transaction {
    Transaction {
        version: transaction::Version::TWO,
        lock_time: LockTime::ZERO,
        input: vec![],
        output: (0..len)
            .map(|k| if k == at { o.clone() } else { TxOut { value: Amount::from_sat(s.u(1000)), script_pubkey: ScriptBuf::new() } })
            .collect(),
    }
}

//! C20: v0 PSBT operations give the results of rust-bitcoin.

use std::collections::BTreeMap;

use bitcoin::psbt as up;
use bitcoin::{Amount, FeeRate, Transaction, TxOut};
use psbt_v2::v0::bitcoin as v0;
use psbt_v2::v2;

use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::kv::{Kv, Map, Raw};
use crate::props::c19::upstream;
use crate::source::Src;
use crate::{gen, kv, model2, up as conv};

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        dual: false,
        quick: 120_000,
        thorough: 3_000_000,
        rule: "histories on v0 PSBTs of a random transaction: creation (also from signed transactions), 2-4 copies holding random overlapping and conflicting subsets of two pools of field values (sometimes for another transaction), combined in random order and grouping, then fee, funding outputs and extraction with random fee rate limits, every step compared with rust-bitcoin's, and combined maps with the key-wise union; non-trivial when two operands with different fields were combined or a transaction with inputs was extracted",
        assumptions: &["rust-bitcoin 0.32.8 is the reference, except where it panics (key sources of unequal depth, an output index out of range)", "as in rust-bitcoin, the first operand's sighash type (or lack of it) stays, a witness utxo replaces a non-witness utxo when combining and of two key sources of an extended key the deeper wins"],
        run,
    }
}

/// The name of the variant, from the debug text.
pub fn variant(e: &dyn std::fmt::Debug) -> String { format!("{:?}", e).chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect() }

fn full_key(k: &Kv) -> Vec<u8> { k.full_key() }

/// A random part of the union of two maps.
fn part(s: &mut Src, a: &Map, b: &Map, density: u64) -> Map {
    let mut m: BTreeMap<Vec<u8>, Kv> = BTreeMap::new();
    for (n, src) in [a, b].into_iter().enumerate() {
        for k in src {
            let must = k.ty == 0 && k.key.is_empty();
            if s.chance(density, 8) || must {
                if n == 1 && m.contains_key(&full_key(k)) && s.bool() {
                    continue;
                }
                m.insert(full_key(k), k.clone());
            }
        }
    }
    m.into_values().collect()
}

fn fill(s: &mut Src, tx: &Transaction) -> Raw {
    let mut p = v2::Creator::new().psbt();
    let g = gen::global(s);
    p.global.xpubs = g.xpubs;
    p.global.proprietaries = g.proprietaries;
    p.global.unknowns = g.unknowns;
    for i in &tx.input {
        let mut inp = v2::Input::new(&i.previous_output);
        let d = s.u(9);
        gen::fill_input_common(s, &mut inp, d);
        if inp.non_witness_utxo.is_some() && s.bool() {
            inp.witness_utxo = None;
        }
        p.inputs.push(inp);
    }
    for o in &tx.output {
        let mut out = v2::Output::new(o.clone());
        let d = s.u(9);
        gen::fill_output_common(s, &mut out, d);
        p.outputs.push(out);
    }
    model2::to_raw_v0(tx, None, &p)
}

fn pairs(p: &v0::Psbt) -> Vec<BTreeMap<Vec<u8>, Vec<u8>>> {
    Raw::parse(&p.serialize())
        .expect("own encoding")
        .maps
        .iter()
        .map(|m| m.iter().map(|k| (k.full_key(), k.val.clone())).collect())
        .collect()
}

fn union(a: &v0::Psbt, b: &v0::Psbt, c: &v0::Psbt) -> Res {
    let (x, y, z) = (pairs(a), pairs(b), pairs(c));
    check!(x.len() == y.len() && y.len() == z.len(), "combining changes the number of maps", "{} {} {}", x.len(), y.len(), z.len());
    let n = a.inputs.len();
    for m in 0..x.len() {
        for (k, v) in &z[m] {
            check!(x[m].get(k) == Some(v) || y[m].get(k) == Some(v), "combining invents", "map {} key {} value {}", m, kv::hex(k), kv::hex(v));
        }
        for k in x[m].keys().chain(y[m].keys()) {
            // A witness utxo may replace a non-witness utxo.
            if m > 0 && m <= n && k == &[0u8] && z[m].contains_key(&[1u8][..]) {
                continue;
            }
            // The sighash type of the first operand stays, set or not.
            if m > 0 && m <= n && k == &[3u8] {
                continue;
            }
            check!(z[m].contains_key(k), "combining loses", "map {} key {}", m, kv::hex(k));
        }
    }
    Ok(())
}

/// Combining in both implementations; `None` when it is refused.
fn combine(a: &v0::Psbt, b: &v0::Psbt, ctx: &mut Ctx) -> Result<Option<v0::Psbt>, crate::engine::Fail> {
    let mut c = a.clone();
    let ours = no_panic("v0 combine", || c.combine(b.clone()))?;
    let (ua, ub) = (conv::up(a), conv::up(b));
    let theirs = upstream(|| {
        let mut uc = ua.clone();
        uc.combine(ub).map(|_| uc)
    });
    match (&ours, theirs) {
        (Ok(()), Some(Ok(u))) => {
            if conv::up(&c) != u {
                return fail("combined values differ", format!("{:?}\nversus rust-bitcoin's {:?}", c, u));
            }
            ctx.class("combined");
        }
        (Err(e), Some(Err(u))) => {
            check!(variant(e) == variant(&u), "combining errors differ", "{:?} versus {:?}", e, u);
            ctx.class(format!("combine: {}", variant(e)));
        }
        (o, Some(u)) => return fail("combining accepted by one only", format!("{:?} versus rust-bitcoin's {:?}", o, u.map(|_| ()))),
        (_, None) => ctx.class("rust-bitcoin panics when combining"),
    }
    if ours.is_ok() {
        union(a, b, &c)?;
        Ok(Some(c))
    } else {
        let differs = a.unsigned_tx != b.unsigned_tx;
        let sources = a.xpub.iter().any(|(k, v)| b.xpub.get(k).map_or(false, |w| w != v));
        check!(differs || sources, "combining refused", "{:?}", ours);
        Ok(None)
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    // Creation.
    let mut tx = gen::unsigned_tx(s);
    if s.chance(1, 10) {
        let n = tx.input.len();
        if n > 0 {
            let at = s.us(n);
            let i = &mut tx.input[at];
            if s.bool() {
                i.script_sig = gen::script(s);
            }
            if s.bool() {
                i.witness = gen::witness(s);
            }
        }
    }
    ctx.note(|| format!("tx {}", bitcoin::consensus::encode::serialize_hex(&tx)));
    let signed = tx.input.iter().any(|i| !i.script_sig.is_empty() || !i.witness.is_empty());
    let made = no_panic("from_unsigned_tx", || v0::Psbt::from_unsigned_tx(tx.clone()))?;
    match (&made, up::Psbt::from_unsigned_tx(tx.clone())) {
        (Ok(a), Ok(b)) => check!(conv::up(a) == b && !signed, "created PSBTs differ", "{:?}", a),
        (Err(a), Err(b)) => check!(variant(a) == variant(&b) && signed, "creation errors differ", "{:?} versus {:?}", a, b),
        (a, b) => return fail("creation accepted by one only", format!("{:?} versus {:?}", a.is_ok(), b.is_ok())),
    }
    let Ok(made) = made else {
        ctx.class("signed transaction refused");
        for i in tx.input.iter_mut() {
            i.script_sig = Default::default();
            i.witness = Default::default();
        }
        return Ok(());
    };
    check!(made.unsigned_tx == tx && made.version == 0 && made.inputs.len() == tx.input.len() && made.outputs.len() == tx.output.len(), "created PSBT", "{:?}", made);

    // Copies with different fields.
    if tx.input.is_empty() {
        // An unsigned transaction without inputs may not survive encoding.
        let fee = made.fee();
        check!(variant(&fee) == variant(&conv::up(&made).fee()), "fees differ", "{:?}", fee);
        return Ok(());
    }
    let (pa, pb) = (fill(s, &tx), fill(s, &tx));
    let n = 2 + s.few(3);
    let mut copies: Vec<v0::Psbt> = vec![];
    for i in 0..n {
        let mut r = if s.chance(1, 12) && i > 0 {
            // About another transaction.
            let mut t = tx.clone();
            match s.u(5) {
                0 => t.version.0 ^= 1,
                1 => t.lock_time = bitcoin::absolute::LockTime::from_consensus(s.u32_edge()),
                2 => t.input[0].sequence.0 ^= 1,
                3 => t.input[0].previous_output.vout ^= 1,
                _ => t.output.push(gen::txout(s)),
            }
            fill(s, &t)
        } else {
            let d = s.u(9);
            Raw { maps: pa.maps.iter().zip(&pb.maps).map(|(a, b)| part(s, a, b, d)).collect() }
        };
        if s.chance(1, 10) {
            // A key source at another depth for a shared extended key.
            if let Some(k) = r.maps[0].iter_mut().find(|k| k.ty == 1 && k.val.len() >= 4) {
                match s.u(3) {
                    0 => k.val.truncate(4 + 4 * s.us(k.val.len() / 4)),
                    1 => {
                        let at = if s.bool() { 4 } else { k.val.len() };
                        let x = s.bytes(4);
                        k.val.splice(at..at, x);
                    }
                    _ => k.val[0] ^= 1,
                }
            }
        }
        let b = r.encode();
        ctx.note(|| format!("copy {}", kv::hex(&b)));
        match v0::Psbt::deserialize(&b) {
            Ok(mut p) => {
                if s.chance(1, 10) {
                    p.version = s.u32_edge();
                }
                copies.push(p)
            }
            Err(e) => return fail("well-formed v0 PSBT refused", format!("{}: {}", e, kv::hex(&b))),
        }
    }
    let mut order: Vec<usize> = (0..n).collect();
    s.shuffle(&mut order);
    let mut cur = copies[order[0]].clone();
    if s.bool() {
        // From the bare creation.
        if let Some(c) = combine(&made, &cur, ctx)? {
            cur = c;
        }
    }
    for &i in &order[1..] {
        let next = if s.bool() { combine(&cur, &copies[i], ctx)? } else { combine(&copies[i], &cur, ctx)? };
        if cur != copies[i] {
            ctx.nontrivial(&(kv::hash_pair(&cur.serialize(), &copies[i].serialize())));
        }
        // Repeating changes nothing.
        if let Some(c) = &next {
            if let Some(d) = combine(c, c, ctx)? {
                check!(&d == c, "combining with itself changes", "{:?}", c);
            }
        }
        if let Some(c) = next {
            cur = c;
        }
    }

    // Fees and extraction.
    if s.bool() {
        for (i, inp) in cur.inputs.iter_mut().enumerate() {
            // Make the funding usable.
            let out = TxOut { value: Amount::from_sat(if s.chance(1, 8) { s.u64_edge() } else { s.u(50_000_000) }), script_pubkey: gen::script(s) };
            if s.bool() {
                inp.witness_utxo = Some(out);
            } else {
                let v = cur.unsigned_tx.input[i].previous_output.vout;
                inp.witness_utxo = None;
                if v < 4 {
                    let mut prev = gen::tx(s);
                    while prev.output.len() <= v as usize && !(s.chance(1, 10)) {
                        prev.output.push(out.clone());
                    }
                    inp.non_witness_utxo = Some(prev);
                } else {
                    inp.witness_utxo = Some(out);
                }
            }
        }
        for o in cur.unsigned_tx.output.iter_mut() {
            o.value = Amount::from_sat(s.u(20_000_000));
        }
    }
    ctx.note(|| format!("result {}", kv::hex(&cur.serialize())));
    let u = conv::up(&cur);
    let ours: Vec<Result<TxOut, String>> =
        no_panic("iter_funding_utxos", || cur.iter_funding_utxos().map(|r| r.map(|o| o.clone()).map_err(|e| variant(&e))).collect())?;
    let theirs: Vec<Result<TxOut, String>> = u.iter_funding_utxos().map(|r| r.map(|o| o.clone()).map_err(|e| variant(&e))).collect();
    check!(ours == theirs, "funding outputs differ", "{:?} versus {:?}", ours, theirs);
    let (f, g) = (no_panic("fee", || cur.fee())?, u.fee());
    match (&f, &g) {
        (Ok(a), Ok(b)) => check!(a == b, "fees differ", "{} versus {}", a, b),
        (Err(a), Err(b)) => check!(variant(a) == variant(b), "fee errors differ", "{:?} versus {:?}", a, b),
        _ => return fail("fees differ", format!("{:?} versus {:?}", f, g)),
    }
    let mut want = cur.unsigned_tx.clone();
    for (i, inp) in want.input.iter_mut().zip(&cur.inputs) {
        i.script_sig = inp.final_script_sig.clone().unwrap_or_default();
        i.witness = inp.final_script_witness.clone().unwrap_or_default();
    }
    let plain = no_panic("extract_tx_unchecked_fee_rate", || cur.clone().extract_tx_unchecked_fee_rate())?;
    check!(plain == want && plain == u.clone().extract_tx_unchecked_fee_rate(), "extracted transactions differ", "{:?}", plain);
    ctx.nontrivial(&bitcoin::consensus::encode::serialize(&plain));

    let rate = f.as_ref().ok().map(|f| f.to_sat().saturating_mul(1000) / plain.weight().to_wu());
    let limit = FeeRate::from_sat_per_kwu(match (s.u(5), rate) {
        (0, _) => s.u64_edge(),
        (1, _) => s.u(100_000_000),
        (2, Some(r)) => r,
        (3, Some(r)) => r.saturating_sub(1),
        (_, Some(r)) => r.saturating_add(1),
        _ => s.u(10_000),
    });
    for form in 0..3 {
        let ours = no_panic("extract_tx", || match form {
            0 => cur.clone().extract_tx(),
            1 => cur.clone().extract_tx_fee_rate_limit(),
            _ => cur.clone().extract_tx_with_fee_rate_limit(limit),
        })?;
        let v = u.clone();
        let theirs = upstream(|| match form {
            0 => v.extract_tx(),
            1 => v.extract_tx_fee_rate_limit(),
            _ => v.extract_tx_with_fee_rate_limit(limit),
        });
        use up::ExtractTxError as U;
        use v0::ExtractTxError as V;
        let same = match (&ours, &theirs) {
            (_, None) => {
                ctx.class("rust-bitcoin panics when extracting");
                match &ours {
                    Err(V::MissingInputValue { tx }) => *tx == plain,
                    _ => false,
                }
            }
            (Ok(a), Some(Ok(b))) => {
                ctx.class("extracted");
                a == b && *a == plain
            }
            (Err(V::AbsurdFeeRate { fee_rate: a, tx: t }), Some(Err(U::AbsurdFeeRate { fee_rate: b, tx: w }))) => {
                ctx.class("absurd fee rate");
                a == b && t == w && *t == plain
            }
            (Err(V::MissingInputValue { tx: t }), Some(Err(U::MissingInputValue { tx: w }))) => {
                ctx.class("missing input value");
                t == w && *t == plain
            }
            (Err(V::SendingTooMuch { psbt: p }), Some(Err(U::SendingTooMuch { psbt: q }))) => {
                ctx.class("sending too much");
                *p == cur && conv::up(p) == *q
            }
            _ => false,
        };
        check!(same, "extraction differs", "form {} limit {}: {:?} versus rust-bitcoin's {:?}", form, limit, ours, theirs);
    }
    Ok(())
}

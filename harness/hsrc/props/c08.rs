//! C08: the lock time is the one BIP-370 prescribes, and every role uses it.

use bitcoin::absolute::{Height, LockTime, Time};
use bitcoin::{Amount, ScriptBuf, Sequence, TxOut, Witness};
use psbt_v2::v2;

use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::source::Src;
use crate::wallet::bip370_lock;
use crate::{gen, kv};

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        dual: false,
        quick: 2_000_000,
        thorough: 20_000_000,
        rule: "PSBTs with 0 to 6 inputs, each with no, a time, a height or both lock time requirements (boundary and random values, often equal), with or without a fallback of either type; compared with BIP-370's rule written independently, in the PSBT itself, every role's constructor, the unsigned and the extracted transaction, before and after encoding; non-trivial when some input has a requirement",
        assumptions: &[],
        run,
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match s.u(8) {
        0 => 0,
        1..=6 => 1 + s.us(4),
        _ => 1 + s.few(6),
    };
    let fallback = if s.bool() { Some(s.u32_edge()) } else { None };
    // Which kinds of requirement there are, to reach agreement often.
    let style = s.u(4);
    let near = s.bool();
    let (bt, bh) = (gen::time(s).to_consensus_u32(), gen::height(s).to_consensus_u32());
    let mut locks = vec![];
    let mut inputs = vec![];
    for _ in 0..n {
        let t = |s: &mut Src| Some(if near { (bt as u64 + s.u(3)).clamp(500_000_000, u32::MAX as u64) as u32 } else { gen::time(s).to_consensus_u32() });
        let h = |s: &mut Src| Some(if near { (bh as u64 + s.u(3)).min(499_999_999) as u32 } else { gen::height(s).to_consensus_u32() });
        let l = match (style, s.u(4)) {
            (_, 0) => (None, None),
            (_, 1) => (t(s), h(s)),
            (0, 2) => (t(s), None),
            (0, _) => (None, h(s)),
            (1, _) => (t(s), None),
            (2, _) => (None, h(s)),
            (_, 2) => (None, None),
            _ => (t(s), h(s)),
        };
        locks.push(l);
        let mut b = v2::InputBuilder::new(&gen::outpoint(s));
        if let Some(x) = l.0 {
            b = b.minimum_required_time_based_lock_time(Time::from_consensus(x).unwrap());
        }
        if let Some(x) = l.1 {
            b = b.minimum_required_height_based_lock_time(Height::from_consensus(x).unwrap());
        }
        let mut i = b.build();
        if s.bool() {
            i.sequence = Some(Sequence(s.u32_edge()));
        }
        i.witness_utxo = Some(TxOut { value: Amount::from_sat(1000), script_pubkey: ScriptBuf::new() });
        inputs.push(i);
    }
    let want = bip370_lock(fallback, &locks);
    ctx.note(|| format!("fallback {:?}, requirements (time, height) {:?}: {:?}", fallback, locks, want));
    if locks.iter().any(|l| l.0.is_some() || l.1.is_some()) {
        ctx.nontrivial(format!("{:?}{:?}", fallback, locks).as_bytes());
    }
    ctx.class(match want {
        None => "impossible",
        Some(x) if x >= 500_000_000 => "time",
        Some(_) => "height",
    });
    let mut g = v2::Creator::new().psbt().global;
    g.fallback_lock_time = fallback.map(LockTime::from_consensus);
    g.input_count = n;
    g.tx_modifiable_flags = s.u(8) as u8;
    let p = v2::Psbt { global: g, inputs, outputs: vec![] };
    judge(&p, want, "")?;
    // The requirements survive encoding.
    let b = p.serialize();
    let q = match v2::Psbt::deserialize(&b) {
        Ok(q) => q,
        Err(e) => return fail("own encoding refused", format!("{}: {}", e, kv::hex(&b))),
    };
    judge(&q, want, " after encoding")?;
    // Construction through the roles.
    let build = || {
        let mut c = v2::Creator::new();
        if let Some(f) = fallback {
            c = c.fallback_lock_time(LockTime::from_consensus(f));
        }
        let mut c = c.constructor_modifiable();
        for i in &p.inputs {
            c = c.input(i.clone());
        }
        c
    };
    let u = build().psbt();
    check!(u.is_ok() == want.is_some(), "Constructor::psbt", "{:?} expected {:?}", u.is_ok(), want);
    let u = build().updater();
    check!(u.is_ok() == want.is_some(), "Constructor::updater", "{:?} expected {:?}", u.is_ok(), want);
    // Order does not matter.
    let mut r = p.clone();
    s.shuffle(&mut r.inputs);
    judge(&r, want, " reordered")?;
    Ok(())
}

fn judge(p: &v2::Psbt, want: Option<u32>, when: &str) -> Res {
    let got = no_panic("determine_lock_time", || p.determine_lock_time())?.ok().map(|l| l.to_consensus_u32());
    check!(got == want, format!("determine_lock_time{}", when), "{:?}, expected {:?}", got, want);
    if let Some(w) = want {
        let l = p.determine_lock_time().unwrap();
        check!(l.is_block_height() == (w < 500_000_000), format!("kind of lock time{}", when), "{:?}", l);
    }
    let ok = want.is_some();
    check!(v2::Updater::new(p.clone()).is_ok() == ok, format!("Updater::new{}", when), "expected {}", ok);
    check!(v2::Updater::try_from(p.clone()).is_ok() == ok, format!("Updater::try_from{}", when), "expected {}", ok);
    check!(v2::Finalizer::new(p.clone()).is_ok() == ok, format!("Finalizer::new{}", when), "expected {}", ok);
    match no_panic("Signer::new", || v2::Signer::new(p.clone()))? {
        Ok(x) => {
            check!(ok, format!("Signer::new{}", when), "accepts impossible lock times");
            let t = x.unsigned_tx();
            check!(Some(t.lock_time.to_consensus_u32()) == want, format!("unsigned transaction lock time{}", when), "{:?}, expected {:?}", t.lock_time, want);
        }
        Err(e) => check!(!ok, format!("Signer::new{}", when), "{}", e),
    }
    let mut f = p.clone();
    for i in &mut f.inputs {
        i.final_script_sig = Some(ScriptBuf::new());
        i.final_script_witness = Some(Witness::new());
    }
    match no_panic("Extractor::new", || v2::Extractor::new(f))? {
        Ok(x) => {
            check!(ok, format!("Extractor::new{}", when), "accepts impossible lock times");
            match no_panic("extract", || x.extract_tx_unchecked_fee_rate())? {
                Ok(t) => check!(Some(t.lock_time.to_consensus_u32()) == want, format!("extracted lock time{}", when), "{:?}, expected {:?}", t.lock_time, want),
                Err(e) => return fail(format!("extraction fails{}", when), e.to_string()),
            }
        }
        Err(e) => check!(!ok, format!("Extractor::new{}", when), "{}", e),
    }
    Ok(())
}

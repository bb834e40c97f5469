//! C21: v0 signing yields exactly the valid ECDSA and Schnorr signatures.

use std::collections::{BTreeMap, BTreeSet};

use bitcoin::key::XOnlyPublicKey;
use bitcoin::psbt as up;
use bitcoin::secp256k1::{Secp256k1, Signing};
use bitcoin::sighash::{SighashCache, TapSighashType};
use bitcoin::taproot::TapLeafHash;
use bitcoin::{PrivateKey, PublicKey, TxOut};
use psbt_v2::v0::bitcoin as v0;
use psbt_v2::v0::bitcoin::GetKey as _;
use psbt_v2::PsbtSighashType;

use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::keys::secp;
use crate::props::c11::{judge_sig, number, store, vary, Fate, Store};
use crate::props::c19::upstream;
use crate::props::c20::variant;
use crate::source::Src;
use crate::wallet::{self, kref, Kind, KINDS, NK};
use crate::{gen, kv, up as conv};

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        dual: false,
        quick: 300_000,
        thorough: 2_000_000,
        rule: "spends of 1 to 4 coins of every output type with random derivations and leaf lists, sighash types, funding data, signatures already there, and sometimes missing scripts or funding; signed with extended keys, key maps and stores that fail or answer wrongly; oracle: script code, amounts and sighash computed from the coins, signature verification, a model of which keys are to be used for which leaf or the key path, and rust-bitcoin's result on the same PSBT; non-trivial when some signature is to be made",
        assumptions: &["sighash digests of the bitcoin crate for a given script code, leaf, amount and type", "for taproot a store is only asked by key source"],
        run,
    }
}

/// The same store for rust-bitcoin, answering as it answers the v0 module.
struct Mirror<'a>(&'a Store);

impl up::GetKey for Mirror<'_> {
    type Error = String;
    fn get_key<C: Signing>(&self, r: up::KeyRequest, secp: &Secp256k1<C>) -> Result<Option<PrivateKey>, String> {
        match r {
            up::KeyRequest::Pubkey(k) => self.0.get_key(v0::KeyRequest::Pubkey(k), secp),
            up::KeyRequest::Bip32(k) => self.0.get_key(v0::KeyRequest::Bip32(k), secp),
            _ => Err("unsupported".to_string()),
        }
    }
}

const TAP: [(u32, TapSighashType); 7] = [
    (0x00, TapSighashType::Default),
    (0x01, TapSighashType::All),
    (0x02, TapSighashType::None),
    (0x03, TapSighashType::Single),
    (0x81, TapSighashType::AllPlusAnyoneCanPay),
    (0x82, TapSighashType::NonePlusAnyoneCanPay),
    (0x83, TapSighashType::SinglePlusAnyoneCanPay),
];

fn known_v2(i: &psbt_v2::v2::Input) -> bool { i.witness_utxo.is_some() || i.non_witness_utxo.is_some() }

fn known(p: &v0::Psbt, i: usize) -> Option<TxOut> {
    let inp = &p.inputs[i];
    match (&inp.witness_utxo, &inp.non_witness_utxo) {
        (Some(o), _) => Some(o.clone()),
        (None, Some(t)) => t.output.get(p.unsigned_tx.input[i].previous_output.vout as usize).cloned(),
        (None, None) => None,
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let sp = wallet::spend(s, 4, &KINDS);
    let mut p2 = wallet::psbt2(s, &sp, 0);
    let break_it = s.bool();
    let fates = vary(s, &sp, &mut p2, break_it);
    let mut st = store(s, &sp);
    if sp.coins.iter().any(|c| c.kind == Kind::Tr) && s.bool() {
        // Only by key source can a store serve taproot.
        let mut by_source = std::collections::HashMap::new();
        for k in sp.coins.iter().flat_map(|c| c.keys.iter()) {
            if !s.chance(1, 5) {
                by_source.insert(wallet::source(*k), kref(*k).priv_for(!s.chance(1, 6)));
            }
        }
        st = Store::Custom { by_source, by_key: BTreeMap::new(), err32: false, err_pk: s.bool() };
    }
    let tx = sp.tx();
    let mut prevouts = sp.prevouts();
    let mut unknown_kind = BTreeSet::new();
    for (i, (c, inp)) in sp.coins.iter().zip(p2.inputs.iter_mut()).enumerate() {
        let Some(t) = &c.tap else {
            // A signature of someone, maybe one of ours.
            if s.chance(1, 6) {
                let k = if s.bool() && !c.keys.is_empty() { c.keys[0] } else { s.us(NK) };
                inp.partial_sigs.insert(kref(k).comp(), gen::ecdsa_sig(s));
            }
            continue;
        };
        inp.sighash_type = match s.u(3) {
            0 => None,
            1 => Some(PsbtSighashType::from_u32(s.pick(&TAP).0)),
            _ if break_it => Some(PsbtSighashType::from_u32(if s.bool() { gen::sighash_u32(s) } else { *s.pick(&[4, 0x80, 0x84, 0xff, 0x100, 0x101, 0x181]) })),
            _ => None,
        };
        for k in &c.keys {
            let Some(e) = inp.tap_key_origins.get_mut(&kref(*k).x) else { continue };
            match s.u(10) {
                0 => {
                    inp.tap_key_origins.remove(&kref(*k).x);
                }
                1 => e.0.clear(),
                2 => e.0.push(TapLeafHash::from_script(gen::script(s).as_script(), bitcoin::taproot::LeafVersion::TapScript)),
                3 => e.1 = wallet::source(s.us(NK)),
                _ => {}
            }
        }
        if s.chance(1, 6) {
            inp.tap_key_sig = c.tap_sig(&tx, i, TapSighashType::All, t.internal, None, &prevouts);
        }
        if s.chance(1, 6) {
            if let Some(l) = t.leaves.first() {
                let k = *s.pick(&c.keys);
                inp.tap_script_sigs.insert((kref(k).x, l.2), gen::tap_sig(s));
            }
        }
        if s.chance(1, 20) {
            inp.tap_internal_key = None;
        }
        if break_it && s.chance(1, 5) && known_v2(inp) {
            // A witness program nobody knows yet.
            let (version, len) = match s.u(4) {
                0 => (0x51, *s.pick(&[2usize, 4, 20, 31, 33, 40])),
                1 => (0x52, 32),
                _ => (0x52 + s.us(15) as u8, 2 + s.us(39)),
            };
            let mut b = vec![version, len as u8];
            b.extend(s.bytes(len));
            prevouts[i].script_pubkey = b.into();
            inp.witness_utxo = Some(prevouts[i].clone());
            unknown_kind.insert(i);
            ctx.class("unknown witness program");
        }
    }
    let p = conv::from_v2(&tx, &p2);
    ctx.note(|| format!("{}; fates {:?}; {}", sp.describe(), fates, kv::hex(&p.serialize())));

    // The ECDSA message on request.
    {
        let u = conv::up(&p);
        let mut cache = SighashCache::new(&tx);
        let mut other = SighashCache::new(&tx);
        for i in 0..fates.len() + 2 {
            let r = no_panic("sighash_ecdsa", || p.sighash_ecdsa(i, &mut cache))?;
            if known(&p, i.min(fates.len() - 1)).is_some() || i >= fates.len() {
                match (&r, u.sighash_ecdsa(i, &mut other)) {
                    (Ok(a), Ok(b)) => check!(*a == b, "message differs from rust-bitcoin's", "input {}", i),
                    (Err(a), Err(b)) => check!(variant(a) == variant(&b), "error differs from rust-bitcoin's", "{:?} versus {:?}", a, b),
                    (a, b) => return fail("message computed by one only", format!("input {}: {:?} versus rust-bitcoin's {:?}", i, a, b)),
                }
            }
            match (r, fates.get(i)) {
                (Ok((m, ty)), Some(Fate::Sign(t))) => {
                    check!(ty == *t, "type of the message", "{:?} expected {:?}", ty, t);
                    check!(m == sp.coins[i].ecdsa_msg(&tx, i, number(*t)), format!("message for {:?} with {:?}", sp.coins[i].kind, t), "input {}", i);
                }
                (Err(e), Some(Fate::Sign(_))) => return fail(format!("no message for {:?}", sp.coins[i].kind), format!("input {}: {}", i, e)),
                (Ok(_), f) => return fail("message from nothing", format!("input {} {:?}", i, f)),
                (Err(_), _) => {}
            }
        }
    }

    // The model.
    let mut want = p.clone();
    let mut used: BTreeMap<usize, BTreeSet<Vec<u8>>> = BTreeMap::new();
    let mut errors = BTreeSet::new();
    // Signatures to judge: input, key it is filed under, leaf.
    let mut ecdsa_new: Vec<(usize, PublicKey)> = vec![];
    let mut tap_new: Vec<(usize, XOnlyPublicKey, Option<TapLeafHash>)> = vec![];
    let mut lied: BTreeSet<(usize, XOnlyPublicKey)> = BTreeSet::new();
    for (i, c) in sp.coins.iter().enumerate() {
        if known(&p, i).is_none() || unknown_kind.contains(&i) {
            errors.insert(i);
            continue;
        }
        if c.kind != Kind::Tr {
            for (pk, src) in &p.inputs[i].bip32_derivation {
                let Some(sk) = st.supply(pk, src) else { continue };
                match fates[i] {
                    Fate::Sign(_) => {
                        let k = sk.public_key(secp());
                        ecdsa_new.push((i, k));
                        used.entry(i).or_default().insert(k.to_bytes());
                    }
                    Fate::Error => {
                        errors.insert(i);
                    }
                    Fate::Skip => unreachable!(),
                }
            }
            continue;
        }
        let inp = &p.inputs[i];
        let ty = match inp.sighash_type {
            None => Some(TapSighashType::Default),
            Some(n) => TAP.iter().find(|t| t.0 == n.to_u32()).map(|t| t.1),
        };
        let anyone = ty.map_or(false, |t| t as u32 & 0x80 != 0);
        let single = ty.map_or(false, |t| t as u32 & 3 == 3);
        let possible = ty.is_some() && (anyone || (0..p.inputs.len()).all(|j| known(&p, j).is_some())) && !(single && i >= tx.output.len());
        let mut new = vec![];
        let mut mine: BTreeSet<Vec<u8>> = BTreeSet::new();
        for (x, (leaves, src)) in &inp.tap_key_origins {
            let Some(sk) = st.by_source(src) else { continue };
            let actual = sk.inner.public_key(secp()).x_only_public_key().0;
            if actual != *x {
                lied.insert((i, *x));
            }
            if inp.tap_internal_key == Some(*x) && leaves.is_empty() && inp.tap_key_sig.is_none() {
                new.push((i, *x, None));
                mine.insert(x.serialize().to_vec());
            }
            for l in leaves {
                if !inp.tap_script_sigs.contains_key(&(*x, *l)) {
                    new.push((i, *x, Some(*l)));
                    mine.insert(actual.serialize().to_vec());
                }
            }
        }
        if new.is_empty() {
            continue;
        }
        if possible {
            tap_new.extend(new);
            used.insert(i, mine);
        } else {
            errors.insert(i);
        }
    }
    if !ecdsa_new.is_empty() || !tap_new.is_empty() {
        ctx.nontrivial(&p.serialize());
    }
    if !errors.is_empty() {
        ctx.class("with errors");
    }

    let mut q = p.clone();
    let r = no_panic("sign", || q.sign(&st, secp()))?;
    let (got_used, got_errors) = match &r {
        Ok(u) => (u, None),
        Err((u, e)) => (u, Some(e)),
    };

    // Against rust-bitcoin, which panics for an output index out of range.
    let mut u = conv::up(&p);
    if let Some(theirs) = upstream(|| u.sign(&Mirror(&st), secp())) {
        ctx.class("compared with rust-bitcoin");
        check!(conv::up(&q) == u, "signed PSBT differs from rust-bitcoin's", "{}\nversus {}", kv::hex(&q.serialize()), kv::hex(&u.serialize()));
        let (uu, ue) = match &theirs {
            Ok(u) => (u, None),
            Err((u, e)) => (u, Some(e)),
        };
        check!(format!("{:?}", got_used) == format!("{:?}", uu), "used keys differ from rust-bitcoin's", "{:?} versus {:?}", got_used, uu);
        let a: Option<Vec<_>> = got_errors.map(|e| e.iter().map(|(i, e)| (*i, variant(e))).collect());
        let b: Option<Vec<_>> = ue.map(|e| e.iter().map(|(i, e)| (*i, variant(e))).collect());
        check!(a == b, "errors differ from rust-bitcoin's", "{:?} versus {:?}", a, b);
    }

    // Against the model.
    let e: BTreeSet<usize> = got_errors.map(|e| e.keys().copied().collect()).unwrap_or_default();
    check!(e == errors, "inputs reported as failing", "{:?} expected {:?}", got_errors, errors);
    check!(got_errors.is_some() == !errors.is_empty(), "failure without a failing input", "");
    let mut got: BTreeMap<usize, BTreeSet<Vec<u8>>> = BTreeMap::new();
    for (i, k) in got_used {
        let v: BTreeSet<Vec<u8>> = match k {
            v0::SigningKeys::Ecdsa(v) => v.iter().map(|k| k.to_bytes()).collect(),
            v0::SigningKeys::Schnorr(v) => v.iter().map(|k| k.serialize().to_vec()).collect(),
        };
        if !v.is_empty() {
            got.insert(*i, v);
        }
    }
    check!(got == used, "keys reported as used", "{:?} expected {:?}", got, used);

    for (i, k) in &ecdsa_new {
        let c = &sp.coins[*i];
        let Fate::Sign(t) = fates[*i] else { unreachable!() };
        let Some(sig) = q.inputs[*i].partial_sigs.get(k) else {
            return fail(format!("no signature for {:?}", c.kind), format!("input {} key {}", i, k));
        };
        judge_sig(c, &tx, *i, t, k, sig)?;
        want.inputs[*i].partial_sigs.insert(*k, *sig);
        ctx.class(format!("{:?}", c.kind));
    }
    for (i, x, leaf) in &tap_new {
        let c = &sp.coins[*i];
        let inp = &q.inputs[*i];
        let ty = inp.sighash_type.map_or(TapSighashType::Default, |n| TAP.iter().find(|t| t.0 == n.to_u32()).unwrap().1);
        let sig = match leaf {
            None => inp.tap_key_sig,
            Some(l) => inp.tap_script_sigs.get(&(*x, *l)).copied(),
        };
        let Some(sig) = sig else {
            return fail("no taproot signature", format!("input {} key {} leaf {:?}", i, x, leaf));
        };
        check!(sig.sighash_type == ty, "sighash type of the signature", "{:?} expected {:?}", sig.sighash_type, ty);
        if !lied.contains(&(*i, *x)) {
            let Some(msg) = c.tap_msg(&tx, *i, ty, *leaf, &prevouts) else {
                return fail("signature without a message", format!("input {}", i));
            };
            let key = match leaf {
                None => c.tap.as_ref().unwrap().info.output_key().to_x_only_public_key(),
                Some(_) => *x,
            };
            check!(secp().verify_schnorr(&sig.signature, &msg, &key).is_ok(), format!("invalid taproot signature with {:?}", ty), "input {} key {} leaf {:?}", i, x, leaf);
        }
        match leaf {
            None => {
                ctx.class("Tr key path");
                want.inputs[*i].tap_key_sig = Some(sig)
            }
            Some(l) => {
                ctx.class("Tr leaf");
                want.inputs[*i].tap_script_sigs.insert((*x, *l), sig);
            }
        }
    }
    check!(q == want, "signing changed something else", "{}\nexpected {}", kv::hex(&q.serialize()), kv::hex(&want.serialize()));
    Ok(())
}

//! C11: signing a v2 PSBT yields exactly the valid signatures its keys can make.

use std::collections::{BTreeMap, HashMap};

use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource, Xpriv};
use bitcoin::secp256k1::{Secp256k1, Signing};
use bitcoin::sighash::{EcdsaSighashType, SighashCache};
use bitcoin::{ecdsa, PrivateKey, PublicKey, Transaction};
use psbt_v2::v2::{self, Psbt};
use psbt_v2::{v0, PsbtSighashType};

use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::keys::{masters, secp};
use crate::source::Src;
use crate::wallet::{self, kref, Coin, Kind, Spend, KINDS, NK};
use crate::{gen, kv};

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        dual: false,
        quick: 300_000,
        thorough: 1_500_000,
        rule: "spends of 1 to 4 coins of every output type (taproot beside them), each input with a random part of its derivations, foreign and wrong derivations, any sighash type, funding data in any form, and sometimes scripts or funding data missing; signed with extended keys, ordered and hashed maps and stores that fail or answer wrongly; oracle: script code, amount and sighash computed from the coins, signature verification, and a model of which keys are to be used; non-trivial when some input is to be signed",
        assumptions: &["sighash digests of the bitcoin crate (p2wsh and legacy) for a given script code, amount and type"],
        run,
    }
}

/// A key store of every kind, with the means to say what it supplies.
pub enum Store {
    Ordered(BTreeMap<PublicKey, PrivateKey>),
    Hashed(HashMap<PublicKey, PrivateKey>),
    Hd(usize),
    Custom { by_source: HashMap<KeySource, PrivateKey>, by_key: BTreeMap<PublicKey, PrivateKey>, err32: bool, err_pk: bool },
}

impl Store {
    pub fn by_source(&self, src: &KeySource) -> Option<PrivateKey> {
        match self {
            Store::Hd(m) => {
                let x = &masters()[*m];
                if own_fingerprint(x) != src.0 {
                    return None;
                }
                x.derive_priv(secp(), &src.1).ok().map(|x| PrivateKey::new(x.private_key, x.network))
            }
            Store::Custom { by_source, err32: false, .. } => by_source.get(src).copied(),
            _ => None,
        }
    }
    pub fn by_key(&self, pk: &PublicKey) -> Option<PrivateKey> {
        match self {
            Store::Ordered(m) => m.get(pk).copied(),
            Store::Hashed(m) => m.get(pk).copied(),
            Store::Custom { by_key, err_pk: false, .. } => by_key.get(pk).copied(),
            _ => None,
        }
    }
    pub fn supply(&self, pk: &bitcoin::secp256k1::PublicKey, src: &KeySource) -> Option<PrivateKey> {
        self.by_source(src).or_else(|| self.by_key(&PublicKey::new(*pk)))
    }
}

fn own_fingerprint(x: &Xpriv) -> Fingerprint {
    use bitcoin::hashes::{hash160, Hash};
    let h = hash160::Hash::hash(&x.private_key.public_key(secp()).serialize());
    Fingerprint::from(<[u8; 4]>::try_from(&h.as_byte_array()[..4]).unwrap())
}

macro_rules! get_key {
    ($m:ident, $err:ty) => {
        fn get_key<C: Signing>(&self, r: $m::KeyRequest, secp: &Secp256k1<C>) -> Result<Option<PrivateKey>, $err> {
            match self {
                Store::Ordered(x) => $m::GetKey::get_key(x, r, secp).map_err(|e| format!("{:?}", e)),
                Store::Hashed(x) => $m::GetKey::get_key(x, r, secp).map_err(|e| format!("{:?}", e)),
                Store::Hd(x) => $m::GetKey::get_key(&masters()[*x], r, secp).map_err(|e| format!("{:?}", e)),
                Store::Custom { by_source, by_key, err32, err_pk } => match r {
                    $m::KeyRequest::Bip32(s) if !err32 => Ok(by_source.get(&s).copied()),
                    $m::KeyRequest::Pubkey(k) if !err_pk => Ok(by_key.get(&k).copied()),
                    _ => Err("unavailable".to_string()),
                },
            }
        }
    };
}

impl v2::GetKey for Store {
    type Error = String;
    get_key!(v2, String);
}
use v0::bitcoin as v0b;
impl v0b::GetKey for Store {
    type Error = String;
    get_key!(v0b, String);
}

/// A store with a random part of the keys of `sp`.
pub fn store(s: &mut Src, sp: &Spend) -> Store {
    let mut ks: Vec<usize> = sp.coins.iter().flat_map(|c| c.keys.iter().copied()).collect();
    let most = s.bool();
    ks.retain(|_| if most { !s.chance(1, 6) } else { s.bool() });
    for _ in 0..s.us(3) {
        ks.push(s.us(NK));
    }
    let entry = |s: &mut Src, k: usize| {
        let c = !s.chance(1, 6);
        // The compressed form is what is asked for.
        let file = if s.chance(1, 8) { kref(k).uncomp() } else { kref(k).comp() };
        (file, kref(k).priv_for(c))
    };
    match s.u(4) {
        0 => Store::Ordered(ks.iter().map(|k| entry(s, *k)).collect()),
        1 => Store::Hashed(ks.iter().map(|k| entry(s, *k)).collect()),
        2 => Store::Hd(s.us(4)),
        _ => {
            let mut by_source = HashMap::new();
            let mut by_key = BTreeMap::new();
            for k in ks {
                let e = entry(s, k);
                // Sometimes another key than the one meant.
                let p = if s.chance(1, 8) { kref(s.us(NK)).priv_comp() } else { e.1 };
                if s.bool() {
                    by_source.insert(wallet::source(k), p);
                } else {
                    by_key.insert(e.0, p);
                }
                if s.chance(1, 8) {
                    by_key.insert(e.0, e.1);
                }
            }
            Store::Custom { by_source, by_key, err32: s.chance(1, 6), err_pk: s.chance(1, 6) }
        }
    }
}

pub const TYPES: [EcdsaSighashType; 6] = [
    EcdsaSighashType::All,
    EcdsaSighashType::None,
    EcdsaSighashType::Single,
    EcdsaSighashType::AllPlusAnyoneCanPay,
    EcdsaSighashType::NonePlusAnyoneCanPay,
    EcdsaSighashType::SinglePlusAnyoneCanPay,
];

pub fn number(t: EcdsaSighashType) -> u32 {
    match t {
        EcdsaSighashType::All => 0x01,
        EcdsaSighashType::None => 0x02,
        EcdsaSighashType::Single => 0x03,
        EcdsaSighashType::AllPlusAnyoneCanPay => 0x81,
        EcdsaSighashType::NonePlusAnyoneCanPay => 0x82,
        EcdsaSighashType::SinglePlusAnyoneCanPay => 0x83,
    }
}

/// What is to become of an input.
#[derive(Clone, Debug, PartialEq)]
pub enum Fate {
    Sign(EcdsaSighashType),
    Error,
    /// Not by ECDSA, or nothing known of the coin.
    Skip,
}

/// Varies derivations, sighash types and, if `break_it`, scripts and funding data.
pub fn vary(s: &mut Src, sp: &Spend, p: &mut Psbt, break_it: bool) -> Vec<Fate> {
    let mut fates = vec![];
    for (c, i) in sp.coins.iter().zip(&mut p.inputs) {
        // Derivations.
        if c.kind == Kind::Tr && s.chance(1, 4) {
            for k in &c.keys {
                i.bip32_derivations.insert(kref(*k).pk, wallet::source(*k));
            }
        }
        if s.chance(1, 4) {
            let keep = s.raw();
            let mut n = 0;
            i.bip32_derivations.retain(|_, _| {
                n += 1;
                keep >> n & 1 == 1
            });
        }
        for _ in 0..s.us(3) {
            let k = s.us(NK);
            let src = match s.u(4) {
                0 => crate::keys::key_source(s),
                1 => wallet::source(s.us(NK)),
                2 => {
                    let m = own_fingerprint(&masters()[s.us(4)]);
                    (m, DerivationPath::from(vec![ChildNumber::from(s.u32_edge())]))
                }
                _ => wallet::source(k),
            };
            i.bip32_derivations.insert(kref(k).pk, src);
        }
        // Sighash type.
        let mut fate = match s.u(3) {
            0 => {
                i.sighash_type = None;
                Fate::Sign(EcdsaSighashType::All)
            }
            _ => {
                let t = *s.pick(&TYPES);
                i.sighash_type = Some(PsbtSighashType::from_u32(number(t)));
                Fate::Sign(t)
            }
        };
        if break_it && s.chance(1, 4) {
            match s.u(5) {
                0 => {
                    let n = match s.u(4) {
                        0 => *s.pick(&[0u32, 4, 0x80, 0x84, 0x100, 0x101, 0x181, 0xff, 0xffff_ff01]),
                        _ => gen::sighash_u32(s),
                    };
                    i.sighash_type = Some(PsbtSighashType::from_u32(n));
                    fate = match TYPES.iter().find(|t| number(**t) == n) {
                        Some(t) => Fate::Sign(*t),
                        None => Fate::Error,
                    };
                }
                1 if c.redeem.is_some() => {
                    i.redeem_script = None;
                    fate = Fate::Error;
                }
                2 if c.witness_script.is_some() => {
                    i.witness_script = None;
                    fate = Fate::Error;
                }
                3 => {
                    i.witness_utxo = None;
                    i.non_witness_utxo = None;
                    fate = Fate::Skip;
                }
                4 => {
                    i.witness_utxo = None;
                    let mut t = c.prev.clone();
                    t.output.truncate(c.vout as usize);
                    i.non_witness_utxo = Some(t);
                    fate = Fate::Skip;
                }
                _ => {}
            }
        }
        if c.kind == Kind::Tr {
            fate = Fate::Skip;
        }
        fates.push(fate);
    }
    fates
}

/// The keys to be used for input `i`.
pub fn keys_for(p: &Psbt, i: usize, st: &Store) -> Vec<PrivateKey> {
    p.inputs[i].bip32_derivations.iter().filter_map(|(pk, src)| st.supply(pk, src)).collect()
}

/// Consensus validity of a signature for the coin.
pub fn judge_sig(c: &Coin, tx: &Transaction, i: usize, t: EcdsaSighashType, pk: &PublicKey, sig: &ecdsa::Signature) -> Res {
    check!(sig.sighash_type == t, "sighash type of the signature", "{:?} expected {:?}", sig.sighash_type, t);
    let msg = c.ecdsa_msg(tx, i, number(t));
    check!(
        wallet::verify_ecdsa(&msg, sig, pk),
        format!("invalid signature for {:?} with {:?}", c.kind, t),
        "input {} key {}",
        i,
        pk
    );
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let sp = wallet::spend(s, 4, &KINDS);
    let flags = s.u(8) as u8;
    let mut p = wallet::psbt2(s, &sp, flags);
    let break_it = s.bool();
    let fates = vary(s, &sp, &mut p, break_it);
    let st = store(s, &sp);
    let tx = sp.tx();
    // Signatures that are there already, of others or of another state of the PSBT.
    let mut stale = false;
    if s.chance(1, 3) {
        for (c, i) in sp.coins.iter().zip(&mut p.inputs) {
            for _ in 0..s.us(3) {
                let k = if c.keys.is_empty() || s.chance(1, 4) { s.us(NK) } else { *s.pick(&c.keys) };
                i.partial_sigs.insert(if s.chance(1, 8) { kref(k).uncomp() } else { kref(k).comp() }, gen::ecdsa_sig(s));
                stale = true;
            }
        }
    }
    let what = match &st {
        Store::Ordered(_) => "ordered map",
        Store::Hashed(_) => "hashed map",
        Store::Hd(_) => "extended key",
        Store::Custom { .. } => "custom store",
    };
    ctx.note(|| format!("{}; fates {:?}; {}; {}", sp.describe(), fates, what, kv::hex(&p.serialize())));

    // The message on request.
    {
        let mut cache = SighashCache::new(&tx);
        for (i, f) in fates.iter().enumerate() {
            let r = no_panic("sighash_ecdsa", || p.sighash_ecdsa(i, &mut cache))?;
            match f {
                Fate::Sign(t) => match r {
                    Ok((m, ty)) => {
                        check!(ty == *t, "type of the message", "{:?} expected {:?}", ty, t);
                        check!(m == sp.coins[i].ecdsa_msg(&tx, i, number(*t)), format!("message for {:?} with {:?}", sp.coins[i].kind, t), "input {}", i);
                    }
                    Err(e) => return fail(format!("no message for {:?}", sp.coins[i].kind), format!("input {}: {}", i, e)),
                },
                _ => check!(r.is_err(), "message from nothing", "input {} {:?}", i, f),
            }
        }
        let r = no_panic("sighash_ecdsa", || p.sighash_ecdsa(fates.len() + s.us(3), &mut cache))?;
        check!(r.is_err(), "message for no input", "");
    }

    // The model.
    let mut want: BTreeMap<usize, Vec<PublicKey>> = BTreeMap::new();
    let mut errors = vec![];
    for (i, f) in fates.iter().enumerate() {
        let ks = keys_for(&p, i, &st);
        if ks.is_empty() {
            continue;
        }
        match f {
            Fate::Sign(_) => {
                let mut v: Vec<PublicKey> = ks.iter().map(|k| k.public_key(secp())).collect();
                v.sort();
                v.dedup();
                want.insert(i, v);
                ctx.class(format!("{:?}", sp.coins[i].kind));
            }
            Fate::Error => errors.push(i),
            Fate::Skip => {}
        }
    }
    if !want.is_empty() {
        ctx.nontrivial(format!("{:?}{}", want, p).as_bytes());
    }
    ctx.class(what);
    if stale {
        ctx.class("signatures already there");
        if want.iter().any(|(i, w)| w.iter().any(|k| p.inputs[*i].partial_sigs.contains_key(k))) {
            ctx.class("a signature under a key that signs is already there");
        }
    }
    if !errors.is_empty() {
        ctx.class("with errors");
    }

    let signer = match v2::Signer::new(p.clone()) {
        Ok(x) => x,
        Err(e) => return fail("Signer refuses", e.to_string()),
    };
    let used = match no_panic("sign", || signer.sign(&st, secp()))? {
        Ok((q, used)) => {
            check!(errors.is_empty(), "error not reported", "inputs {:?}", errors);
            check!(q.inputs.len() == p.inputs.len(), "inputs lost", "");
            for (i, inp) in q.inputs.iter().enumerate() {
                let empty = vec![];
                let w = want.get(&i).unwrap_or(&empty);
                let mut have: Vec<PublicKey> = inp.partial_sigs.keys().copied().collect();
                have.sort();
                let old = &p.inputs[i].partial_sigs;
                if stale {
                    for (k, sig) in old.iter().filter(|x| !w.contains(x.0)) {
                        check!(inp.partial_sigs.get(k) == Some(sig), "signature of another lost or altered", "input {} key {}", i, k);
                    }
                    have.retain(|k| w.contains(k) || !old.contains_key(k));
                }
                for k in w {
                    check!(have.contains(k), format!("no signature for {:?}", sp.coins[i].kind), "input {} key {}", i, k);
                }
                check!(have.len() == w.len(), format!("unexpected signature for {:?}", sp.coins[i].kind), "input {}: {:?} expected {:?}", i, have, w);
                for (pk, sig) in &inp.partial_sigs {
                    if !w.contains(pk) {
                        continue;
                    }
                    if let Fate::Sign(t) = fates[i] {
                        judge_sig(&sp.coins[i], &tx, i, t, pk, sig)?;
                    }
                }
            }
            used
        }
        Err((used, errs)) => {
            // Whether the others are reported is left open.
            let e: Vec<usize> = errs.keys().copied().filter(|i| fates.get(*i) != Some(&Fate::Skip)).collect();
            check!(e == errors, "inputs reported as failing", "{:?} expected {:?}", errs, errors);
            used
        }
    };
    let mut got: BTreeMap<usize, Vec<PublicKey>> = used.into_iter().filter(|x| !x.1.is_empty()).collect();
    got.values_mut().for_each(|v| {
        v.sort();
        v.dedup();
    });
    check!(got == want, "keys reported as used", "{:?} expected {:?}", got, want);
    Ok(())
}

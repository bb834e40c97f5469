//! C13: key stores return the requested private key or none.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource, Xpriv};
use bitcoin::{PrivateKey, PublicKey};
use psbt_v2::{v0, v2};

use crate::engine::{no_panic, Ctx, Prop, Res};
use crate::keys::{masters, pool, secp, N};
use crate::source::Src;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        dual: false,
        quick: 300_000,
        thorough: 2_000_000,
        rule: "single extended keys (masters and derived), ordered and hashed sets of them, ordered and hashed maps of compressed and uncompressed keys, asked for fingerprints of members, non-members, parents and arbitrary ones with any path, and for public keys in and not in the map, of both format versions; oracle: stepwise derivation and lookup written independently; non-trivial when the store has the key",
        assumptions: &["no two keys of the pool have the same fingerprint"],
        run,
    }
}

enum Want {
    Unsupported,
    Key(Option<PrivateKey>),
}

fn judge<E: std::fmt::Debug + PartialEq>(what: &str, got: Result<Option<PrivateKey>, E>, unsupported: E, want: &Want) -> Res {
    match want {
        Want::Unsupported => check!(got == Err(unsupported), format!("{} unsupported request", what), "{:?}", got),
        Want::Key(k) => check!(got == Ok(*k), format!("{} key", what), "{:?}, expected {:?}", got, k),
    }
    Ok(())
}

fn ask<S>(what: &str, store: &S, bip32: &KeySource, pk: &PublicKey, want32: Want, want_pk: Want) -> Res
where
    S: v2::GetKey<Error = v2::GetKeyError> + v0::bitcoin::GetKey<Error = v0::bitcoin::GetKeyError>,
{
    let u2 = || v2::GetKeyError::NotSupported;
    let u0 = || v0::bitcoin::GetKeyError::NotSupported;
    let r = no_panic(what, || v2::GetKey::get_key(store, v2::KeyRequest::Bip32(bip32.clone()), secp()))?;
    judge(&format!("v2 {}", what), r, u2(), &want32)?;
    let r = no_panic(what, || v2::GetKey::get_key(store, v2::KeyRequest::Pubkey(*pk), secp()))?;
    judge(&format!("v2 {}", what), r, u2(), &want_pk)?;
    let r = no_panic(what, || v0::bitcoin::GetKey::get_key(store, v0::bitcoin::KeyRequest::Bip32(bip32.clone()), secp()))?;
    judge(&format!("v0 {}", what), r, u0(), &want32)?;
    let r = no_panic(what, || v0::bitcoin::GetKey::get_key(store, v0::bitcoin::KeyRequest::Pubkey(*pk), secp()))?;
    judge(&format!("v0 {}", what), r, u0(), &want_pk)?;
    Ok(())
}

fn child(s: &mut Src) -> ChildNumber {
    match s.u(4) {
        0 => ChildNumber::from_hardened_idx(s.u(3) as u32).unwrap(),
        1 => ChildNumber::from(s.u32_edge()),
        _ => ChildNumber::from_normal_idx(s.u(4) as u32).unwrap(),
    }
}

fn xpriv(s: &mut Src) -> Xpriv {
    let mut x = masters()[s.us(4)];
    for _ in 0..s.few(4) {
        x = x.ckd(child(s));
    }
    x
}

trait Ckd {
    fn ckd(&self, c: ChildNumber) -> Xpriv;
}
impl Ckd for Xpriv {
    fn ckd(&self, c: ChildNumber) -> Xpriv {
        // BIP-32, written out.
        use bitcoin::hashes::{hmac, sha512, Hash, HashEngine, HmacEngine};
        let mut e: HmacEngine<sha512::Hash> = HmacEngine::new(&self.chain_code[..]);
        if u32::from(c) >= 0x8000_0000 {
            e.input(&[0]);
            e.input(&self.private_key[..]);
        } else {
            e.input(&self.private_key.public_key(secp()).serialize());
        }
        e.input(&u32::from(c).to_be_bytes());
        let h: hmac::Hmac<sha512::Hash> = hmac::Hmac::from_engine(e);
        let h = h.to_byte_array();
        let tweak = bitcoin::secp256k1::SecretKey::from_slice(&h[..32]).unwrap();
        let mut cc = [0; 32];
        cc.copy_from_slice(&h[32..]);
        Xpriv {
            network: self.network,
            depth: self.depth + 1,
            parent_fingerprint: fingerprint(self),
            child_number: c,
            private_key: self.private_key.add_tweak(&tweak.into()).unwrap(),
            chain_code: cc.into(),
        }
    }
}

fn fingerprint(x: &Xpriv) -> Fingerprint {
    use bitcoin::hashes::{hash160, Hash};
    let h = hash160::Hash::hash(&x.private_key.public_key(secp()).serialize());
    Fingerprint::from(<[u8; 4]>::try_from(&h.as_byte_array()[..4]).unwrap())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.chance(1, 4) {
        // Maps.
        let n = s.us(8);
        let mut keys: Vec<(PublicKey, PrivateKey)> = vec![];
        for _ in 0..n {
            let k = &pool()[s.us(N)];
            let c = s.bool();
            let pk = if c { k.comp() } else { k.uncomp() };
            // What is filed under a key is returned, whatever it is.
            let sk = if s.chance(1, 6) { pool()[s.us(N)].priv_for(s.bool()) } else { k.priv_for(c) };
            keys.push((pk, sk));
        }
        let b: BTreeMap<_, _> = keys.iter().copied().collect();
        let h: HashMap<_, _> = keys.iter().copied().collect();
        let pk = if n > 0 && !s.chance(1, 3) {
            let k = keys[s.us(n)].0;
            if s.chance(1, 4) { PublicKey { compressed: !k.compressed, inner: k.inner } } else { k }
        } else {
            pool()[s.us(N)].comp()
        };
        let want = keys.iter().rev().find(|x| x.0 == pk).map(|x| x.1);
        ctx.class(if want.is_some() { "map with the key" } else { "map without the key" });
        ctx.note(|| format!("map of {:?} asked for {:?}", keys, pk));
        if want.is_some() {
            ctx.nontrivial(format!("{:?}{}", keys, pk).as_bytes());
        }
        let src = (Fingerprint::default(), DerivationPath::master());
        ask("ordered map", &b, &src, &pk, Want::Unsupported, Want::Key(want))?;
        ask("hashed map", &h, &src, &pk, Want::Unsupported, Want::Key(want))?;
        return Ok(());
    }
    let mut m = xpriv(s);
    if s.chance(1, 3) {
        m = m.ckd(child(s));
    }
    let path: DerivationPath = (0..s.us(5)).map(|_| child(s)).collect::<Vec<_>>().into();
    let fp = match s.u(6) {
        0 => m.parent_fingerprint,
        1 => Fingerprint::from(s.arr::<4>()),
        2 => fingerprint(&xpriv(s)),
        _ => fingerprint(&m),
    };
    let derive = || {
        let mut x = m;
        for c in path.into_iter() {
            x = x.ckd(*c);
        }
        PrivateKey { compressed: true, network: x.network, inner: x.private_key }
    };
    let want = if fingerprint(&m) == fp { Some(derive()) } else { None };
    ctx.class(if want.is_some() { "own fingerprint" } else { "other fingerprint" });
    ctx.note(|| format!("{} asked for {} {}", m, fp, path));
    if want.is_some() {
        ctx.nontrivial(format!("{}{}{}", m, fp, path).as_bytes());
    }
    let pk = match want {
        Some(k) if s.bool() => k.public_key(secp()),
        _ => m.to_priv().public_key(secp()),
    };
    let src = (fp, path.clone());
    ask("extended key", &m, &src, &pk, Want::Key(want), Want::Unsupported)?;
    // No extended key can be put in a set with this release of `bitcoin`; the empty ones hold none.
    ask("ordered set", &BTreeSet::<Xpriv>::new(), &src, &pk, Want::Key(None), Want::Unsupported)?;
    ask("hashed set", &HashSet::<Xpriv>::new(), &src, &pk, Want::Key(None), Want::Unsupported)?;
    Ok(())
}

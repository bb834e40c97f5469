//! A fixed pool of keys so that cases are cheap and reproducible.

use std::sync::OnceLock;

use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource, Xpriv, Xpub};
use bitcoin::hashes::{sha256, Hash};
use bitcoin::key::XOnlyPublicKey;
use bitcoin::secp256k1::{self, All, Keypair, Secp256k1, SecretKey};
use bitcoin::{Network, PrivateKey, PublicKey};

use crate::source::Src;

pub struct K {
    pub sk: SecretKey,
    pub pk: secp256k1::PublicKey,
    pub kp: Keypair,
    pub x: XOnlyPublicKey,
}

pub const N: usize = 64;

pub fn secp() -> &'static Secp256k1<All> {
    static S: OnceLock<Secp256k1<All>> = OnceLock::new();
    S.get_or_init(Secp256k1::new)
}

pub fn pool() -> &'static [K] {
    static P: OnceLock<Vec<K>> = OnceLock::new();
    P.get_or_init(|| {
        (0..N)
            .map(|i| {
                let h = sha256::Hash::hash(format!("pool key {}", i).as_bytes());
                let sk = SecretKey::from_slice(h.as_byte_array()).unwrap();
                let kp = Keypair::from_secret_key(secp(), &sk);
                K { sk, pk: kp.public_key(), kp, x: kp.x_only_public_key().0 }
            })
            .collect()
    })
}

impl K {
    pub fn comp(&self) -> PublicKey { PublicKey::new(self.pk) }
    pub fn uncomp(&self) -> PublicKey { PublicKey::new_uncompressed(self.pk) }
    pub fn priv_comp(&self) -> PrivateKey { PrivateKey::new(self.sk, Network::Bitcoin) }
    pub fn priv_for(&self, compressed: bool) -> PrivateKey {
        if compressed { PrivateKey::new(self.sk, Network::Bitcoin) } else { PrivateKey::new_uncompressed(self.sk, Network::Bitcoin) }
    }
}

/// Masters of the HD wallets.
pub fn masters() -> &'static [Xpriv] {
    static M: OnceLock<Vec<Xpriv>> = OnceLock::new();
    M.get_or_init(|| {
        (0..4)
            .map(|i| Xpriv::new_master(Network::Bitcoin, format!("hd seed {}", i).as_bytes()).unwrap())
            .collect()
    })
}

pub struct Hd {
    pub master: usize,
    pub source: KeySource,
    pub k: K,
    pub xpub: Xpub,
}

/// Derived keys of the masters, with their key sources.
pub fn hd_pool() -> &'static [Hd] {
    static P: OnceLock<Vec<Hd>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![];
        for (mi, m) in masters().iter().enumerate() {
            for path in ["m", "m/0", "m/1", "m/0'/1", "m/84'/0'/0'/0/7", "m/2147483647'/2147483647", "m/5/6/7", "m/86'/0'/3'"] {
                let path: DerivationPath = path.parse().unwrap();
                let x = m.derive_priv(secp(), &path).unwrap();
                let kp = Keypair::from_secret_key(secp(), &x.private_key);
                v.push(Hd {
                    master: mi,
                    source: (m.fingerprint(secp()), path),
                    k: K { sk: x.private_key, pk: kp.public_key(), kp, x: kp.x_only_public_key().0 },
                    xpub: Xpub::from_priv(secp(), &x),
                });
            }
        }
        v
    })
}

pub fn key(s: &mut Src) -> &'static K { &pool()[s.us(N)] }

pub fn path(s: &mut Src) -> DerivationPath {
    let n = match s.u(8) {
        0 => 0,
        1..=5 => s.us(4),
        6 => s.us(10),
        _ => s.us(20),
    };
    (0..n).map(|_| ChildNumber::from(s.u32_edge())).collect::<Vec<_>>().into()
}

pub fn key_source(s: &mut Src) -> KeySource { (Fingerprint::from(s.arr::<4>()), path(s)) }

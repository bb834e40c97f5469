//! Spendable coins of every output type, with the knowledge needed to sign them, decide whether
//! data suffices to spend them, and put them into PSBTs.

use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

use bitcoin::absolute::{self, LockTime};
use bitcoin::bip32::{DerivationPath, Fingerprint, KeySource};
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::key::XOnlyPublicKey;
use bitcoin::secp256k1::{self, Message};
use bitcoin::sighash::{EcdsaSighashType, Prevouts, SighashCache, TapSighashType};
use bitcoin::taproot::{LeafVersion, TapLeafHash, TaprootBuilder, TaprootSpendInfo};
use bitcoin::{
    ecdsa, taproot, transaction, Amount, OutPoint, PublicKey, Script, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Witness,
};
use miniscript::{BareCtx, Legacy, Miniscript, ScriptContext, Segwitv0, Tap};
use psbt_v2::v2;
use psbt_v2::PsbtSighashType;

use crate::gen;
use crate::keys::{hd_pool, pool, secp, K, N};
use crate::kv::hex;
use crate::source::Src;

pub const NK: usize = N + 32;

pub fn kref(id: usize) -> &'static K { if id < N { &pool()[id] } else { &hd_pool()[id - N].k } }

pub fn source(id: usize) -> KeySource {
    if id < N {
        (Fingerprint::from([id as u8; 4]), DerivationPath::from_str(&format!("m/{}'/{}", id, id * 7)).unwrap())
    } else {
        hd_pool()[id - N].source.clone()
    }
}

pub fn preimage(i: usize) -> [u8; 32] { sha256::Hash::hash(format!("preimage {}", i).as_bytes()).to_byte_array() }
pub const NP: usize = 6;

// ------------------------------------------------------------------ policies

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cx {
    Bare,
    Legacy,
    Segwit,
    Tap,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    Pk(usize),
    Pkh(usize),
    Older(u32),
    After(u32),
    /// 0 sha256, 1 hash256, 2 ripemd160, 3 hash160
    Hash(u8, usize),
    Multi(usize, Vec<usize>),
    AndV(Box<Node>, Box<Node>),
    AndB(Box<Node>, Box<Node>),
    OrB(Box<Node>, Box<Node>),
    OrC(Box<Node>, Box<Node>),
    OrD(Box<Node>, Box<Node>),
    OrI(Box<Node>, Box<Node>),
    AndOr(Box<Node>, Box<Node>, Box<Node>),
    Thresh(usize, Vec<Node>),
}

pub struct Env {
    pub version: i32,
    /// Aimed at lock time.
    pub lock: u32,
}

/// What can be had and not had: satisfactions and dissatisfactions that are surely found, and
/// those that exist at all.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Can {
    pub sat: bool,
    pub dis: bool,
    pub sat_any: bool,
    pub dis_any: bool,
}

pub struct Have<'a> {
    pub sig: &'a dyn Fn(usize) -> bool,
    pub pre: &'a dyn Fn(u8, usize) -> bool,
    pub version: i32,
    pub lock: u32,
    pub seq: u32,
}

impl Have<'_> {
    fn after(&self, n: u32) -> bool {
        self.seq != 0xffff_ffff && (n < 500_000_000) == (self.lock < 500_000_000) && n <= self.lock
    }
    fn older(&self, n: u32) -> bool {
        self.version as u32 >= 2
            && self.seq >> 31 == 0
            && (n & 0x40_0000) == (self.seq & 0x40_0000)
            && (n & 0xffff) <= (self.seq & 0xffff)
    }
}

impl Node {
    pub fn can(&self, h: &Have) -> Can {
        use Node::*;
        let c = |sat, dis| Can { sat, dis, sat_any: sat, dis_any: dis };
        match self {
            Pk(k) | Pkh(k) => c((h.sig)(*k), true),
            Older(n) => c(h.older(*n), false),
            After(n) => c(h.after(*n), false),
            Hash(t, i) => c((h.pre)(*t, *i), true),
            Multi(k, ks) => c(ks.iter().filter(|i| (h.sig)(**i)).count() >= *k, true),
            AndV(a, b) => {
                let (a, b) = (a.can(h), b.can(h));
                Can { sat: a.sat && b.sat, dis: false, sat_any: a.sat_any && b.sat_any, dis_any: a.sat_any && b.dis_any }
            }
            AndB(a, b) => {
                let (a, b) = (a.can(h), b.can(h));
                Can {
                    sat: a.sat && b.sat,
                    dis: a.dis && b.dis,
                    sat_any: a.sat_any && b.sat_any,
                    dis_any: a.dis_any && b.dis_any || a.sat_any && b.dis_any || a.dis_any && b.sat_any,
                }
            }
            OrB(a, b) => {
                let (a, b) = (a.can(h), b.can(h));
                Can {
                    sat: a.sat && b.dis || a.dis && b.sat,
                    dis: a.dis && b.dis,
                    sat_any: a.sat_any && (b.dis_any || b.sat_any) || a.dis_any && b.sat_any,
                    dis_any: a.dis_any && b.dis_any,
                }
            }
            OrC(a, b) => {
                let (a, b) = (a.can(h), b.can(h));
                Can { sat: a.sat || a.dis && b.sat, dis: false, sat_any: a.sat_any || a.dis_any && b.sat_any, dis_any: false }
            }
            OrD(a, b) => {
                let (a, b) = (a.can(h), b.can(h));
                Can {
                    sat: a.sat || a.dis && b.sat,
                    dis: a.dis && b.dis,
                    sat_any: a.sat_any || a.dis_any && b.sat_any,
                    dis_any: a.dis_any && b.dis_any,
                }
            }
            OrI(a, b) => {
                let (a, b) = (a.can(h), b.can(h));
                Can { sat: a.sat || b.sat, dis: a.dis || b.dis, sat_any: a.sat_any || b.sat_any, dis_any: a.dis_any || b.dis_any }
            }
            AndOr(a, b, d) => {
                let (a, b, d) = (a.can(h), b.can(h), d.can(h));
                Can {
                    sat: a.sat && b.sat || a.dis && d.sat,
                    dis: a.dis && d.dis,
                    sat_any: a.sat_any && b.sat_any || a.dis_any && d.sat_any,
                    dis_any: a.dis_any && d.dis_any || a.sat_any && b.dis_any,
                }
            }
            Thresh(k, xs) => {
                // Time locks in a thresh are wrapped so that they can be dissatisfied.
                let cs: Vec<Can> = xs
                    .iter()
                    .map(|x| {
                        let mut y = x.can(h);
                        if matches!(x, Older(_) | After(_)) {
                            y.dis = true;
                            y.dis_any = true;
                        }
                        y
                    })
                    .collect();
                let must = cs.iter().filter(|x| !x.dis).count();
                let may = cs.iter().filter(|x| x.sat).count();
                let none = cs.iter().any(|x| !x.dis && !x.sat);
                let mut counts: BTreeSet<usize> = BTreeSet::from([0]);
                for x in &cs {
                    let mut n = BTreeSet::new();
                    for v in &counts {
                        if x.sat_any {
                            n.insert(v + 1);
                        }
                        if x.dis_any {
                            n.insert(*v);
                        }
                    }
                    counts = n;
                }
                Can {
                    sat: !none && must <= *k && may >= *k,
                    dis: cs.iter().all(|x| x.dis),
                    sat_any: counts.contains(k),
                    dis_any: counts.iter().any(|v| v != k),
                }
            }
        }
    }

    pub fn has_pkh(&self) -> bool { self.text(true, &|_| String::new()).contains("pkh(") }

    pub fn keys(&self, out: &mut Vec<usize>) {
        use Node::*;
        match self {
            Pk(k) | Pkh(k) => out.push(*k),
            Multi(_, ks) => out.extend(ks),
            Older(_) | After(_) | Hash(..) => {}
            AndV(a, b) | AndB(a, b) | OrB(a, b) | OrC(a, b) | OrD(a, b) | OrI(a, b) => {
                a.keys(out);
                b.keys(out);
            }
            AndOr(a, b, c) => {
                a.keys(out);
                b.keys(out);
                c.keys(out);
            }
            Thresh(_, xs) => xs.iter().for_each(|x| x.keys(out)),
        }
    }

    pub fn hashes(&self, out: &mut Vec<(u8, usize)>) {
        use Node::*;
        match self {
            Hash(t, i) => out.push((*t, *i)),
            AndV(a, b) | AndB(a, b) | OrB(a, b) | OrC(a, b) | OrD(a, b) | OrI(a, b) => {
                a.hashes(out);
                b.hashes(out);
            }
            AndOr(a, b, c) => {
                a.hashes(out);
                b.hashes(out);
                c.hashes(out);
            }
            Thresh(_, xs) => xs.iter().for_each(|x| x.hashes(out)),
            _ => {}
        }
    }

    /// As a type B expression.
    pub fn text(&self, tap: bool, key: &dyn Fn(usize) -> String) -> String {
        use Node::*;
        let t = |n: &Node| n.text(tap, key);
        let w = |n: &Node| match n {
            Pk(_) => format!("s:{}", t(n)),
            Older(_) | After(_) => format!("sln:{}", t(n)),
            _ => format!("a:{}", t(n)),
        };
        match self {
            Pk(k) => format!("pk({})", key(*k)),
            Pkh(k) => format!("pkh({})", key(*k)),
            Older(n) => format!("older({})", n),
            After(n) => format!("after({})", n),
            Hash(0, i) => format!("sha256({})", hex(sha256::Hash::hash(&preimage(*i)).as_byte_array())),
            Hash(1, i) => format!("hash256({})", hex(sha256d::Hash::hash(&preimage(*i)).as_byte_array())),
            Hash(2, i) => format!("ripemd160({})", hex(ripemd160::Hash::hash(&preimage(*i)).as_byte_array())),
            Hash(_, i) => format!("hash160({})", hex(hash160::Hash::hash(&preimage(*i)).as_byte_array())),
            Multi(k, ks) => {
                let l: Vec<String> = ks.iter().map(|x| key(*x)).collect();
                format!("{}({},{})", if tap { "multi_a" } else { "multi" }, k, l.join(","))
            }
            AndV(a, b) => format!("and_v(v:{},{})", t(a), t(b)),
            AndB(a, b) => format!("and_b({},{})", t(a), w(b)),
            OrB(a, b) => format!("or_b({},{})", t(a), w(b)),
            OrC(a, b) => format!("t:or_c({},v:{})", t(a), t(b)),
            OrD(a, b) => format!("or_d({},{})", t(a), t(b)),
            OrI(a, b) => format!("or_i({},{})", t(a), t(b)),
            AndOr(a, b, c) => format!("andor({},{},{})", t(a), t(b), t(c)),
            Thresh(k, xs) => {
                let mut l = vec![];
                for (i, x) in xs.iter().enumerate() {
                    l.push(match (i, x) {
                        (0, Older(_) | After(_)) => format!("ln:{}", t(x)),
                        (0, _) => t(x),
                        _ => w(x),
                    });
                }
                format!("thresh({},{})", k, l.join(","))
            }
        }
    }
}

pub fn gen_older(s: &mut Src, seq: u32) -> u32 {
    let base = match s.u(5) {
        0 | 1 if seq >> 31 == 0 => seq & 0x0040_ffff,
        2 => 0x0040_0000 | s.range(1, 0xffff) as u32,
        _ => s.range(1, 0xffff) as u32,
    };
    let n = match s.u(4) {
        0 | 1 => base,
        2 => base.wrapping_add(1),
        _ => base.wrapping_sub(1),
    } & 0x0040_ffff;
    if n & 0xffff == 0 {
        n | 1
    } else {
        n
    }
}

pub fn gen_after(s: &mut Src, lock: u32) -> u32 {
    let n = match s.u(6) {
        0..=2 => lock,
        3 => lock.wrapping_add(1),
        4 => lock.wrapping_sub(1),
        _ => {
            if s.bool() {
                s.range(1, 499_999_999) as u32
            } else {
                s.range(500_000_000, 0x7fff_ffff) as u32
            }
        }
    };
    n.clamp(1, 0x7fff_ffff)
}

/// A random type B expression; not all of them type check.
pub fn gen_node(s: &mut Src, depth: u32, cx: Cx, env: &Env, seq: u32) -> Node {
    let b = |s: &mut Src| Box::new(gen_node(s, depth - 1, cx, env, seq));
    let d = |s: &mut Src| Box::new(gen_dis(s, depth - 1, cx, env, seq));
    if depth == 0 {
        return match s.u(10) {
            0..=3 => Node::Pk(key(s)),
            4 => Node::Pkh(key(s)),
            5 => Node::Older(gen_older(s, seq)),
            6 => Node::After(gen_after(s, env.lock)),
            7 | 8 => Node::Hash(s.u(4) as u8, s.us(NP)),
            _ => multi(s, cx),
        };
    }
    match s.u(10) {
        0 => gen_node(s, 0, cx, env, seq),
        1 | 2 => Node::AndV(b(s), b(s)),
        3 => Node::OrI(b(s), b(s)),
        4 => Node::OrD(d(s), b(s)),
        5 => Node::AndOr(d(s), b(s), b(s)),
        6 => Node::OrB(d(s), d(s)),
        7 => Node::AndB(d(s), d(s)),
        8 => Node::OrC(d(s), b(s)),
        _ => {
            let n = 2 + s.few(3);
            let xs: Vec<Node> = (0..n)
                .map(|_| match s.u(5) {
                    0 => Node::Older(gen_older(s, seq)),
                    1 => Node::After(gen_after(s, env.lock)),
                    _ => gen_dis(s, depth - 1, cx, env, seq),
                })
                .collect();
            Node::Thresh(1 + s.us(n), xs)
        }
    }
}

/// An expression that can be dissatisfied with unit result.
fn gen_dis(s: &mut Src, depth: u32, cx: Cx, env: &Env, seq: u32) -> Node {
    match s.u(if depth == 0 { 6 } else { 9 }) {
        0..=2 => Node::Pk(key(s)),
        3 => Node::Pkh(key(s)),
        4 => Node::Hash(s.u(4) as u8, s.us(NP)),
        5 => multi(s, cx),
        6 => Node::OrB(Box::new(gen_dis(s, depth - 1, cx, env, seq)), Box::new(gen_dis(s, depth - 1, cx, env, seq))),
        7 => Node::AndB(Box::new(gen_dis(s, depth - 1, cx, env, seq)), Box::new(gen_dis(s, depth - 1, cx, env, seq))),
        _ => {
            let n = 2 + s.few(2);
            let xs: Vec<Node> = (0..n).map(|_| gen_dis(s, depth - 1, cx, env, seq)).collect();
            Node::Thresh(1 + s.us(n), xs)
        }
    }
}

pub fn key(s: &mut Src) -> usize { s.us(NK) }

fn multi(s: &mut Src, cx: Cx) -> Node {
    let max = if cx == Cx::Bare { 3 } else { 4 };
    let n = if cx == Cx::Bare { 1 + s.us(max) } else { (1 + s.few(max)).min(NK) };
    let mut ks: Vec<usize> = vec![];
    while ks.len() < n {
        let mut k = key(s);
        while ks.contains(&k) {
            k = (k + 1) % NK;
        }
        ks.push(k);
    }
    Node::Multi(1 + s.us(n), ks)
}

pub fn compile<C: ScriptContext>(n: &Node) -> Option<ScriptBuf> {
    let t = n.text(false, &|k| kref(k).comp().to_string());
    let ms = Miniscript::<PublicKey, C>::from_str_insane(&t).ok()?;
    if ms.ty.corr.base != miniscript::miniscript::types::Base::B {
        return None;
    }
    Some(ms.encode())
}

pub fn compile_tap(n: &Node) -> Option<ScriptBuf> {
    let t = n.text(true, &|k| kref(k).x.to_string());
    let ms = Miniscript::<XOnlyPublicKey, Tap>::from_str_insane(&t).ok()?;
    if ms.ty.corr.base != miniscript::miniscript::types::Base::B {
        return None;
    }
    Some(ms.encode())
}

/// A policy that compiles in the context, with its script.
pub fn policy(s: &mut Src, cx: Cx, env: &Env, seq: u32) -> (Node, ScriptBuf) {
    let depth = match s.u(4) {
        0 => 0,
        1 | 2 => 1,
        _ => 2,
    };
    let n = gen_node(s, depth, cx, env, seq);
    let f = |n: &Node| match cx {
        Cx::Bare => compile::<BareCtx>(n),
        Cx::Legacy => compile::<Legacy>(n),
        Cx::Segwit => compile::<Segwitv0>(n),
        Cx::Tap => compile_tap(n),
    };
    if let Some(sc) = f(&n) {
        if cx != Cx::Legacy || sc.len() <= 520 {
            return (n, sc);
        }
    }
    let n = multi(s, cx);
    let sc = f(&n).expect("multi compiles");
    (n, sc)
}

// ------------------------------------------------------------------ coins

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    Wpkh,
    Pkh,
    ShWpkh,
    Wsh,
    Tr,
    Sh,
    ShWsh,
    Pk,
    Bare,
}

pub const KINDS: [Kind; 9] =
    [Kind::Wpkh, Kind::Pkh, Kind::ShWpkh, Kind::Wsh, Kind::Tr, Kind::Sh, Kind::ShWsh, Kind::Pk, Kind::Bare];

#[derive(Clone, Debug)]
pub struct TapCoin {
    pub internal: usize,
    pub info: TaprootSpendInfo,
    pub leaves: Vec<(Node, ScriptBuf, TapLeafHash)>,
    /// The tree in depth first order: depth and policy of every leaf.
    pub tree: Vec<(u8, Node)>,
    /// Leaves of the tree beside these which are no miniscript, or of another leaf version.
    pub foreign: Vec<(ScriptBuf, LeafVersion)>,
}

#[derive(Clone, Debug)]
pub struct Coin {
    pub kind: Kind,
    pub spk: ScriptBuf,
    pub redeem: Option<ScriptBuf>,
    pub witness_script: Option<ScriptBuf>,
    pub node: Option<Node>,
    pub tap: Option<TapCoin>,
    /// All keys, sorted, without repeats.
    pub keys: Vec<usize>,
    pub uncompressed: bool,
    pub prev: Transaction,
    pub vout: u32,
    pub seq: Option<u32>,
}

impl Coin {
    pub fn segwit(&self) -> bool { !matches!(self.kind, Kind::Pk | Kind::Pkh | Kind::Bare | Kind::Sh) }
    pub fn txout(&self) -> &TxOut { &self.prev.output[self.vout as usize] }
    pub fn outpoint(&self) -> OutPoint { OutPoint { txid: self.prev.compute_txid(), vout: self.vout } }
    pub fn sequence(&self) -> Sequence { Sequence(self.seq.unwrap_or(0xffff_ffff)) }
    pub fn single_key(&self) -> bool { matches!(self.kind, Kind::Pk | Kind::Pkh | Kind::Wpkh | Kind::ShWpkh) }
    pub fn pubkey(&self, k: usize) -> PublicKey { if self.uncompressed { kref(k).uncomp() } else { kref(k).comp() } }

    /// The descriptor, with its keys written by `key`.
    pub fn descriptor(&self, key: &dyn Fn(usize) -> String) -> String {
        let k = || key(self.tap.as_ref().map_or(self.keys[0], |t| t.internal));
        let n = || self.node.as_ref().unwrap().text(false, key);
        match self.kind {
            Kind::Wpkh => format!("wpkh({})", k()),
            Kind::Pkh => format!("pkh({})", k()),
            Kind::ShWpkh => format!("sh(wpkh({}))", k()),
            Kind::Pk => format!("pk({})", k()),
            Kind::Wsh => format!("wsh({})", n()),
            Kind::Sh => format!("sh({})", n()),
            Kind::ShWsh => format!("sh(wsh({}))", n()),
            Kind::Bare => n(),
            Kind::Tr => {
                let tree = &self.tap.as_ref().unwrap().tree;
                if tree.is_empty() {
                    return format!("tr({})", k());
                }
                fn sub(tree: &[(u8, Node)], at: &mut usize, depth: u8, key: &dyn Fn(usize) -> String) -> String {
                    if tree[*at].0 == depth {
                        *at += 1;
                        return tree[*at - 1].1.text(true, key);
                    }
                    let l = sub(tree, at, depth + 1, key);
                    let r = sub(tree, at, depth + 1, key);
                    format!("{{{},{}}}", l, r)
                }
                format!("tr({},{})", k(), sub(tree, &mut 0, 0, key))
            }
        }
    }

    pub fn hashes(&self) -> Vec<(u8, usize)> {
        let mut v = vec![];
        if let Some(n) = &self.node {
            n.hashes(&mut v);
        }
        if let Some(t) = &self.tap {
            t.leaves.iter().for_each(|l| l.0.hashes(&mut v));
        }
        v.sort();
        v.dedup();
        v
    }

    /// The script that ECDSA signatures of this coin commit to.
    pub fn script_code(&self) -> ScriptBuf {
        match self.kind {
            Kind::Wpkh | Kind::ShWpkh => ScriptBuf::new_p2pkh(&kref(self.keys[0]).comp().pubkey_hash()),
            Kind::Sh => self.redeem.clone().unwrap(),
            Kind::Wsh | Kind::ShWsh => self.witness_script.clone().unwrap(),
            _ => self.spk.clone(),
        }
    }

    /// The message consensus prescribes for an ECDSA signature.
    pub fn ecdsa_msg(&self, tx: &Transaction, idx: usize, ty: u32) -> Message {
        let mut c = SighashCache::new(tx);
        let code = self.script_code();
        if self.segwit() {
            let ty = EcdsaSighashType::from_standard(ty).unwrap();
            Message::from(c.p2wsh_signature_hash(idx, &code, self.txout().value, ty).unwrap())
        } else {
            Message::from(c.legacy_signature_hash(idx, &code, ty).unwrap())
        }
    }

    pub fn ecdsa_sig(&self, tx: &Transaction, idx: usize, ty: EcdsaSighashType, k: usize) -> ecdsa::Signature {
        let msg = self.ecdsa_msg(tx, idx, ty as u32);
        ecdsa::Signature { signature: secp().sign_ecdsa(&msg, &kref(k).sk), sighash_type: ty }
    }

    /// Key path (None) or leaf message; None if there is none (single without output).
    pub fn tap_msg(&self, tx: &Transaction, idx: usize, ty: TapSighashType, leaf: Option<TapLeafHash>, prevouts: &[TxOut]) -> Option<Message> {
        let mut c = SighashCache::new(tx);
        let p = Prevouts::All(prevouts);
        match leaf {
            None => c.taproot_key_spend_signature_hash(idx, &p, ty).ok().map(Message::from),
            Some(l) => c.taproot_script_spend_signature_hash(idx, &p, l, ty).ok().map(Message::from),
        }
    }

    pub fn tap_sig(&self, tx: &Transaction, idx: usize, ty: TapSighashType, k: usize, leaf: Option<TapLeafHash>, prevouts: &[TxOut]) -> Option<taproot::Signature> {
        let msg = self.tap_msg(tx, idx, ty, leaf, prevouts)?;
        let kp = match leaf {
            None => {
                let info = &self.tap.as_ref().unwrap().info;
                use bitcoin::key::TapTweak;
                kref(k).kp.tap_tweak(secp(), info.merkle_root()).to_keypair()
            }
            Some(_) => kref(k).kp,
        };
        Some(taproot::Signature { signature: secp().sign_schnorr_no_aux_rand(&msg, &kp), sighash_type: ty })
    }
}

pub fn seq(s: &mut Src) -> Option<u32> {
    match s.u(10) {
        0 | 1 => None,
        2 => Some(0xffff_ffff),
        3 => Some(0xffff_fffe),
        4 => Some(0xffff_fffd),
        5 => Some(0),
        6 | 7 => Some(s.range(0, 0xffff) as u32),
        8 => Some(0x0040_0000 | s.range(0, 0xffff) as u32),
        _ => Some(s.u32_edge()),
    }
}

pub fn env(s: &mut Src) -> Env {
    let version = match s.u(8) {
        0 => 1,
        1 => 3,
        2 => s.u(3) as i32,
        _ => 2,
    };
    let lock = match s.u(6) {
        0 | 1 => 0,
        2 => s.range(1, 800_000) as u32,
        3 => *s.pick(&[1, 499_999_998, 499_999_999]),
        4 => s.range(500_000_000, 2_000_000_000) as u32,
        _ => *s.pick(&[500_000_000, 500_000_001, 0x7fff_ffff, 0xffff_ffff]),
    };
    Env { version, lock }
}

/// The transaction a coin was created by.
fn funding(s: &mut Src, out: TxOut, segwit_style: bool) -> (Transaction, u32) {
    let n = s.few(3);
    let at = s.us(n + 1);
    let mut outs: Vec<TxOut> =
        (0..n).map(|_| TxOut { value: Amount::from_sat(s.u(1_000_000)), script_pubkey: ScriptBuf::new_p2wpkh(&kref(key(s)).comp().wpubkey_hash().unwrap()) }).collect();
    outs.insert(at, out);
    let tx = Transaction {
        version: transaction::Version(2),
        lock_time: LockTime::ZERO,
        input: vec![TxIn {
            previous_output: gen::outpoint(s),
            script_sig: ScriptBuf::from(s.bytes(5)),
            sequence: Sequence::MAX,
            witness: if segwit_style { Witness::from_slice(&[s.bytes(6)]) } else { Witness::new() },
        }],
        output: outs,
    };
    (tx, at as u32)
}

pub fn coin(s: &mut Src, env: &Env, kinds: &[Kind]) -> Coin {
    let kind = *s.pick(kinds);
    let sq = seq(s);
    let seqn = sq.unwrap_or(0xffff_ffff);
    let amount = Amount::from_sat(match s.u(4) {
        0 => s.u(1000),
        1 => 2_100_000_000_000_000 / 8 - s.u(100),
        _ => 10_000 + s.u(100_000_000),
    });
    let mut c = Coin {
        kind, spk: ScriptBuf::new(), redeem: None, witness_script: None, node: None, tap: None, keys: vec![], uncompressed: false,
        prev: Transaction { version: transaction::Version(2), lock_time: LockTime::ZERO, input: vec![], output: vec![] }, vout: 0, seq: sq,
    };
    match kind {
        Kind::Wpkh | Kind::Pkh | Kind::ShWpkh | Kind::Pk => {
            let k = key(s);
            c.keys = vec![k];
            match kind {
                Kind::Wpkh => c.spk = ScriptBuf::new_p2wpkh(&kref(k).comp().wpubkey_hash().unwrap()),
                Kind::Pkh => {
                    c.uncompressed = s.chance(1, 8);
                    c.spk = ScriptBuf::new_p2pkh(&c.pubkey(k).pubkey_hash());
                }
                Kind::Pk => {
                    c.uncompressed = s.chance(1, 8);
                    c.spk = ScriptBuf::new_p2pk(&c.pubkey(k));
                }
                _ => {
                    let r = ScriptBuf::new_p2wpkh(&kref(k).comp().wpubkey_hash().unwrap());
                    c.spk = r.to_p2sh();
                    c.redeem = Some(r);
                }
            }
        }
        Kind::Bare => {
            let (n, sc) = policy(s, Cx::Bare, env, seqn);
            c.spk = sc;
            n.keys(&mut c.keys);
            c.node = Some(n);
        }
        Kind::Sh => {
            let (n, sc) = policy(s, Cx::Legacy, env, seqn);
            c.spk = sc.to_p2sh();
            c.redeem = Some(sc);
            n.keys(&mut c.keys);
            c.node = Some(n);
        }
        Kind::Wsh | Kind::ShWsh => {
            let (n, sc) = policy(s, Cx::Segwit, env, seqn);
            let p = sc.to_p2wsh();
            if kind == Kind::Wsh {
                c.spk = p;
            } else {
                c.spk = p.to_p2sh();
                c.redeem = Some(p);
            }
            c.witness_script = Some(sc);
            n.keys(&mut c.keys);
            c.node = Some(n);
        }
        Kind::Tr => {
            let internal = key(s);
            let mut leaves: Vec<(Node, ScriptBuf, TapLeafHash)> = vec![];
            let depths = if s.chance(1, 3) { vec![] } else { gen::tree_depths(s, 4) };
            let mut b = TaprootBuilder::new();
            let mut tree = vec![];
            let mut foreign: Vec<(ScriptBuf, LeafVersion)> = vec![];
            let mixed = depths.len() > 1 && s.chance(1, 4);
            for d in &depths {
                if mixed && s.chance(1, 3) {
                    let sc = match s.u(6) {
                        0 => vec![],
                        1 => vec![0x8b],
                        2 => vec![0x8b, 0xac],
                        3 => vec![0x6a],
                        4 => vec![0x51, 0x4c],
                        _ => policy(s, Cx::Tap, env, seqn).1.into_bytes(),
                    };
                    let sc = ScriptBuf::from_bytes(sc);
                    let parses = miniscript::Miniscript::<bitcoin::XOnlyPublicKey, miniscript::Tap>::parse_with_ext(&sc, &miniscript::miniscript::analyzable::ExtParams::allow_all()).is_ok();
                    let v = if s.bool() || parses { LeafVersion::from_consensus(*s.pick(&[0xc2, 0xc4, 0xfe, 0x66])).unwrap() } else { LeafVersion::TapScript };
                    b = b.add_leaf_with_ver(*d, sc.clone(), v).unwrap();
                    if !foreign.contains(&(sc.clone(), v)) {
                        foreign.push((sc, v));
                    }
                    continue;
                }
                let (n, sc) = policy(s, Cx::Tap, env, seqn);
                tree.push((*d, n.clone()));
                b = b.add_leaf(*d, sc.clone()).unwrap();
                let lh = TapLeafHash::from_script(&sc, LeafVersion::TapScript);
                if !leaves.iter().any(|l| l.2 == lh) {
                    leaves.push((n, sc, lh));
                }
            }
            let info = b.finalize(secp(), kref(internal).x).expect("complete");
            c.spk = ScriptBuf::new_p2tr_tweaked(info.output_key());
            c.keys = vec![internal];
            leaves.iter().for_each(|l| l.0.keys(&mut c.keys));
            c.tap = Some(TapCoin { internal, info, leaves, tree, foreign });
        }
    }
    c.keys.sort();
    c.keys.dedup();
    let segwit_style = s.bool();
    let (prev, vout) = funding(s, TxOut { value: amount, script_pubkey: c.spk.clone() }, segwit_style);
    c.prev = prev;
    c.vout = vout;
    c
}

// ------------------------------------------------------------------ spends

pub struct Spend {
    pub env: Env,
    pub coins: Vec<Coin>,
    pub outs: Vec<TxOut>,
    /// Per input: required time, required height.
    pub locks: Vec<(Option<u32>, Option<u32>)>,
    pub fallback: Option<u32>,
}

impl Spend {
    pub fn prevouts(&self) -> Vec<TxOut> { self.coins.iter().map(|c| c.txout().clone()).collect() }

    pub fn lock_time(&self) -> Option<u32> { bip370_lock(self.fallback, &self.locks) }

    /// The unsigned transaction.
    pub fn tx(&self) -> Transaction {
        Transaction {
            version: transaction::Version(self.env.version),
            lock_time: LockTime::from_consensus(self.lock_time().expect("lock time")),
            input: self
                .coins
                .iter()
                .map(|c| TxIn { previous_output: c.outpoint(), script_sig: ScriptBuf::new(), sequence: c.sequence(), witness: Witness::new() })
                .collect(),
            output: self.outs.clone(),
        }
    }

    pub fn describe(&self) -> String {
        let mut v = vec![];
        for c in &self.coins {
            let t = |k: usize| format!("K{}", k);
            let p = match (&c.node, &c.tap) {
                (Some(n), _) => n.text(false, &t),
                (_, Some(tc)) => {
                    let l: Vec<String> = tc.leaves.iter().map(|l| l.0.text(true, &t)).collect();
                    format!("K{}; {}", tc.internal, l.join(" | "))
                }
                _ => format!("K{}", c.keys[0]),
            };
            v.push(format!("{:?}({}) sequence {:x?}", c.kind, p, c.seq));
        }
        format!(
            "version {}, lock {:?} (fallback {:?}, required {:?}), {} outputs, inputs: {}",
            self.env.version, self.lock_time(), self.fallback, self.locks, self.outs.len(), v.join(", ")
        )
    }

    /// Whether input `i` can be spent with these signatures and preimages.
    pub fn can(&self, i: usize, d: &Data) -> Can {
        let c = &self.coins[i];
        let sig = |k: usize| d.sigs.contains_key(&k);
        let pre = |t: u8, p: usize| d.pre.contains(&(t, p));
        let no = Can { sat: false, dis: false, sat_any: false, dis_any: false };
        let (version, lock, seq) = (self.env.version, self.lock_time().unwrap(), c.sequence().0);
        match (&c.tap, &c.node) {
            (Some(t), _) => {
                let mut r = no;
                if d.key_sig.is_some() {
                    r.sat = true;
                    r.sat_any = true;
                }
                for l in t.leaves.iter().filter(|l| d.leaves.contains(&l.2)) {
                    let sig = |k: usize| d.leaf_sigs.contains_key(&(k, l.2));
                    let x = l.0.can(&Have { sig: &sig, pre: &pre, version, lock, seq });
                    // Miniscript cannot complete public key hashes in leaves.
                    r.sat |= x.sat && !l.0.has_pkh();
                    r.sat_any |= x.sat_any;
                }
                // What other scripts take is not decided here.
                r.sat_any |= !t.foreign.is_empty();
                r
            }
            (None, Some(n)) => {
                let mut x = n.can(&Have { sig: &sig, pre: &pre, version, lock, seq });
                // Of bare scripts only the standard ones are to be finalized.
                if c.kind == Kind::Bare && !matches!(n, Node::Pk(_) | Node::Pkh(_) | Node::Multi(..)) {
                    x.sat = false;
                }
                x
            }
            (None, None) => {
                let x = sig(c.keys[0]);
                Can { sat: x, dis: false, sat_any: x, dis_any: false }
            }
        }
    }
}

/// The lock time BIP-370 prescribes, None when there is none.
pub fn bip370_lock(fallback: Option<u32>, locks: &[(Option<u32>, Option<u32>)]) -> Option<u32> {
    let wants: Vec<_> = locks.iter().filter(|(t, h)| t.is_some() || h.is_some()).collect();
    if wants.is_empty() {
        return Some(fallback.unwrap_or(0));
    }
    if wants.iter().all(|(_, h)| h.is_some()) {
        return wants.iter().map(|(_, h)| h.unwrap()).max();
    }
    if wants.iter().all(|(t, _)| t.is_some()) {
        return wants.iter().map(|(t, _)| t.unwrap()).max();
    }
    None
}

pub fn outs(s: &mut Src, max: usize) -> Vec<TxOut> {
    let n = s.few(max + 1);
    (0..n)
        .map(|_| TxOut { value: Amount::from_sat(s.u(50_000)), script_pubkey: ScriptBuf::new_p2wpkh(&kref(key(s)).comp().wpubkey_hash().unwrap()) })
        .collect()
}

/// A spend of 1 to `max` coins with a determinable lock time, aimed at the one of `env`.
pub fn spend(s: &mut Src, max: usize, kinds: &[Kind]) -> Spend {
    let env = env(s);
    let n = 1 + s.few(max);
    let coins: Vec<Coin> = (0..n).map(|_| coin(s, &env, kinds)).collect();
    let mut locks = vec![(None, None); n];
    let mut fallback = None;
    if s.chance(1, 3) {
        // Through the inputs.
        let height = env.lock < 500_000_000;
        let who = s.us(n);
        for (i, l) in locks.iter_mut().enumerate() {
            if i != who && s.bool() {
                continue;
            }
            let v = if i == who {
                env.lock
            } else if height {
                s.range(0, env.lock as u64) as u32
            } else {
                s.range(500_000_000, env.lock as u64) as u32
            };
            if height {
                *l = (if s.chance(1, 3) { Some(s.range(500_000_000, 0xffff_ffff) as u32) } else { None }, Some(v));
            } else {
                // At least one input without a height keeps it time based.
                *l = (Some(v), if i != who && s.chance(1, 3) { Some(s.range(0, 499_999_999) as u32) } else { None });
            }
        }
        if s.bool() {
            fallback = Some(s.u32_edge());
        }
    } else if env.lock != 0 || s.bool() {
        fallback = Some(env.lock);
    }
    let outs = outs(s, 3);
    Spend { env, coins, outs, locks, fallback }
}

/// What is known for spending an input.
#[derive(Clone, Debug, Default)]
pub struct Data {
    pub sigs: BTreeMap<usize, ecdsa::Signature>,
    pub key_sig: Option<taproot::Signature>,
    pub leaf_sigs: BTreeMap<(usize, TapLeafHash), taproot::Signature>,
    pub leaves: BTreeSet<TapLeafHash>,
    pub pre: BTreeSet<(u8, usize)>,
    pub sighash: Option<u32>,
}

/// Valid signatures by a random part of the keys and a random part of the preimages.
pub fn data(s: &mut Src, sp: &Spend, tx: &Transaction, i: usize) -> Data {
    let c = &sp.coins[i];
    let prevouts = sp.prevouts();
    let mut d = Data::default();
    // Mostly all, sometimes none, sometimes a part.
    let mode = s.u(4);
    let has = |s: &mut Src| match mode {
        0 | 1 => !s.chance(1, 10),
        2 => s.bool(),
        _ => s.chance(1, 3),
    };
    for h in c.hashes() {
        if has(s) {
            d.pre.insert(h);
        }
    }
    if let Some(t) = &c.tap {
        let ty = if s.chance(1, 3) {
            *s.pick(&[
                TapSighashType::Default,
                TapSighashType::All,
                TapSighashType::None,
                TapSighashType::Single,
                TapSighashType::AllPlusAnyoneCanPay,
                TapSighashType::NonePlusAnyoneCanPay,
                TapSighashType::SinglePlusAnyoneCanPay,
            ])
        } else {
            TapSighashType::Default
        };
        if ty != TapSighashType::Default || s.bool() {
            d.sighash = Some(ty as u32);
        }
        if s.chance(1, 4) && has(s) {
            d.key_sig = c.tap_sig(tx, i, ty, t.internal, None, &prevouts);
        }
        for l in &t.leaves {
            if !s.chance(1, 5) {
                d.leaves.insert(l.2);
            }
            let mut ks = vec![];
            l.0.keys(&mut ks);
            ks.sort();
            ks.dedup();
            for k in ks {
                if has(s) {
                    if let Some(g) = c.tap_sig(tx, i, ty, k, Some(l.2), &prevouts) {
                        d.leaf_sigs.insert((k, l.2), g);
                    }
                }
            }
        }
    } else {
        let ty = if s.chance(1, 3) {
            *s.pick(&[
                EcdsaSighashType::All,
                EcdsaSighashType::None,
                EcdsaSighashType::Single,
                EcdsaSighashType::AllPlusAnyoneCanPay,
                EcdsaSighashType::NonePlusAnyoneCanPay,
                EcdsaSighashType::SinglePlusAnyoneCanPay,
            ])
        } else {
            EcdsaSighashType::All
        };
        if ty != EcdsaSighashType::All || s.bool() {
            d.sighash = Some(ty as u32);
        }
        for k in &c.keys {
            if has(s) {
                d.sigs.insert(*k, c.ecdsa_sig(tx, i, ty, *k));
            }
        }
    }
    d
}

/// The fields of the input for `c`, without signing data.
pub fn fill_utxo(s: &mut Src, inp: &mut v2::Input, c: &Coin) {
    if c.segwit() {
        match s.u(4) {
            0 => inp.non_witness_utxo = Some(c.prev.clone()),
            1 => {
                inp.non_witness_utxo = Some(c.prev.clone());
                inp.witness_utxo = Some(c.txout().clone());
            }
            _ => inp.witness_utxo = Some(c.txout().clone()),
        }
    } else {
        inp.non_witness_utxo = Some(c.prev.clone());
    }
}

pub fn fill_scripts(inp: &mut v2::Input, c: &Coin) {
    inp.redeem_script = c.redeem.clone();
    inp.witness_script = c.witness_script.clone();
    if let Some(t) = &c.tap {
        inp.tap_internal_key = Some(kref(t.internal).x);
        inp.tap_merkle_root = t.info.merkle_root();
        for k in &c.keys {
            let leaves: Vec<TapLeafHash> = t
                .leaves
                .iter()
                .filter(|l| {
                    let mut v = vec![];
                    l.0.keys(&mut v);
                    v.contains(k)
                })
                .map(|l| l.2)
                .collect();
            inp.tap_key_origins.insert(kref(*k).x, (leaves, source(*k)));
        }
    } else {
        for k in &c.keys {
            inp.bip32_derivations.insert(kref(*k).pk, source(*k));
        }
    }
}

pub fn fill_leaves(inp: &mut v2::Input, c: &Coin, which: &BTreeSet<TapLeafHash>) {
    if let Some(t) = &c.tap {
        for l in t.leaves.iter().filter(|l| which.contains(&l.2)) {
            let cb = t.info.control_block(&(l.1.clone(), LeafVersion::TapScript)).expect("leaf of the tree");
            inp.tap_scripts.insert(cb, (l.1.clone(), LeafVersion::TapScript));
        }
        for l in &t.foreign {
            inp.tap_scripts.insert(t.info.control_block(l).expect("leaf of the tree"), l.clone());
        }
    }
}

pub fn fill_data(inp: &mut v2::Input, c: &Coin, d: &Data) {
    inp.sighash_type = d.sighash.map(PsbtSighashType::from_u32);
    for (k, g) in &d.sigs {
        inp.partial_sigs.insert(c.pubkey(*k), *g);
    }
    inp.tap_key_sig = d.key_sig;
    for ((k, l), g) in &d.leaf_sigs {
        inp.tap_script_sigs.insert((kref(*k).x, *l), *g);
    }
    fill_leaves(inp, c, &d.leaves);
    for (t, i) in &d.pre {
        let p = preimage(*i);
        match t {
            0 => {
                inp.sha256_preimages.insert(sha256::Hash::hash(&p), p.to_vec());
            }
            1 => {
                inp.hash256_preimages.insert(sha256d::Hash::hash(&p), p.to_vec());
            }
            2 => {
                inp.ripemd160_preimages.insert(ripemd160::Hash::hash(&p), p.to_vec());
            }
            _ => {
                inp.hash160_preimages.insert(hash160::Hash::hash(&p), p.to_vec());
            }
        }
    }
}

/// Fields that carry no meaning for spending.
pub fn junk_input(s: &mut Src, inp: &mut v2::Input) {
    for _ in 0..s.us(3) {
        inp.unknowns.insert(gen::unknown_key(s, gen::MapKind::Input), gen::blob(s));
    }
    for _ in 0..s.us(3) {
        inp.proprietaries.insert(gen::prop_key(s), gen::blob(s));
    }
}

pub fn junk_output(s: &mut Src, o: &mut v2::Output) {
    if s.chance(1, 3) {
        gen::fill_output_common(s, o, 3);
    }
}

/// The version 2 PSBT of a spend with funding data and scripts, without signing data.
pub fn psbt2(s: &mut Src, sp: &Spend, flags: u8) -> v2::Psbt {
    let mut g = v2::Creator::new().psbt().global;
    g.tx_version = transaction::Version(sp.env.version);
    g.fallback_lock_time = sp.fallback.map(LockTime::from_consensus);
    g.tx_modifiable_flags = flags;
    if s.chance(1, 4) {
        let junk = gen::global(s);
        g.xpubs = junk.xpubs;
        g.proprietaries = junk.proprietaries;
        g.unknowns = junk.unknowns;
    }
    let mut inputs = vec![];
    for (i, c) in sp.coins.iter().enumerate() {
        let mut inp = v2::Input::new(&c.outpoint());
        inp.sequence = c.seq.map(Sequence);
        inp.min_time = sp.locks[i].0.map(|t| absolute::Time::from_consensus(t).unwrap());
        inp.min_height = sp.locks[i].1.map(|t| absolute::Height::from_consensus(t).unwrap());
        fill_utxo(s, &mut inp, c);
        fill_scripts(&mut inp, c);
        if s.chance(1, 4) {
            junk_input(s, &mut inp);
        }
        inputs.push(inp);
    }
    let mut outputs = vec![];
    for o in &sp.outs {
        let mut o = v2::Output::new(o.clone());
        junk_output(s, &mut o);
        outputs.push(o);
    }
    g.input_count = inputs.len();
    g.output_count = outputs.len();
    v2::Psbt { global: g, inputs, outputs }
}

pub fn is_tr(s: &Script) -> bool { s.is_p2tr() }

pub fn verify_ecdsa(msg: &Message, sig: &ecdsa::Signature, pk: &PublicKey) -> bool {
    let mut g: secp256k1::ecdsa::Signature = sig.signature;
    g.normalize_s();
    secp().verify_ecdsa(msg, &g, &pk.inner).is_ok()
}

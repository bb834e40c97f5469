//! Generators of PSBT field values and of whole typed PSBTs.

use std::collections::BTreeMap;

use bitcoin::absolute::{self, Height, Time};
use bitcoin::bip32::{ChainCode, ChildNumber, Fingerprint, KeySource, Xpub};
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::key::XOnlyPublicKey;
use bitcoin::secp256k1::{self, schnorr};
use bitcoin::sighash::{EcdsaSighashType, TapSighashType};
use bitcoin::taproot::{ControlBlock, LeafVersion, TapLeafHash, TapNodeHash, TapTree, TaprootBuilder, TaprootMerkleBranch};
use bitcoin::{
    ecdsa, taproot, transaction, Amount, NetworkKind, OutPoint, PublicKey, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Txid, Witness,
};
use psbt_v2::raw;
use psbt_v2::v2::{Global, Input, Output, Psbt};
use psbt_v2::PsbtSighashType;

use crate::keys::{self, key, key_source};
use crate::source::Src;

pub fn blob(s: &mut Src) -> Vec<u8> {
    let n = match s.u(40) {
        0..=29 => s.us(40),
        30..=36 => s.us(110),
        37 => 250 + s.us(8),
        38 => s.us(700),
        _ => {
            if s.chance(1, 40) {
                65_530 + s.us(12)
            } else {
                s.us(80)
            }
        }
    };
    s.bytes(n)
}

pub fn script(s: &mut Src) -> ScriptBuf {
    match s.u(8) {
        0 => ScriptBuf::new(),
        1 => ScriptBuf::new_p2pkh(&key(s).comp().pubkey_hash()),
        2 => ScriptBuf::new_p2wpkh(&key(s).comp().wpubkey_hash().unwrap()),
        3 => ScriptBuf::new_p2sh(&bitcoin::ScriptHash::from_byte_array(s.arr())),
        4 => ScriptBuf::new_p2wsh(&bitcoin::WScriptHash::from_byte_array(s.arr())),
        5 => ScriptBuf::new_p2tr(keys::secp(), key(s).x, None),
        6 => ScriptBuf::new_op_return(bitcoin::script::PushBytesBuf::try_from(s.bytes(20)).unwrap()),
        _ => ScriptBuf::from(blob(s)),
    }
}

pub fn txid(s: &mut Src) -> Txid { Txid::from_byte_array(s.arr()) }

pub fn outpoint(s: &mut Src) -> OutPoint { OutPoint { txid: txid(s), vout: s.u32_edge() } }

pub fn amount(s: &mut Src) -> Amount { Amount::from_sat(s.u64_edge()) }

pub fn txout(s: &mut Src) -> TxOut { TxOut { value: amount(s), script_pubkey: script(s) } }

pub fn witness(s: &mut Src) -> Witness {
    let n = s.len(6);
    let items: Vec<Vec<u8>> = (0..n).map(|_| blob(s)).collect();
    Witness::from_slice(&items)
}

pub fn tx(s: &mut Src) -> Transaction {
    let nin = if s.chance(1, 60) { 0 } else { 1 + s.few(3) };
    let nout = s.few(4);
    let wit = s.bool();
    Transaction {
        version: transaction::Version(s.u32_edge() as i32),
        lock_time: absolute::LockTime::from_consensus(s.u32_edge()),
        input: (0..nin)
            .map(|_| TxIn {
                previous_output: outpoint(s),
                script_sig: script(s),
                sequence: Sequence(s.u32_edge()),
                witness: if wit { witness(s) } else { Witness::new() },
            })
            .collect(),
        output: (0..nout).map(|_| txout(s)).collect(),
    }
}

/// An unsigned transaction, as a version 0 PSBT holds it.
pub fn unsigned_tx(s: &mut Src) -> Transaction {
    let nin = if s.chance(1, 60) { 0 } else { 1 + s.few(3) };
    let nout = s.few(4);
    Transaction {
        version: transaction::Version(if s.bool() { 2 } else { s.u32_edge() as i32 }),
        lock_time: absolute::LockTime::from_consensus(s.u32_edge()),
        input: (0..nin)
            .map(|_| TxIn { previous_output: outpoint(s), script_sig: ScriptBuf::new(), sequence: Sequence(s.u32_edge()), witness: Witness::new() })
            .collect(),
        output: (0..nout).map(|_| txout(s)).collect(),
    }
}

pub fn ecdsa_sig(s: &mut Src) -> ecdsa::Signature {
    let sighash_type = *s.pick(&[
        EcdsaSighashType::All,
        EcdsaSighashType::None,
        EcdsaSighashType::Single,
        EcdsaSighashType::AllPlusAnyoneCanPay,
        EcdsaSighashType::NonePlusAnyoneCanPay,
        EcdsaSighashType::SinglePlusAnyoneCanPay,
    ]);
    let mut b = s.bytes(64);
    b[0] &= 0x7f;
    b[32] &= if s.bool() { 0xff } else { 0x7f };
    if s.chance(1, 8) {
        let z = s.us(8);
        b[..z].iter_mut().for_each(|x| *x = 0);
    }
    let signature = secp256k1::ecdsa::Signature::from_compact(&b)
        .unwrap_or_else(|_| secp256k1::ecdsa::Signature::from_compact(&[1; 64]).unwrap());
    ecdsa::Signature { signature, sighash_type }
}

pub fn tap_sig(s: &mut Src) -> taproot::Signature {
    let sighash_type = *s.pick(&[
        TapSighashType::Default,
        TapSighashType::All,
        TapSighashType::None,
        TapSighashType::Single,
        TapSighashType::AllPlusAnyoneCanPay,
        TapSighashType::NonePlusAnyoneCanPay,
        TapSighashType::SinglePlusAnyoneCanPay,
    ]);
    taproot::Signature { signature: schnorr::Signature::from_slice(&s.bytes(64)).unwrap(), sighash_type }
}

pub fn leaf_version(s: &mut Src) -> LeafVersion {
    if s.bool() {
        let b = (s.u(128) * 2) as u8;
        LeafVersion::from_consensus(b).unwrap_or(LeafVersion::TapScript)
    } else {
        LeafVersion::TapScript
    }
}

pub fn control_block(s: &mut Src) -> ControlBlock {
    let n = match s.u(12) {
        0..=8 => s.us(4),
        9 | 10 => s.us(20),
        _ => 128 - s.us(3),
    };
    let mut nodes: Vec<TapNodeHash> = vec![];
    for _ in 0..n {
        nodes.push(TapNodeHash::from_byte_array(s.arr()));
    }
    ControlBlock {
        leaf_version: leaf_version(s),
        output_key_parity: if s.bool() { secp256k1::Parity::Odd } else { secp256k1::Parity::Even },
        internal_key: key(s).x,
        merkle_branch: TaprootMerkleBranch::try_from(nodes).unwrap(),
    }
}

/// Depths of the leaves of a random full binary tree in depth-first order.
pub fn tree_depths(s: &mut Src, max_leaves: usize) -> Vec<u8> {
    fn split(s: &mut Src, n: usize, depth: u8, out: &mut Vec<u8>) {
        if n == 1 || depth == 128 {
            out.push(depth);
            return;
        }
        let left = 1 + s.us(n - 1);
        split(s, left, depth + 1, out);
        split(s, n - left, depth + 1, out);
    }
    let n = 1 + s.few(max_leaves);
    let mut out = vec![];
    split(s, n, 0, &mut out);
    out
}

pub fn tap_tree_leaves(s: &mut Src) -> Vec<(u8, ScriptBuf, LeafVersion)> {
    if s.chance(1, 300) {
        // The deepest possible tree: a comb with 128 levels.
        let mut v: Vec<_> = (1..=128u8).map(|d| (d, ScriptBuf::from(vec![d]), LeafVersion::TapScript)).collect();
        v.push((128, script(s), leaf_version(s)));
        return v;
    }
    tree_depths(s, 6).into_iter().map(|d| (d, script(s), leaf_version(s))).collect()
}

pub fn build_tree(leaves: &[(u8, ScriptBuf, LeafVersion)]) -> Option<TapTree> {
    let mut b = TaprootBuilder::new();
    for (d, sc, v) in leaves {
        b = b.add_leaf_with_ver(*d, sc.clone(), *v).ok()?;
    }
    TapTree::try_from(b).ok()
}

pub fn tap_tree(s: &mut Src) -> TapTree { build_tree(&tap_tree_leaves(s)).expect("generated trees are complete") }

pub fn pubkey(s: &mut Src) -> PublicKey {
    let k = key(s);
    if s.chance(1, 4) { k.uncomp() } else { k.comp() }
}

pub fn xpub(s: &mut Src) -> (Xpub, KeySource) {
    let path = keys::path(s);
    let depth = if s.chance(1, 6) { s.u(256) as u8 } else { path.len() as u8 };
    let x = Xpub {
        network: if s.bool() { NetworkKind::Test } else { NetworkKind::Main },
        depth,
        parent_fingerprint: Fingerprint::from(s.arr::<4>()),
        child_number: ChildNumber::from(s.u32_edge()),
        public_key: key(s).pk,
        chain_code: ChainCode::from(s.arr::<32>()),
    };
    (x, (Fingerprint::from(s.arr::<4>()), path))
}

pub fn prop_key(s: &mut Src) -> raw::ProprietaryKey {
    let plen = s.len(12);
    let klen = if s.chance(1, 60) { 1000 + s.us(25) } else { s.len(40) };
    raw::ProprietaryKey { prefix: s.bytes(plen), subtype: s.u(256) as u8, key: s.bytes(klen) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum MapKind {
    Global,
    Input,
    Output,
}

/// Types that no version of the format that this build knows assigns a meaning to.
pub fn unknown_types(k: MapKind) -> Vec<u8> {
    let sp = cfg!(feature = "sp");
    (0u8..=255)
        .filter(|t| match k {
            MapKind::Global => !(matches!(t, 0..=6 | 0xfb | 0xfc) || sp && matches!(t, 7 | 8)),
            MapKind::Input => !(matches!(t, 0..=8 | 0x0a..=0x18 | 0xfc) || sp && matches!(t, 0x1d | 0x1e)),
            MapKind::Output => !(matches!(t, 0..=7 | 0xfc) || sp && matches!(t, 9 | 0x0a)),
        })
        .collect()
}

pub fn unknown_key(s: &mut Src, k: MapKind) -> raw::Key {
    let types = unknown_types(k);
    let t = types[s.us(types.len())];
    let n = if s.chance(1, 40) { 250 + s.us(6) } else { s.len(40) };
    raw::Key { type_value: t, key: s.bytes(n) }
}

fn count(s: &mut Src, density: u64) -> usize {
    if s.u(8) < 8 - density {
        0
    } else {
        1 + if s.chance(1, 24) { s.us(12) } else { s.len(3) }
    }
}

fn opt<T>(s: &mut Src, density: u64, f: impl FnOnce(&mut Src) -> T) -> Option<T> {
    if s.chance(density, 8) { Some(f(s)) } else { None }
}

pub fn derivations(s: &mut Src, d: u64) -> BTreeMap<secp256k1::PublicKey, KeySource> {
    (0..count(s, d)).map(|_| (key(s).pk, key_source(s))).collect()
}

pub fn tap_origins(s: &mut Src, d: u64) -> BTreeMap<XOnlyPublicKey, (Vec<TapLeafHash>, KeySource)> {
    (0..count(s, d))
        .map(|_| {
            let n = if s.chance(1, 200) { 253 } else { s.few(5) };
            (key(s).x, ((0..n).map(|_| TapLeafHash::from_byte_array(s.arr())).collect(), key_source(s)))
        })
        .collect()
}

pub fn sighash_u32(s: &mut Src) -> u32 {
    match s.u(4) {
        0 => *s.pick(&[1, 2, 3, 0x81, 0x82, 0x83]),
        1 => 0,
        2 => s.u(256) as u32,
        _ => s.u32_edge(),
    }
}

pub fn time(s: &mut Src) -> Time {
    let n = match s.u(4) {
        0 => 500_000_000,
        1 => u32::MAX,
        _ => 500_000_000 + (s.raw() % (u32::MAX as u64 - 499_999_999)) as u32,
    };
    Time::from_consensus(n).unwrap()
}

pub fn height(s: &mut Src) -> Height {
    let n = match s.u(4) {
        0 => 0,
        1 => 499_999_999,
        2 => s.u(1_000_000) as u32,
        _ => s.u(500_000_000) as u32,
    };
    Height::from_consensus(n).unwrap()
}

pub fn input(s: &mut Src) -> Input {
    let mut i = Input::new(&outpoint(s));
    let d = s.u(9);
    if d == 0 {
        return i;
    }
    i.sequence = opt(s, d, |s| Sequence(s.u32_edge()));
    i.min_time = opt(s, d, time);
    i.min_height = opt(s, d, height);
    fill_input_common(s, &mut i, d);
    #[cfg(feature = "sp")]
    if s.chance(d, 16) {
        let (a, b) = sp_maps(s);
        i.sp_ecdh_shares = a;
        i.sp_dleq_proofs = b;
    }
    i
}

#[cfg(feature = "sp")]
pub fn sp_maps(
    s: &mut Src,
) -> (BTreeMap<bitcoin::CompressedPublicKey, bitcoin::CompressedPublicKey>, BTreeMap<bitcoin::CompressedPublicKey, psbt_v2::v2::DleqProof>) {
    use bitcoin::CompressedPublicKey as C;
    let n = 1 + s.few(3);
    let m = 1 + s.few(3);
    let same = s.bool();
    let a: BTreeMap<C, C> = (0..n).map(|_| (C(key(s).pk), C(key(s).pk))).collect();
    let b = if same {
        a.keys().map(|k| (*k, psbt_v2::v2::DleqProof(s.arr()))).collect()
    } else {
        (0..m).map(|_| (C(key(s).pk), psbt_v2::v2::DleqProof(s.arr()))).collect()
    };
    (a, b)
}

/// The fields that version 0 and version 2 inputs share.
pub fn fill_input_common(s: &mut Src, i: &mut Input, d: u64) {
    i.non_witness_utxo = opt(s, d, tx);
    i.witness_utxo = opt(s, d, txout);
    i.partial_sigs = (0..count(s, d)).map(|_| (pubkey(s), ecdsa_sig(s))).collect();
    i.sighash_type = opt(s, d, |s| PsbtSighashType::from_u32(sighash_u32(s)));
    i.redeem_script = opt(s, d, script);
    i.witness_script = opt(s, d, script);
    i.bip32_derivations = derivations(s, d);
    i.final_script_sig = opt(s, d, script);
    i.final_script_witness = opt(s, d, witness);
    for _ in 0..count(s, d) {
        let p = blob(s);
        i.ripemd160_preimages.insert(ripemd160::Hash::hash(&p), p);
    }
    for _ in 0..count(s, d) {
        let p = blob(s);
        i.sha256_preimages.insert(sha256::Hash::hash(&p), p);
    }
    for _ in 0..count(s, d) {
        let p = blob(s);
        i.hash160_preimages.insert(hash160::Hash::hash(&p), p);
    }
    for _ in 0..count(s, d) {
        let p = blob(s);
        i.hash256_preimages.insert(sha256d::Hash::hash(&p), p);
    }
    i.tap_key_sig = opt(s, d, tap_sig);
    i.tap_script_sigs = (0..count(s, d)).map(|_| ((key(s).x, TapLeafHash::from_byte_array(s.arr())), tap_sig(s))).collect();
    i.tap_scripts = (0..count(s, d)).map(|_| (control_block(s), (script(s), leaf_version(s)))).collect();
    i.tap_key_origins = tap_origins(s, d);
    i.tap_internal_key = opt(s, d, |s| key(s).x);
    i.tap_merkle_root = opt(s, d, |s| TapNodeHash::from_byte_array(s.arr()));
    i.proprietaries = (0..count(s, d)).map(|_| (prop_key(s), blob(s))).collect();
    i.unknowns = (0..count(s, d)).map(|_| (unknown_key(s, MapKind::Input), blob(s))).collect();
}

pub fn output(s: &mut Src) -> Output {
    let mut o = Output::new(txout(s));
    let d = s.u(9);
    if d == 0 {
        return o;
    }
    fill_output_common(s, &mut o, d);
    #[cfg(feature = "sp")]
    if s.chance(d, 16) {
        let mut v = key(s).pk.serialize().to_vec();
        v.extend_from_slice(&key(s).pk.serialize());
        if s.bool() {
            v = s.bytes(66);
        }
        o.sp_v0_info = Some(v);
        o.sp_v0_label = opt(s, 4, |s| s.u32_edge());
        if s.bool() {
            o.script_pubkey = ScriptBuf::new();
        }
    }
    o
}

pub fn fill_output_common(s: &mut Src, o: &mut Output, d: u64) {
    o.redeem_script = opt(s, d, script);
    o.witness_script = opt(s, d, script);
    o.bip32_derivations = derivations(s, d);
    o.tap_internal_key = opt(s, d, |s| key(s).x);
    o.tap_tree = opt(s, d, tap_tree);
    o.tap_key_origins = tap_origins(s, d);
    o.proprietaries = (0..count(s, d)).map(|_| (prop_key(s), blob(s))).collect();
    o.unknowns = (0..count(s, d)).map(|_| (unknown_key(s, MapKind::Output), blob(s))).collect();
}

pub fn global(s: &mut Src) -> Global {
    let mut g = Global::default();
    g.tx_version = transaction::Version(if s.bool() { 2 } else { s.u32_edge() as i32 });
    let d = s.u(9);
    g.fallback_lock_time = opt(s, d, |s| absolute::LockTime::from_consensus(s.u32_edge()));
    g.tx_modifiable_flags = if s.bool() { s.u(8) as u8 } else { s.u(256) as u8 };
    if d == 0 {
        return g;
    }
    g.xpubs = (0..count(s, d)).map(|_| xpub(s)).collect();
    #[cfg(feature = "sp")]
    if s.chance(d, 16) {
        let (a, b) = sp_maps(s);
        g.sp_ecdh_shares = a;
        g.sp_dleq_proofs = b;
    }
    g.proprietaries = (0..count(s, d)).map(|_| (prop_key(s), blob(s))).collect();
    g.unknowns = (0..count(s, d)).map(|_| (unknown_key(s, MapKind::Global), blob(s))).collect();
    g
}

pub fn psbt2(s: &mut Src) -> Psbt {
    let mut g = global(s);
    let (inputs, outputs): (Vec<Input>, Vec<Output>) = if s.chance(1, 400) {
        // Counts around the compact size boundary, minimal maps.
        let n = 250 + s.us(6);
        let m = 250 + s.us(6);
        if s.bool() {
            ((0..n).map(|_| Input::new(&outpoint(s))).collect(), vec![])
        } else {
            (vec![], (0..m).map(|_| Output::new(TxOut { value: Amount::from_sat(s.raw()), script_pubkey: ScriptBuf::new() })).collect())
        }
    } else {
        let n = s.few(4);
        let m = s.few(4);
        ((0..n).map(|_| input(s)).collect(), (0..m).map(|_| output(s)).collect())
    };
    g.input_count = inputs.len();
    g.output_count = outputs.len();
    Psbt { global: g, inputs, outputs }
}

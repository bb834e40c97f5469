//! Reference model of the version 2 (and version 0 map) format: typed PSBT to key-value maps and
//! bytes to typed PSBT, written from BIP-174/370/371/375 and not from the library.

use std::collections::BTreeSet;

use bitcoin::absolute::{self, Height, Time};
use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource, Xpub};
use bitcoin::consensus::encode as consensus;
use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::key::XOnlyPublicKey;
use bitcoin::secp256k1::{self, schnorr};
use bitcoin::sighash::{EcdsaSighashType, TapSighashType};
use bitcoin::taproot::{ControlBlock, LeafVersion, TapLeafHash, TapNodeHash};
use bitcoin::{ecdsa, taproot, transaction, Amount, OutPoint, PublicKey, ScriptBuf, Sequence, Transaction, TxOut, Txid, Witness};
use psbt_v2::raw;
use psbt_v2::v2::{Global, Input, Output, Psbt};
use psbt_v2::PsbtSighashType;

use crate::kv::{compact, get_compact, get_map, put_compact, Kv, Map, MapRead, Raw, MAGIC};

// ---------------------------------------------------------------- typed to key-value pairs

fn key_source_bytes(k: &KeySource) -> Vec<u8> {
    let mut v = k.0.to_bytes().to_vec();
    for c in k.1.as_ref() {
        v.extend_from_slice(&u32::from(*c).to_le_bytes());
    }
    v
}

fn tap_origin_bytes(v: &(Vec<TapLeafHash>, KeySource)) -> Vec<u8> {
    let mut b = compact(v.0.len() as u64);
    for h in &v.0 {
        b.extend_from_slice(h.as_byte_array());
    }
    b.extend(key_source_bytes(&v.1));
    b
}

fn txout_bytes(t: &TxOut) -> Vec<u8> {
    let mut v = t.value.to_sat().to_le_bytes().to_vec();
    put_compact(&mut v, t.script_pubkey.len() as u64);
    v.extend_from_slice(t.script_pubkey.as_bytes());
    v
}

fn witness_bytes(w: &Witness) -> Vec<u8> {
    let mut v = compact(w.len() as u64);
    for e in w.iter() {
        put_compact(&mut v, e.len() as u64);
        v.extend_from_slice(e);
    }
    v
}

fn ecdsa_bytes(s: &ecdsa::Signature) -> Vec<u8> {
    let mut v = s.signature.serialize_der().to_vec();
    v.push(s.sighash_type as u8);
    v
}

fn tapsig_bytes(s: &taproot::Signature) -> Vec<u8> {
    let mut v = s.signature.serialize().to_vec();
    if s.sighash_type != TapSighashType::Default {
        v.push(s.sighash_type as u8);
    }
    v
}

fn control_block_bytes(c: &ControlBlock) -> Vec<u8> {
    let mut v = vec![c.leaf_version.to_consensus() | c.output_key_parity.to_u8()];
    v.extend_from_slice(&c.internal_key.serialize());
    for h in c.merkle_branch.iter() {
        v.extend_from_slice(h.as_byte_array());
    }
    v
}

fn prop_kv(k: &raw::ProprietaryKey, val: &[u8]) -> Kv {
    let mut key = compact(k.prefix.len() as u64);
    key.extend_from_slice(&k.prefix);
    key.push(k.subtype);
    key.extend_from_slice(&k.key);
    Kv::new(0xfc, &key, val)
}

pub fn input_common_kv(i: &Input) -> Map {
    let mut m = vec![];
    if let Some(t) = &i.non_witness_utxo {
        m.push(Kv::new(0x00, &[], &consensus::serialize(t)));
    }
    if let Some(t) = &i.witness_utxo {
        m.push(Kv::new(0x01, &[], &txout_bytes(t)));
    }
    for (k, s) in &i.partial_sigs {
        m.push(Kv::new(0x02, &k.to_bytes(), &ecdsa_bytes(s)));
    }
    if let Some(t) = i.sighash_type {
        m.push(Kv::new(0x03, &[], &t.to_u32().to_le_bytes()));
    }
    if let Some(t) = &i.redeem_script {
        m.push(Kv::new(0x04, &[], t.as_bytes()));
    }
    if let Some(t) = &i.witness_script {
        m.push(Kv::new(0x05, &[], t.as_bytes()));
    }
    for (k, s) in &i.bip32_derivations {
        m.push(Kv::new(0x06, &k.serialize(), &key_source_bytes(s)));
    }
    if let Some(t) = &i.final_script_sig {
        m.push(Kv::new(0x07, &[], t.as_bytes()));
    }
    if let Some(t) = &i.final_script_witness {
        m.push(Kv::new(0x08, &[], &witness_bytes(t)));
    }
    for (h, p) in &i.ripemd160_preimages {
        m.push(Kv::new(0x0a, h.as_byte_array(), p));
    }
    for (h, p) in &i.sha256_preimages {
        m.push(Kv::new(0x0b, h.as_byte_array(), p));
    }
    for (h, p) in &i.hash160_preimages {
        m.push(Kv::new(0x0c, h.as_byte_array(), p));
    }
    for (h, p) in &i.hash256_preimages {
        m.push(Kv::new(0x0d, h.as_byte_array(), p));
    }
    if let Some(s) = &i.tap_key_sig {
        m.push(Kv::new(0x13, &[], &tapsig_bytes(s)));
    }
    for ((x, h), s) in &i.tap_script_sigs {
        let mut k = x.serialize().to_vec();
        k.extend_from_slice(h.as_byte_array());
        m.push(Kv::new(0x14, &k, &tapsig_bytes(s)));
    }
    for (c, (sc, v)) in &i.tap_scripts {
        let mut val = sc.to_bytes();
        val.push(v.to_consensus());
        m.push(Kv::new(0x15, &control_block_bytes(c), &val));
    }
    for (x, o) in &i.tap_key_origins {
        m.push(Kv::new(0x16, &x.serialize(), &tap_origin_bytes(o)));
    }
    if let Some(x) = &i.tap_internal_key {
        m.push(Kv::new(0x17, &[], &x.serialize()));
    }
    if let Some(h) = &i.tap_merkle_root {
        m.push(Kv::new(0x18, &[], h.as_byte_array()));
    }
    for (k, v) in &i.proprietaries {
        m.push(prop_kv(k, v));
    }
    for (k, v) in &i.unknowns {
        m.push(Kv::new(k.type_value, &k.key, v));
    }
    m
}

pub fn input_kv(i: &Input) -> Map {
    let mut m = vec![
        Kv::new(0x0e, &[], i.previous_txid.as_byte_array()),
        Kv::new(0x0f, &[], &i.spent_output_index.to_le_bytes()),
    ];
    if let Some(n) = i.sequence {
        m.push(Kv::new(0x10, &[], &n.0.to_le_bytes()));
    }
    if let Some(n) = i.min_time {
        m.push(Kv::new(0x11, &[], &n.to_consensus_u32().to_le_bytes()));
    }
    if let Some(n) = i.min_height {
        m.push(Kv::new(0x12, &[], &n.to_consensus_u32().to_le_bytes()));
    }
    m.extend(input_common_kv(i));
    #[cfg(feature = "sp")]
    {
        for (k, v) in &i.sp_ecdh_shares {
            m.push(Kv::new(0x1d, &k.to_bytes(), &v.to_bytes()));
        }
        for (k, v) in &i.sp_dleq_proofs {
            m.push(Kv::new(0x1e, &k.to_bytes(), &v.0));
        }
    }
    m
}

pub fn output_common_kv(o: &Output) -> Map {
    let mut m = vec![];
    if let Some(t) = &o.redeem_script {
        m.push(Kv::new(0x00, &[], t.as_bytes()));
    }
    if let Some(t) = &o.witness_script {
        m.push(Kv::new(0x01, &[], t.as_bytes()));
    }
    for (k, s) in &o.bip32_derivations {
        m.push(Kv::new(0x02, &k.serialize(), &key_source_bytes(s)));
    }
    if let Some(x) = &o.tap_internal_key {
        m.push(Kv::new(0x05, &[], &x.serialize()));
    }
    if let Some(t) = &o.tap_tree {
        let mut v = vec![];
        for l in t.script_leaves() {
            v.push(l.merkle_branch().len() as u8);
            v.push(l.version().to_consensus());
            put_compact(&mut v, l.script().len() as u64);
            v.extend_from_slice(l.script().as_bytes());
        }
        m.push(Kv::new(0x06, &[], &v));
    }
    for (x, v) in &o.tap_key_origins {
        m.push(Kv::new(0x07, &x.serialize(), &tap_origin_bytes(v)));
    }
    for (k, v) in &o.proprietaries {
        m.push(prop_kv(k, v));
    }
    for (k, v) in &o.unknowns {
        m.push(Kv::new(k.type_value, &k.key, v));
    }
    m
}

pub fn output_kv(o: &Output) -> Map {
    let mut m = vec![Kv::new(0x03, &[], &o.amount.to_sat().to_le_bytes())];
    let mut with_script = true;
    #[cfg(feature = "sp")]
    {
        if let Some(v) = &o.sp_v0_info {
            m.push(Kv::new(0x09, &[], v));
            with_script = !o.script_pubkey.is_empty();
        }
        if let Some(l) = o.sp_v0_label {
            m.push(Kv::new(0x0a, &[], &l.to_le_bytes()));
        }
    }
    if with_script {
        m.push(Kv::new(0x04, &[], o.script_pubkey.as_bytes()));
    } else {
        with_script = false;
    }
    let _ = with_script;
    m.extend(output_common_kv(o));
    m
}

fn xpubs_kv(m: &mut Map, xpubs: &std::collections::BTreeMap<Xpub, KeySource>) {
    for (x, s) in xpubs {
        let mut k = match x.network {
            bitcoin::NetworkKind::Main => vec![0x04, 0x88, 0xb2, 0x1e],
            bitcoin::NetworkKind::Test => vec![0x04, 0x35, 0x87, 0xcf],
        };
        k.push(x.depth);
        k.extend_from_slice(&x.parent_fingerprint.to_bytes());
        k.extend_from_slice(&u32::from(x.child_number).to_be_bytes());
        k.extend_from_slice(&x.chain_code.to_bytes());
        k.extend_from_slice(&x.public_key.serialize());
        m.push(Kv::new(0x01, &k, &key_source_bytes(s)));
    }
}

pub fn global_kv(g: &Global) -> Map {
    let mut m = vec![
        Kv::new(0xfb, &[], &g.version.to_u32().to_le_bytes()),
        Kv::new(0x02, &[], &g.tx_version.0.to_le_bytes()),
        Kv::new(0x04, &[], &compact(g.input_count as u64)),
        Kv::new(0x05, &[], &compact(g.output_count as u64)),
        Kv::new(0x06, &[], &[g.tx_modifiable_flags]),
    ];
    if let Some(l) = g.fallback_lock_time {
        m.push(Kv::new(0x03, &[], &l.to_consensus_u32().to_le_bytes()));
    }
    xpubs_kv(&mut m, &g.xpubs);
    #[cfg(feature = "sp")]
    {
        for (k, v) in &g.sp_ecdh_shares {
            m.push(Kv::new(0x07, &k.to_bytes(), &v.to_bytes()));
        }
        for (k, v) in &g.sp_dleq_proofs {
            m.push(Kv::new(0x08, &k.to_bytes(), &v.0));
        }
    }
    for (k, v) in &g.proprietaries {
        m.push(prop_kv(k, v));
    }
    for (k, v) in &g.unknowns {
        m.push(Kv::new(k.type_value, &k.key, v));
    }
    m
}

pub fn to_raw(p: &Psbt) -> Raw {
    let mut maps = vec![global_kv(&p.global)];
    maps.extend(p.inputs.iter().map(input_kv));
    maps.extend(p.outputs.iter().map(output_kv));
    Raw { maps }
}

/// The version 0 PSBT with this unsigned transaction and the shared fields of `p`.
pub fn to_raw_v0(tx: &Transaction, version: Option<u32>, p: &Psbt) -> Raw {
    let mut g = vec![Kv::new(0x00, &[], &serialize_unsigned(tx))];
    xpubs_kv(&mut g, &p.global.xpubs);
    if let Some(v) = version {
        g.push(Kv::new(0xfb, &[], &v.to_le_bytes()));
    }
    for (k, v) in &p.global.proprietaries {
        g.push(prop_kv(k, v));
    }
    for (k, v) in &p.global.unknowns {
        g.push(Kv::new(k.type_value, &k.key, v));
    }
    let mut maps = vec![g];
    maps.extend(p.inputs.iter().map(input_common_kv));
    maps.extend(p.outputs.iter().map(output_common_kv));
    Raw { maps }
}

/// Serialises without witness, also for a transaction without inputs.
pub fn serialize_unsigned(tx: &Transaction) -> Vec<u8> {
    let mut v = tx.version.0.to_le_bytes().to_vec();
    put_compact(&mut v, tx.input.len() as u64);
    for i in &tx.input {
        v.extend_from_slice(i.previous_output.txid.as_byte_array());
        v.extend_from_slice(&i.previous_output.vout.to_le_bytes());
        put_compact(&mut v, i.script_sig.len() as u64);
        v.extend_from_slice(i.script_sig.as_bytes());
        v.extend_from_slice(&i.sequence.0.to_le_bytes());
    }
    put_compact(&mut v, tx.output.len() as u64);
    for o in &tx.output {
        v.extend(txout_bytes(o));
    }
    v.extend_from_slice(&tx.lock_time.to_consensus_u32().to_le_bytes());
    v
}

// ---------------------------------------------------------------- bytes to typed

#[derive(Debug)]
pub enum Outcome {
    /// Well-formed, with this meaning.
    Accept(Box<Psbt>),
    Reject(String),
    /// The BIPs do not settle it; if accepted the value must be this one, when one is given.
    Either(String),
}

#[derive(Debug)]
enum E {
    Bad(String),
    Odd(String),
}
type R<T> = Result<T, E>;
fn bad<T>(s: &str) -> R<T> { Err(E::Bad(s.to_string())) }
fn odd<T>(s: &str) -> R<T> { Err(E::Odd(s.to_string())) }

fn u32v(v: &[u8]) -> R<u32> {
    match <[u8; 4]>::try_from(v) {
        Ok(a) => Ok(u32::from_le_bytes(a)),
        Err(_) => bad("value is not 4 bytes"),
    }
}

fn a32(v: &[u8]) -> R<[u8; 32]> { <[u8; 32]>::try_from(v).or_else(|_| bad("not 32 bytes")) }
fn a20(v: &[u8]) -> R<[u8; 20]> { <[u8; 20]>::try_from(v).or_else(|_| bad("not 20 bytes")) }

fn nokey(kv: &Kv) -> R<()> { if kv.key.is_empty() { Ok(()) } else { bad("key data on a field without") } }

fn key_source(v: &[u8]) -> R<KeySource> {
    if v.len() < 4 || v.len() % 4 != 0 {
        return bad("key source length");
    }
    let path: Vec<ChildNumber> = v[4..].chunks(4).map(|c| ChildNumber::from(u32::from_le_bytes(c.try_into().unwrap()))).collect();
    Ok((Fingerprint::from(<[u8; 4]>::try_from(&v[..4]).unwrap()), DerivationPath::from(path)))
}

fn secp_key(k: &[u8]) -> R<secp256k1::PublicKey> {
    let pk = secp256k1::PublicKey::from_slice(k).or_else(|_| bad("not a public key"))?;
    if k.len() != 33 {
        return odd("uncompressed key in a derivation");
    }
    Ok(pk)
}

fn ec_key(k: &[u8]) -> R<PublicKey> {
    match (k.len(), k.first()) {
        (33, Some(2 | 3)) | (65, Some(4)) => {
            let inner = secp256k1::PublicKey::from_slice(k).or_else(|_| bad("not a point"))?;
            Ok(PublicKey { compressed: k.len() == 33, inner })
        }
        (65, Some(6 | 7)) if secp256k1::PublicKey::from_slice(k).is_ok() => odd("hybrid key"),
        _ => bad("not a public key"),
    }
}

fn xonly(k: &[u8]) -> R<XOnlyPublicKey> { XOnlyPublicKey::from_slice(k).or_else(|_| bad("not an x-only key")) }

fn cpk(k: &[u8]) -> R<bitcoin::CompressedPublicKey> {
    if k.len() != 33 {
        return bad("not 33 bytes");
    }
    secp256k1::PublicKey::from_slice(k).map(bitcoin::CompressedPublicKey).or_else(|_| bad("not a point"))
}

fn ecdsa_sig(v: &[u8]) -> R<ecdsa::Signature> {
    let Some((ht, der)) = v.split_last() else { return bad("empty signature") };
    let signature = secp256k1::ecdsa::Signature::from_der(der).or_else(|_| bad("not a DER signature"))?;
    let sighash_type = match ht {
        1 => EcdsaSighashType::All,
        2 => EcdsaSighashType::None,
        3 => EcdsaSighashType::Single,
        0x81 => EcdsaSighashType::AllPlusAnyoneCanPay,
        0x82 => EcdsaSighashType::NonePlusAnyoneCanPay,
        0x83 => EcdsaSighashType::SinglePlusAnyoneCanPay,
        _ => return odd("non-standard sighash type in a signature"),
    };
    if signature.serialize_der().as_ref() != der {
        return odd("DER with out of range numbers");
    }
    Ok(ecdsa::Signature { signature, sighash_type })
}

fn tap_sig(v: &[u8]) -> R<taproot::Signature> {
    let sighash_type = match (v.len(), v.last()) {
        (64, _) => TapSighashType::Default,
        (65, Some(1)) => TapSighashType::All,
        (65, Some(2)) => TapSighashType::None,
        (65, Some(3)) => TapSighashType::Single,
        (65, Some(0x81)) => TapSighashType::AllPlusAnyoneCanPay,
        (65, Some(0x82)) => TapSighashType::NonePlusAnyoneCanPay,
        (65, Some(0x83)) => TapSighashType::SinglePlusAnyoneCanPay,
        (65, Some(0)) => return odd("explicit default sighash type"),
        _ => return bad("taproot signature form"),
    };
    Ok(taproot::Signature { signature: schnorr::Signature::from_slice(&v[..64]).unwrap(), sighash_type })
}

fn take<'a>(b: &mut &'a [u8], n: u64) -> R<&'a [u8]> {
    if n > b.len() as u64 {
        return bad("too short");
    }
    let (x, r) = b.split_at(n as usize);
    *b = r;
    Ok(x)
}

fn csize(b: &mut &[u8]) -> R<u64> {
    match get_compact(b) {
        None => bad("truncated compact size"),
        Some((_, false)) => odd("non-minimal compact size"),
        Some((n, true)) => Ok(n),
    }
}

fn txout(v: &[u8]) -> R<TxOut> {
    let mut b = v;
    let value = u64::from_le_bytes(take(&mut b, 8)?.try_into().unwrap());
    let n = csize(&mut b)?;
    let sc = take(&mut b, n)?;
    if !b.is_empty() {
        return bad("trailing data");
    }
    Ok(TxOut { value: Amount::from_sat(value), script_pubkey: ScriptBuf::from(sc.to_vec()) })
}

fn witness(v: &[u8]) -> R<Witness> {
    let mut b = v;
    let n = csize(&mut b)?;
    let mut items: Vec<&[u8]> = vec![];
    for _ in 0..n {
        let l = csize(&mut b)?;
        items.push(take(&mut b, l)?);
    }
    if !b.is_empty() {
        return bad("trailing data");
    }
    Ok(Witness::from_slice(&items))
}

fn leaf_version(b: u8) -> R<LeafVersion> {
    if b & 1 == 1 || b == 0x50 {
        return bad("leaf version");
    }
    LeafVersion::from_consensus(b).or_else(|_| odd("leaf version"))
}

fn control_block(k: &[u8]) -> R<ControlBlock> {
    if k.len() < 33 || (k.len() - 33) % 32 != 0 || k.len() > 33 + 32 * 128 {
        return bad("control block length");
    }
    let nodes: Vec<TapNodeHash> = k[33..].chunks(32).map(|c| TapNodeHash::from_byte_array(c.try_into().unwrap())).collect();
    Ok(ControlBlock {
        leaf_version: leaf_version(k[0] & 0xfe)?,
        output_key_parity: if k[0] & 1 == 1 { secp256k1::Parity::Odd } else { secp256k1::Parity::Even },
        internal_key: xonly(&k[1..33])?,
        merkle_branch: bitcoin::taproot::TaprootMerkleBranch::try_from(nodes).or_else(|_| bad("too deep"))?,
    })
}

fn tap_origin(v: &[u8]) -> R<(Vec<TapLeafHash>, KeySource)> {
    let mut b = v;
    let n = csize(&mut b)?;
    if n > b.len() as u64 / 32 {
        return bad("too short");
    }
    let hs = take(&mut b, n * 32)?.chunks(32).map(|c| TapLeafHash::from_byte_array(c.try_into().unwrap())).collect();
    Ok((hs, key_source(b)?))
}

fn tap_tree(v: &[u8]) -> R<bitcoin::taproot::TapTree> {
    let mut b = v;
    let mut leaves = vec![];
    // Depths of the complete subtrees to the left, must collapse to a single one at depth 0.
    let mut stack: Vec<u8> = vec![];
    while !b.is_empty() {
        let depth = take(&mut b, 1)?[0];
        let ver = take(&mut b, 1)?[0];
        let n = csize(&mut b)?;
        let sc = ScriptBuf::from(take(&mut b, n)?.to_vec());
        if depth > 128 {
            return bad("tree too deep");
        }
        if stack.last().is_some_and(|d| *d > depth) || stack == [0] {
            return bad("tree not in depth first order");
        }
        let mut d = depth;
        while stack.last() == Some(&d) {
            if d == 0 {
                return bad("tree not in depth first order");
            }
            stack.pop();
            d -= 1;
        }
        stack.push(d);
        leaves.push((depth, sc, leaf_version(ver)?));
    }
    if stack != [0] {
        return bad("incomplete tree");
    }
    crate::gen::build_tree(&leaves).ok_or(E::Odd("the builder refuses this tree".into()))
}

fn prop_key(k: &[u8]) -> R<raw::ProprietaryKey> {
    let mut b = k;
    let n = csize(&mut b)?;
    let prefix = take(&mut b, n)?.to_vec();
    let subtype = take(&mut b, 1)?[0];
    if b.len() > 1024 {
        return odd("very long proprietary key");
    }
    Ok(raw::ProprietaryKey { prefix, subtype, key: b.to_vec() })
}

fn no_dups(m: &Map) -> R<()> {
    let mut seen = BTreeSet::new();
    for kv in m {
        if !seen.insert((kv.ty, &kv.key)) {
            return bad("duplicate key");
        }
    }
    Ok(())
}

fn global(m: &Map) -> R<Global> {
    // Malformed beats unsettled, so look at every pair before giving up.
    let mut g = Global::default();
    let mut unsettled: Option<E> = None;
    let (mut version, mut tx_version, mut ins, mut outs) = (None, None, None, None);
    for kv in m {
        let r: R<()> = (|| {
            let v = &kv.val[..];
            match kv.ty {
                0x00 => return bad("unsigned transaction in version 2"),
                0x01 => {
                    if kv.key.len() != 78 {
                        return bad("xpub length");
                    }
                    let x = Xpub::decode(&kv.key).or_else(|_| bad("xpub"))?;
                    let ks = key_source(v)?;
                    g.xpubs.insert(x, ks);
                }
                0x02 => {
                    nokey(kv)?;
                    tx_version = Some(u32v(v)? as i32);
                }
                0x03 => {
                    nokey(kv)?;
                    g.fallback_lock_time = Some(absolute::LockTime::from_consensus(u32v(v)?));
                }
                0x04 | 0x05 => {
                    nokey(kv)?;
                    // The BIP-375 vectors carry counts with bytes after the compact size.
                    let n = csize(&mut &v[..])?;
                    if kv.ty == 4 {
                        ins = Some(n);
                    } else {
                        outs = Some(n);
                    }
                }
                0x06 => {
                    nokey(kv)?;
                    if v.len() != 1 {
                        return bad("flags length");
                    }
                    g.tx_modifiable_flags = v[0];
                }
                #[cfg(feature = "sp")]
                0x07 => {
                    g.sp_ecdh_shares.insert(cpk(&kv.key)?, cpk(v)?);
                }
                #[cfg(feature = "sp")]
                0x08 => {
                    let p = <[u8; 64]>::try_from(v).or_else(|_| bad("proof length"))?;
                    g.sp_dleq_proofs.insert(cpk(&kv.key)?, psbt_v2::v2::DleqProof(p));
                }
                0xfb => {
                    nokey(kv)?;
                    if u32v(v)? != 2 {
                        return bad("version is not 2");
                    }
                    version = Some(2);
                }
                0xfc => {
                    g.proprietaries.insert(prop_key(&kv.key)?, v.to_vec());
                }
                t => {
                    g.unknowns.insert(raw::Key { type_value: t, key: kv.key.clone() }, v.to_vec());
                }
            }
            Ok(())
        })();
        match r {
            Err(E::Bad(e)) => return Err(E::Bad(e)),
            Err(e) => unsettled = Some(e),
            Ok(()) => {}
        }
    }
    if let Some(e) = unsettled {
        return Err(e);
    }
    no_dups(m)?;
    if version.is_none() {
        return bad("no version");
    }
    g.tx_version = transaction::Version(tx_version.ok_or(E::Bad("no transaction version".into()))?);
    g.input_count = ins.ok_or(E::Bad("no input count".into()))? as usize;
    g.output_count = outs.ok_or(E::Bad("no output count".into()))? as usize;
    #[cfg(feature = "sp")]
    if g.sp_ecdh_shares.is_empty() != g.sp_dleq_proofs.is_empty() {
        return bad("shares without proofs");
    }
    Ok(g)
}

/// Decodes an input map. With `v2` the outpoint is required and the version 2 fields are known.
fn input(m: &Map) -> R<Input> {
    let mut i = Input::new(&OutPoint { txid: Txid::all_zeros(), vout: 0 });
    let mut unsettled: Option<E> = None;
    let (mut have_txid, mut have_vout) = (false, false);
    for kv in m {
        let r: R<()> = (|| {
            let v = &kv.val[..];
            match kv.ty {
                0x00 => {
                    nokey(kv)?;
                    i.non_witness_utxo = Some(consensus::deserialize(v).or_else(|_| bad("not a transaction"))?);
                }
                0x01 => {
                    nokey(kv)?;
                    i.witness_utxo = Some(txout(v)?);
                }
                0x02 => {
                    i.partial_sigs.insert(ec_key(&kv.key)?, ecdsa_sig(v)?);
                }
                0x03 => {
                    nokey(kv)?;
                    i.sighash_type = Some(PsbtSighashType::from_u32(u32v(v)?));
                }
                0x04 => {
                    nokey(kv)?;
                    i.redeem_script = Some(ScriptBuf::from(v.to_vec()));
                }
                0x05 => {
                    nokey(kv)?;
                    i.witness_script = Some(ScriptBuf::from(v.to_vec()));
                }
                0x06 => {
                    let ks = key_source(v)?;
                    i.bip32_derivations.insert(secp_key(&kv.key)?, ks);
                }
                0x07 => {
                    nokey(kv)?;
                    i.final_script_sig = Some(ScriptBuf::from(v.to_vec()));
                }
                0x08 => {
                    nokey(kv)?;
                    i.final_script_witness = Some(witness(v)?);
                }
                0x0a => {
                    let h = ripemd160::Hash::from_byte_array(a20(&kv.key)?);
                    if ripemd160::Hash::hash(v) != h {
                        return bad("preimage");
                    }
                    i.ripemd160_preimages.insert(h, v.to_vec());
                }
                0x0b => {
                    let h = sha256::Hash::from_byte_array(a32(&kv.key)?);
                    if sha256::Hash::hash(v) != h {
                        return bad("preimage");
                    }
                    i.sha256_preimages.insert(h, v.to_vec());
                }
                0x0c => {
                    let h = hash160::Hash::from_byte_array(a20(&kv.key)?);
                    if hash160::Hash::hash(v) != h {
                        return bad("preimage");
                    }
                    i.hash160_preimages.insert(h, v.to_vec());
                }
                0x0d => {
                    let h = sha256d::Hash::from_byte_array(a32(&kv.key)?);
                    if sha256d::Hash::hash(v) != h {
                        return bad("preimage");
                    }
                    i.hash256_preimages.insert(h, v.to_vec());
                }
                0x0e => {
                    nokey(kv)?;
                    i.previous_txid = Txid::from_byte_array(a32(v)?);
                    have_txid = true;
                }
                0x0f => {
                    nokey(kv)?;
                    i.spent_output_index = u32v(v)?;
                    have_vout = true;
                }
                0x10 => {
                    nokey(kv)?;
                    i.sequence = Some(Sequence(u32v(v)?));
                }
                0x11 => {
                    nokey(kv)?;
                    let n = u32v(v)?;
                    if n < 500_000_000 {
                        return bad("time");
                    }
                    i.min_time = Some(Time::from_consensus(n).unwrap());
                }
                0x12 => {
                    nokey(kv)?;
                    let n = u32v(v)?;
                    if n >= 500_000_000 {
                        return bad("height");
                    }
                    i.min_height = Some(Height::from_consensus(n).unwrap());
                }
                0x13 => {
                    nokey(kv)?;
                    i.tap_key_sig = Some(tap_sig(v)?);
                }
                0x14 => {
                    if kv.key.len() != 64 {
                        return bad("key length");
                    }
                    let k = (xonly(&kv.key[..32])?, TapLeafHash::from_byte_array(a32(&kv.key[32..])?));
                    i.tap_script_sigs.insert(k, tap_sig(v)?);
                }
                0x15 => {
                    let Some((ver, sc)) = v.split_last() else { return bad("empty leaf script") };
                    let val = (ScriptBuf::from(sc.to_vec()), leaf_version(*ver)?);
                    i.tap_scripts.insert(control_block(&kv.key)?, val);
                }
                0x16 => {
                    i.tap_key_origins.insert(xonly(&kv.key)?, tap_origin(v)?);
                }
                0x17 => {
                    nokey(kv)?;
                    i.tap_internal_key = Some(xonly(v)?);
                }
                0x18 => {
                    nokey(kv)?;
                    i.tap_merkle_root = Some(TapNodeHash::from_byte_array(a32(v)?));
                }
                #[cfg(feature = "sp")]
                0x1d => {
                    i.sp_ecdh_shares.insert(cpk(&kv.key)?, cpk(v)?);
                }
                #[cfg(feature = "sp")]
                0x1e => {
                    let p = <[u8; 64]>::try_from(v).or_else(|_| bad("proof length"))?;
                    i.sp_dleq_proofs.insert(cpk(&kv.key)?, psbt_v2::v2::DleqProof(p));
                }
                0xfc => {
                    i.proprietaries.insert(prop_key(&kv.key)?, v.to_vec());
                }
                t => {
                    i.unknowns.insert(raw::Key { type_value: t, key: kv.key.clone() }, v.to_vec());
                }
            }
            Ok(())
        })();
        match r {
            Err(E::Bad(e)) => return Err(E::Bad(e)),
            Err(e) => unsettled = Some(e),
            Ok(()) => {}
        }
    }
    if let Some(e) = unsettled {
        return Err(e);
    }
    no_dups(m)?;
    if !have_txid || !have_vout {
        return bad("no outpoint");
    }
    #[cfg(feature = "sp")]
    if i.sp_ecdh_shares.is_empty() != i.sp_dleq_proofs.is_empty() {
        return bad("shares without proofs");
    }
    Ok(i)
}

fn output(m: &Map) -> R<Output> {
    let mut o = Output::new(TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::new() });
    let mut unsettled: Option<E> = None;
    let (mut amount, mut script) = (None, None);
    for kv in m {
        let r: R<()> = (|| {
            let v = &kv.val[..];
            match kv.ty {
                0x00 => {
                    nokey(kv)?;
                    o.redeem_script = Some(ScriptBuf::from(v.to_vec()));
                }
                0x01 => {
                    nokey(kv)?;
                    o.witness_script = Some(ScriptBuf::from(v.to_vec()));
                }
                0x02 => {
                    let ks = key_source(v)?;
                    o.bip32_derivations.insert(secp_key(&kv.key)?, ks);
                }
                0x03 => {
                    nokey(kv)?;
                    let a = <[u8; 8]>::try_from(v).or_else(|_| bad("amount length"))?;
                    amount = Some(u64::from_le_bytes(a));
                }
                0x04 => {
                    nokey(kv)?;
                    script = Some(ScriptBuf::from(v.to_vec()));
                }
                0x05 => {
                    nokey(kv)?;
                    o.tap_internal_key = Some(xonly(v)?);
                }
                0x06 => {
                    nokey(kv)?;
                    o.tap_tree = Some(tap_tree(v)?);
                }
                0x07 => {
                    o.tap_key_origins.insert(xonly(&kv.key)?, tap_origin(v)?);
                }
                #[cfg(feature = "sp")]
                0x09 => {
                    nokey(kv)?;
                    if v.len() != 66 {
                        return bad("silent payment info length");
                    }
                    o.sp_v0_info = Some(v.to_vec());
                }
                #[cfg(feature = "sp")]
                0x0a => {
                    nokey(kv)?;
                    o.sp_v0_label = Some(u32v(v)?);
                }
                0xfc => {
                    o.proprietaries.insert(prop_key(&kv.key)?, v.to_vec());
                }
                t => {
                    o.unknowns.insert(raw::Key { type_value: t, key: kv.key.clone() }, v.to_vec());
                }
            }
            Ok(())
        })();
        match r {
            Err(E::Bad(e)) => return Err(E::Bad(e)),
            Err(e) => unsettled = Some(e),
            Ok(()) => {}
        }
    }
    if let Some(e) = unsettled {
        return Err(e);
    }
    no_dups(m)?;
    o.amount = Amount::from_sat(amount.ok_or(E::Bad("no amount".into()))?);
    #[cfg(not(feature = "sp"))]
    let script_needed = true;
    #[cfg(feature = "sp")]
    let script_needed = {
        if o.sp_v0_label.is_some() && o.sp_v0_info.is_none() {
            return bad("label without info");
        }
        o.sp_v0_info.is_none()
    };
    match script {
        Some(s) => o.script_pubkey = s,
        None if script_needed => return bad("no script"),
        None => {}
    }
    Ok(o)
}

/// What the BIPs say about these bytes as a version 2 PSBT.
pub fn decode(b: &[u8]) -> Outcome {
    if b.len() < 5 || b[..5] != MAGIC {
        return Outcome::Reject("magic".into());
    }
    let mut r = &b[5..];
    // A malformed pair anywhere makes the whole malformed, an unsettled one leaves it open. Once
    // something is unsettled the rest cannot be relied upon to settle it.
    macro_rules! map {
        ($f:expr) => {
            match get_map(&mut r) {
                MapRead::Bad(e) => return Outcome::Reject(e.into()),
                MapRead::Odd(e) => return Outcome::Either(e.into()),
                MapRead::Ok(m) => match $f(&m) {
                    Ok(v) => v,
                    Err(E::Bad(e)) => return Outcome::Reject(e),
                    Err(E::Odd(e)) => return Outcome::Either(e),
                },
            }
        };
    }
    let g = map!(global);
    let mut inputs = vec![];
    for _ in 0..g.input_count {
        inputs.push(map!(input));
    }
    let mut outputs = vec![];
    for _ in 0..g.output_count {
        outputs.push(map!(output));
    }
    if !r.is_empty() {
        return Outcome::Either("data after the last map".into());
    }
    Outcome::Accept(Box::new(Psbt { global: g, inputs, outputs }))
}

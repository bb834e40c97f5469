//! Conversions between the v0 module's types and rust-bitcoin's, field by field.

use std::collections::BTreeMap;

use bitcoin::psbt as up;
use psbt_v2::v0::bitcoin as v0;
use psbt_v2::v2;
use psbt_v2::PsbtSighashType;

pub fn key_up(k: &v0::raw::Key) -> up::raw::Key { up::raw::Key { type_value: k.type_value, key: k.key.clone() } }
pub fn prop_up(k: &v0::raw::ProprietaryKey) -> up::raw::ProprietaryKey {
    up::raw::ProprietaryKey { prefix: k.prefix.clone(), subtype: k.subtype, key: k.key.clone() }
}
pub fn key_down(k: &up::raw::Key) -> v0::raw::Key { v0::raw::Key { type_value: k.type_value, key: k.key.clone() } }
pub fn prop_down(k: &up::raw::ProprietaryKey) -> v0::raw::ProprietaryKey {
    v0::raw::ProprietaryKey { prefix: k.prefix.clone(), subtype: k.subtype, key: k.key.clone() }
}

fn remap<A: Ord, B: Ord, V: Clone>(m: &BTreeMap<A, V>, f: impl Fn(&A) -> B) -> BTreeMap<B, V> { m.iter().map(|(k, v)| (f(k), v.clone())).collect() }

macro_rules! same_input {
    ($i:ident, $ty:path, $sh:expr, $pk:expr, $k:expr) => {{
        $ty {
            non_witness_utxo: $i.non_witness_utxo.clone(),
            witness_utxo: $i.witness_utxo.clone(),
            partial_sigs: $i.partial_sigs.clone(),
            sighash_type: $i.sighash_type.map($sh),
            redeem_script: $i.redeem_script.clone(),
            witness_script: $i.witness_script.clone(),
            bip32_derivation: $i.bip32_derivation.clone(),
            final_script_sig: $i.final_script_sig.clone(),
            final_script_witness: $i.final_script_witness.clone(),
            ripemd160_preimages: $i.ripemd160_preimages.clone(),
            sha256_preimages: $i.sha256_preimages.clone(),
            hash160_preimages: $i.hash160_preimages.clone(),
            hash256_preimages: $i.hash256_preimages.clone(),
            tap_key_sig: $i.tap_key_sig.clone(),
            tap_script_sigs: $i.tap_script_sigs.clone(),
            tap_scripts: $i.tap_scripts.clone(),
            tap_key_origins: $i.tap_key_origins.clone(),
            tap_internal_key: $i.tap_internal_key,
            tap_merkle_root: $i.tap_merkle_root,
            proprietary: remap(&$i.proprietary, $pk),
            unknown: remap(&$i.unknown, $k),
        }
    }};
}

macro_rules! same_output {
    ($o:ident, $ty:path, $pk:expr, $k:expr) => {{
        $ty {
            redeem_script: $o.redeem_script.clone(),
            witness_script: $o.witness_script.clone(),
            bip32_derivation: $o.bip32_derivation.clone(),
            tap_internal_key: $o.tap_internal_key,
            tap_tree: $o.tap_tree.clone(),
            tap_key_origins: $o.tap_key_origins.clone(),
            proprietary: remap(&$o.proprietary, $pk),
            unknown: remap(&$o.unknown, $k),
        }
    }};
}

pub fn input_up(i: &v0::Input) -> up::Input { same_input!(i, up::Input, |t| up::PsbtSighashType::from_u32(t.to_u32()), prop_up, key_up) }
pub fn input_down(i: &up::Input) -> v0::Input { same_input!(i, v0::Input, |t| PsbtSighashType::from_u32(t.to_u32()), prop_down, key_down) }
pub fn output_up(o: &v0::Output) -> up::Output { same_output!(o, up::Output, prop_up, key_up) }
pub fn output_down(o: &up::Output) -> v0::Output { same_output!(o, v0::Output, prop_down, key_down) }

pub fn up(p: &v0::Psbt) -> up::Psbt {
    up::Psbt {
        unsigned_tx: p.unsigned_tx.clone(),
        version: p.version,
        xpub: p.xpub.clone(),
        proprietary: remap(&p.proprietary, prop_up),
        unknown: remap(&p.unknown, key_up),
        inputs: p.inputs.iter().map(input_up).collect(),
        outputs: p.outputs.iter().map(output_up).collect(),
    }
}

pub fn down(p: &up::Psbt) -> v0::Psbt {
    v0::Psbt {
        unsigned_tx: p.unsigned_tx.clone(),
        version: p.version,
        xpub: p.xpub.clone(),
        proprietary: remap(&p.proprietary, prop_down),
        unknown: remap(&p.unknown, key_down),
        inputs: p.inputs.iter().map(input_down).collect(),
        outputs: p.outputs.iter().map(output_down).collect(),
    }
}

/// The v0 PSBT with the data of a v2 one that both formats have.
pub fn from_v2(tx: &bitcoin::Transaction, p: &v2::Psbt) -> v0::Psbt {
    let pk = |m: &BTreeMap<psbt_v2::raw::ProprietaryKey, Vec<u8>>| {
        remap(m, |k| v0::raw::ProprietaryKey { prefix: k.prefix.clone(), subtype: k.subtype, key: k.key.clone() })
    };
    let uk = |m: &BTreeMap<psbt_v2::raw::Key, Vec<u8>>| remap(m, |k| v0::raw::Key { type_value: k.type_value, key: k.key.clone() });
    v0::Psbt {
        unsigned_tx: tx.clone(),
        version: 0,
        xpub: p.global.xpubs.clone(),
        proprietary: pk(&p.global.proprietaries),
        unknown: uk(&p.global.unknowns),
        inputs: p
            .inputs
            .iter()
            .map(|i| v0::Input {
                non_witness_utxo: i.non_witness_utxo.clone(),
                witness_utxo: i.witness_utxo.clone(),
                partial_sigs: i.partial_sigs.clone(),
                sighash_type: i.sighash_type,
                redeem_script: i.redeem_script.clone(),
                witness_script: i.witness_script.clone(),
                bip32_derivation: i.bip32_derivations.clone(),
                final_script_sig: i.final_script_sig.clone(),
                final_script_witness: i.final_script_witness.clone(),
                ripemd160_preimages: i.ripemd160_preimages.clone(),
                sha256_preimages: i.sha256_preimages.clone(),
                hash160_preimages: i.hash160_preimages.clone(),
                hash256_preimages: i.hash256_preimages.clone(),
                tap_key_sig: i.tap_key_sig,
                tap_script_sigs: i.tap_script_sigs.clone(),
                tap_scripts: i.tap_scripts.clone(),
                tap_key_origins: i.tap_key_origins.clone(),
                tap_internal_key: i.tap_internal_key,
                tap_merkle_root: i.tap_merkle_root,
                proprietary: pk(&i.proprietaries),
                unknown: uk(&i.unknowns),
            })
            .collect(),
        outputs: p
            .outputs
            .iter()
            .map(|o| v0::Output {
                redeem_script: o.redeem_script.clone(),
                witness_script: o.witness_script.clone(),
                bip32_derivation: o.bip32_derivations.clone(),
                tap_internal_key: o.tap_internal_key,
                tap_tree: o.tap_tree.clone(),
                tap_key_origins: o.tap_key_origins.clone(),
                proprietary: pk(&o.proprietaries),
                unknown: uk(&o.unknowns),
            })
            .collect(),
    }
}

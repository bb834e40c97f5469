//! C02: every role handles every decodable PSBT without crashing.

use std::collections::BTreeMap;
use std::str::FromStr;

use bitcoin::opcodes::all as op;
use bitcoin::script::{Builder, PushBytesBuf};
use bitcoin::secp256k1::{Secp256k1, Signing};
use bitcoin::sighash::{EcdsaSighashType, SighashCache};
use bitcoin::taproot::{LeafVersion, TapLeafHash, TaprootBuilder};
use bitcoin::{Amount, FeeRate, PrivateKey, PublicKey, ScriptBuf, Sequence, TxOut, Witness};
use psbt_v2::v0::bitcoin as v0;
use psbt_v2::v0::miniscript::{self as vmp, PsbtExt as _, PsbtInputExt as _, PsbtOutputExt as _};
use psbt_v2::v2::{self, Psbt};
use psbt_v2::PsbtSighashType;

use super::c01::{render, well_formed};
use super::c11::{store, Store};
use super::c14::{fault, tx_of};
use super::c22::any_descriptor;
use crate::engine::{fail, last_panic, Ctx, Prop, Res};
use crate::keys::{masters, pool, secp};
use crate::source::Src;
use crate::wallet::{self, kref, Kind, Spend, KINDS, NK};
use crate::{gen, kv, model2, mutate, up as conv};

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        dual: true,
        quick: 400_000,
        thorough: 6_000_000,
        rule: "PSBTs of both versions that decode: spends of every output type with their data and up to four faults, hostile scripts and leaves whose hashes match their funding, fields and inputs out of place, output indices out of range, extreme amounts, counts and types, final fields from elsewhere, random typed PSBTs, and key-value mutations of all of them; then one to eight steps of any role, in any order, with key stores of every kind, each PSBT that results being encoded and decoded; non-trivial when the PSBT decodes and a role accepts or refuses it after construction",
        assumptions: &["a sighash cache is used for the transaction of the PSBT", "a case that does not end within 100 s counts as a crash"],
        run,
    }
}

/// Runs a role. A panic is told by the step and, when it comes from a dependency, by the place there.
fn calm<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => {
            let p = last_panic();
            let place = p.strip_prefix("panicked at ").and_then(|p| p.split(": ").next()).unwrap_or("");
            let place = place.split("/registry/src/").nth(1).and_then(|p| p.split_once('/')).map(|p| format!(" at {}", p.1));
            fail(format!("panic in {}{}", what, place.unwrap_or_default()), p)
        }
    }
}

/// Something like a script.
pub fn wild_script(s: &mut Src) -> ScriptBuf {
    let ops = [
        op::OP_CHECKSIG, op::OP_CHECKSIGVERIFY, op::OP_CHECKMULTISIG, op::OP_CHECKMULTISIGVERIFY, op::OP_CHECKSIGADD,
        op::OP_IF, op::OP_NOTIF, op::OP_ELSE, op::OP_ENDIF, op::OP_VERIFY, op::OP_EQUAL, op::OP_EQUALVERIFY, op::OP_DUP,
        op::OP_HASH160, op::OP_SHA256, op::OP_HASH256, op::OP_RIPEMD160, op::OP_SIZE, op::OP_CLTV, op::OP_CSV,
        op::OP_BOOLAND, op::OP_BOOLOR, op::OP_ADD, op::OP_SWAP, op::OP_TOALTSTACK, op::OP_FROMALTSTACK, op::OP_IFDUP,
        op::OP_0NOTEQUAL, op::OP_CODESEPARATOR, op::OP_RETURN, op::OP_DROP, op::OP_NUMEQUAL, op::OP_NUMEQUALVERIFY,
    ];
    let mut b = Builder::new();
    if s.chance(1, 60) {
        // Something very deep or very long.
        let n = s.us(5000);
        let x = *s.pick(&[op::OP_0NOTEQUAL, op::OP_SIZE, op::OP_IF, op::OP_ADD, op::OP_BOOLAND, op::OP_DUP, op::OP_SWAP]);
        let pk = kref(wallet::key(s)).comp();
        b = b.push_key(&pk).push_opcode(op::OP_CHECKSIG);
        for _ in 0..n {
            if x == op::OP_ADD || x == op::OP_BOOLAND {
                b = b.push_opcode(op::OP_SWAP).push_key(&pk).push_opcode(op::OP_CHECKSIG);
            }
            b = b.push_opcode(x);
        }
        return b.into_script();
    }
    for _ in 0..s.us(12) {
        b = match s.u(8) {
            0 => b.push_key(&kref(wallet::key(s)).comp()),
            1 => b.push_x_only_key(&kref(wallet::key(s)).x),
            2 => {
                let n = *s.pick(&[20usize, 32, 33, 65, 5, 4, 1]);
                b.push_slice(PushBytesBuf::try_from(s.bytes(n)).unwrap())
            }
            3 => b.push_int(s.u(40) as i64 - 2),
            4 => b.push_int(s.u32_edge() as i64),
            _ => b.push_opcode(*s.pick(&ops)),
        };
    }
    b.into_script()
}

/// A script for an input: wild, or of a coin and damaged.
fn hostile_script(s: &mut Src, sp: &Spend) -> ScriptBuf {
    let mut b = match s.u(4) {
        0 => return wild_script(s),
        1 => {
            let c = wallet::coin(s, &sp.env, &KINDS);
            c.witness_script.clone().or(c.redeem.clone()).or_else(|| c.tap.as_ref().and_then(|t| t.leaves.first().map(|l| l.1.clone()))).unwrap_or(c.spk.clone())
        }
        _ => {
            let c = &sp.coins[s.us(sp.coins.len())];
            c.witness_script.clone().or(c.redeem.clone()).or_else(|| c.tap.as_ref().and_then(|t| t.leaves.first().map(|l| l.1.clone()))).unwrap_or(c.spk.clone())
        }
    }
    .into_bytes();
    for _ in 0..s.u(3) {
        mutate::mutate_raw(s, &mut b);
    }
    b.truncate(12_000);
    b.into()
}

/// Changes the coin of an input to one with a hostile script; the signatures stay.
fn hostile(s: &mut Src, sp: &Spend, p: &mut Psbt) -> &'static str {
    let at = s.us(p.inputs.len());
    let sc = hostile_script(s, sp);
    let inp = &mut p.inputs[at];
    inp.redeem_script = None;
    inp.witness_script = None;
    let (spk, what) = match s.u(5) {
        0 => {
            inp.witness_script = Some(sc.clone());
            (sc.to_p2wsh(), "hostile wsh")
        }
        1 => {
            inp.redeem_script = Some(sc.clone());
            (sc.to_p2sh(), "hostile sh")
        }
        2 => {
            inp.witness_script = Some(sc.clone());
            inp.redeem_script = Some(sc.to_p2wsh());
            (sc.to_p2wsh().to_p2sh(), "hostile sh wsh")
        }
        3 => (sc, "hostile bare"),
        _ => {
            let k = wallet::key(s);
            let Ok(b) = TaprootBuilder::new().add_leaf(0, sc.clone()) else { return "none" };
            let Ok(t) = b.finalize(secp(), kref(k).x) else { return "none" };
            let Some(cb) = t.control_block(&(sc.clone(), LeafVersion::TapScript)) else { return "none" };
            let leaf = TapLeafHash::from_script(&sc, LeafVersion::TapScript);
            inp.tap_internal_key = Some(kref(k).x);
            inp.tap_scripts.insert(cb, (sc.clone(), LeafVersion::TapScript));
            // Someone's signatures for the leaf.
            for _ in 0..s.us(4) {
                let x = kref(wallet::key(s)).x;
                let g = gen::tap_sig(s);
                inp.tap_script_sigs.insert((x, leaf), g);
                inp.tap_key_origins.insert(x, (vec![leaf], crate::keys::key_source(s)));
            }
            if s.bool() {
                inp.tap_key_sig = None;
            }
            (ScriptBuf::new_p2tr_tweaked(t.output_key()), "hostile leaf")
        }
    };
    for _ in 0..s.us(4) {
        let k = kref(s.us(NK));
        let pk = if s.chance(1, 4) { k.uncomp() } else { k.comp() };
        inp.partial_sigs.insert(pk, gen::ecdsa_sig(s));
    }
    let at_most = inp.spent_output_index as usize;
    if let Some(o) = &mut inp.witness_utxo {
        o.script_pubkey = spk;
    } else if let Some(o) = inp.non_witness_utxo.as_mut().and_then(|t| t.output.get_mut(at_most)) {
        o.script_pubkey = spk;
    } else {
        inp.witness_utxo = Some(TxOut { value: gen::amount(s), script_pubkey: spk });
    }
    what
}

/// Puts something out of place.
fn misplace(s: &mut Src, p: &mut Psbt) -> &'static str {
    let n = p.inputs.len();
    if n == 0 {
        return "none";
    }
    let at = s.us(n);
    match s.u(22) {
        0 => {
            p.inputs[at].spent_output_index = s.u32_edge();
            "output index"
        }
        1 => {
            if let Some(t) = &mut p.inputs[at].non_witness_utxo {
                let k = s.us(t.output.len() + 1);
                t.output.truncate(k);
            }
            "missing outputs"
        }
        2 => {
            p.inputs[at].witness_utxo = None;
            p.inputs[at].non_witness_utxo = None;
            "no funding"
        }
        3 => {
            p.inputs[at].witness_utxo = Some(gen::txout(s));
            "any funding"
        }
        4 => {
            p.inputs[at].non_witness_utxo = Some(gen::tx(s));
            p.inputs[at].witness_utxo = None;
            "any transaction"
        }
        5 => {
            p.inputs[at].redeem_script = Some(if s.bool() { gen::script(s) } else { wild_script(s) });
            "redeem script"
        }
        6 => {
            p.inputs[at].witness_script = Some(if s.bool() { gen::script(s) } else { wild_script(s) });
            "witness script"
        }
        7 => {
            p.inputs[at].sighash_type = Some(PsbtSighashType::from_u32(gen::sighash_u32(s)));
            "sighash type"
        }
        8 => {
            for o in &mut p.outputs {
                o.amount = gen::amount(s);
            }
            "amounts of outputs"
        }
        9 => {
            let a = Amount::from_sat(*s.pick(&[0, u64::MAX, u64::MAX / 2 + 1, i64::MAX as u64, 21_000_000 * 100_000_000, u64::MAX / 1000 + 1]));
            if let Some(o) = &mut p.inputs[at].witness_utxo {
                o.value = a;
            }
            if let Some(o) = p.inputs[at].non_witness_utxo.as_mut().and_then(|t| t.output.get_mut(0)) {
                o.value = a;
            }
            "amounts of funding"
        }
        10 => {
            p.outputs.clear();
            p.global.output_count = 0;
            "no outputs"
        }
        11 => {
            p.inputs[at].min_time = s.bool().then(|| gen::time(s));
            p.inputs[at].min_height = s.bool().then(|| gen::height(s));
            "lock times"
        }
        12 => {
            p.inputs[at].final_script_sig = s.bool().then(|| if s.bool() { ScriptBuf::new() } else { wild_script(s) });
            p.inputs[at].final_script_witness = s.bool().then(|| {
                if s.bool() {
                    gen::witness(s)
                } else {
                    let sc = wild_script(s).into_bytes();
                    let mut v: Vec<Vec<u8>> = (0..s.us(4)).map(|_| if s.bool() { gen::ecdsa_sig(s).to_vec() } else { gen::blob(s) }).collect();
                    v.push(sc);
                    if s.bool() {
                        v.push(gen::control_block(s).serialize());
                    }
                    Witness::from_slice(&v)
                }
            });
            "final fields"
        }
        13 => {
            for i in &mut p.inputs {
                if i.final_script_sig.is_none() {
                    i.final_script_sig = Some(ScriptBuf::new());
                }
                if i.final_script_witness.is_none() {
                    i.final_script_witness = Some(Witness::new());
                }
            }
            "all final"
        }
        14 => {
            let d = s.u(9);
            gen::fill_input_common(s, &mut p.inputs[at], d);
            "any fields"
        }
        15 => {
            let i = p.inputs[at].clone();
            p.inputs.push(i);
            p.global.input_count += 1;
            "input twice"
        }
        16 => {
            p.inputs.clear();
            p.global.input_count = 0;
            "no inputs"
        }
        17 => {
            p.global.tx_modifiable_flags = s.raw() as u8;
            "flags"
        }
        18 => {
            let m = std::mem::take(&mut p.inputs[at].tap_scripts);
            for (_, x) in m {
                let cb = gen::control_block(s);
                p.inputs[at].tap_scripts.insert(cb, x);
            }
            "control blocks"
        }
        19 => {
            // Derivations of all kinds of depth for the keys that are there.
            for v in p.inputs[at].bip32_derivations.values_mut() {
                v.1 = crate::keys::path(s);
                if s.bool() {
                    v.0 = masters()[s.us(4)].fingerprint(secp());
                }
            }
            "derivations"
        }
        20 => {
            let o = s.us(n);
            let other = p.inputs[o].clone();
            let i = &mut p.inputs[at];
            i.witness_utxo = other.witness_utxo;
            i.non_witness_utxo = other.non_witness_utxo;
            "funding of another"
        }
        _ => {
            p.inputs[at].sequence = Some(Sequence(s.u32_edge()));
            "sequence"
        }
    }
}

/// Answers every request, mostly not as asked.
struct Anything(u64);
impl Anything {
    fn key(&self) -> PrivateKey { pool()[self.0 as usize % pool().len()].priv_for(self.0 & 64 == 0) }
}
impl v2::GetKey for Anything {
    type Error = String;
    fn get_key<C: Signing>(&self, r: v2::KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, String> {
        match r {
            v2::KeyRequest::Bip32(_) if self.0 & 128 == 0 => Ok(None),
            _ => Ok(Some(self.key())),
        }
    }
}
impl v0::GetKey for Anything {
    type Error = String;
    fn get_key<C: Signing>(&self, r: v0::KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, String> {
        match r {
            v0::KeyRequest::Bip32(_) if self.0 & 128 == 0 => Ok(None),
            _ => Ok(Some(self.key())),
        }
    }
}

enum Keys {
    Of(Store),
    All(BTreeMap<PublicKey, PrivateKey>),
    Xpriv(usize),
    Any(Anything),
}

fn keys(s: &mut Src, sp: Option<&Spend>) -> Keys {
    match s.u(5) {
        0 => Keys::Any(Anything(s.raw())),
        1 => Keys::Xpriv(s.us(4)),
        2 | 3 if sp.is_some() => Keys::Of(store(s, sp.unwrap())),
        _ => Keys::All((0..NK).map(|k| (kref(k).comp(), kref(k).priv_comp())).collect()),
    }
}

/// The errors of a map, which have no common trait object.
fn each<E: std::error::Error>(m: &BTreeMap<usize, E>) -> Res {
    m.values().try_for_each(|e| render(e))
}

fn reread2(what: &str, p: &Psbt) -> Res {
    let b = calm("encode v2", || p.serialize())?;
    if let Err(e) = calm("decode v2 again", || Psbt::deserialize(&b))? {
        render(&e)?;
    }
    let _ = what;
    calm("text v2", || {
        let t = p.to_string();
        let _ = p.serialize_hex();
        let _ = format!("{:?}", p);
        Psbt::from_str(&t).map(|_| ()).map_err(|e| e.to_string())
    })?
    .ok();
    Ok(())
}

fn reread0(p: &v0::Psbt) -> Res {
    let b = calm("encode v0", || p.serialize())?;
    if let Err(e) = calm("decode v0 again", || v0::Psbt::deserialize(&b))? {
        render(&e)?;
    }
    calm("text v0", || {
        let t = p.to_string();
        let _ = p.serialize_hex();
        let _ = format!("{:?}", p);
        v0::Psbt::from_str(&t).map(|_| ()).map_err(|e| e.to_string())
    })?
    .ok();
    Ok(())
}

macro_rules! told {
    ($ctx:expr, $what:expr, $r:expr) => {
        match calm($what, || $r)? {
            Ok(x) => {
                $ctx.class(concat!($what, ": done"));
                Some(x)
            }
            Err(e) => {
                $ctx.class(concat!($what, ": refused"));
                render(&e)?;
                None
            }
        }
    };
}

fn index(s: &mut Src, n: usize) -> usize {
    match s.u(12) {
        0 => n,
        1 => *s.pick(&[usize::MAX, n + 1, u32::MAX as usize]),
        _ => s.us(n.max(1)),
    }
}

/// One step of any role; the PSBT that results, if any.
fn step2(s: &mut Src, ctx: &mut Ctx, p: &Psbt, other: &Psbt, sp: Option<&Spend>) -> Res<Option<Psbt>> {
    let n = p.inputs.len();
    Ok(match s.u(13) {
        0 => {
            let up = told!(ctx, "Updater::new", v2::Updater::new(p.clone()));
            match up {
                Some(u) => {
                    calm("Updater::id", || u.id())?;
                    let (q, i) = (Sequence(s.u32_edge()), index(s, n));
                    told!(ctx, "set_sequence", u.set_sequence(q, i)).map(|u| u.psbt())
                }
                None => None,
            }
        }
        1 | 2 => {
            let g = told!(ctx, "Signer::new", v2::Signer::new(p.clone()));
            let Some(mut g) = g else { return Ok(None) };
            let _ = told!(ctx, "Signer::id", g.id());
            calm("unsigned_tx", || g.unsigned_tx())?;
            if s.chance(1, 6) {
                let t = EcdsaSighashType::from_consensus(gen::sighash_u32(s));
                calm("ecdsa_clear_tx_modifiable", || g.ecdsa_clear_tx_modifiable(t))?;
            }
            let r = calm("sign v2", || match keys(s, sp) {
                Keys::Of(k) => g.sign(&k, secp()),
                Keys::All(k) => g.sign(&k, secp()),
                Keys::Xpriv(k) => g.sign(&masters()[k], secp()),
                Keys::Any(k) => g.sign(&k, secp()),
            })?;
            match r {
                Ok((q, u)) => {
                    ctx.class(if u.is_empty() { "sign v2: nothing" } else { "sign v2: done" });
                    Some(q)
                }
                Err((_, e)) => {
                    ctx.class("sign v2: refused");
                    each(&e)?;
                    None
                }
            }
        }
        3 => {
            if s.bool() {
                told!(ctx, "combine v2", v2::combine(p.clone(), other.clone()))
            } else {
                told!(ctx, "combine v2", other.clone().combine_with(p.clone()))
            }
        }
        4 => {
            let _ = told!(ctx, "fee v2", p.fee());
            let _ = told!(ctx, "determine_lock_time", p.determine_lock_time());
            for u in calm("iter_funding_utxos v2", || p.iter_funding_utxos().map(|r| r.map(|_| ())).collect::<Vec<_>>())? {
                if let Err(e) = u {
                    render(&e)?;
                }
            }
            for i in &p.inputs {
                let _ = told!(ctx, "ecdsa_hash_ty v2", i.ecdsa_hash_ty());
                let _ = told!(ctx, "taproot_hash_ty v2", i.taproot_hash_ty());
                calm("is_finalized", || i.is_finalized())?;
            }
            None
        }
        5 => {
            // The transaction is as unknown to the signer as the PSBT.
            if let Ok(g) = v2::Signer::new(p.clone()) {
                let tx = g.unsigned_tx();
                let mut c = SighashCache::new(&tx);
                for i in 0..n {
                    let _ = told!(ctx, "sighash_ecdsa v2", p.sighash_ecdsa(i, &mut c));
                }
                let i = n + s.us(2);
                let _ = told!(ctx, "sighash_ecdsa v2", p.sighash_ecdsa(i, &mut c));
            }
            None
        }
        6 | 7 | 8 => {
            let f = told!(ctx, "Finalizer::new", v2::Finalizer::new(p.clone()));
            let Some(f) = f else { return Ok(None) };
            calm("Finalizer::id", || f.id())?;
            told!(ctx, "finalize v2", f.finalize(secp()))
        }
        9 => {
            let e = told!(ctx, "Extractor::new", v2::Extractor::new(p.clone()));
            let Some(e) = e else { return Ok(None) };
            calm("Extractor::id", || e.id())?;
            let _ = told!(ctx, "extract_tx v2", e.extract_tx());
            let _ = told!(ctx, "extract_tx v2", e.extract_tx_fee_rate_limit());
            let r = FeeRate::from_sat_per_kwu(s.u64_edge());
            let _ = told!(ctx, "extract_tx v2", e.extract_tx_with_fee_rate_limit(r));
            let _ = told!(ctx, "extract_tx unchecked v2", e.extract_tx_unchecked_fee_rate());
            None
        }
        10 => {
            let o = v2::Output::new(gen::txout(s));
            let i = v2::Input::new(&gen::outpoint(s));
            match s.u(3) {
                0 => match told!(ctx, "Constructor", v2::Constructor::<v2::Modifiable>::new(p.clone())) {
                    Some(mut c) => {
                        if s.bool() {
                            c = c.input(i);
                        }
                        if s.bool() {
                            c = c.output(o);
                        }
                        if s.chance(1, 3) {
                            c = c.no_more_inputs();
                        }
                        if s.chance(1, 3) {
                            c = c.no_more_outputs();
                        }
                        told!(ctx, "Constructor::psbt", c.psbt())
                    }
                    None => None,
                },
                1 => match told!(ctx, "Constructor", v2::Constructor::<v2::InputsOnlyModifiable>::new(p.clone())) {
                    Some(c) => told!(ctx, "Constructor::updater", c.input(i).updater()).map(|u| u.psbt()),
                    None => None,
                },
                _ => match told!(ctx, "Constructor", v2::Constructor::<v2::OutputsOnlyModifiable>::new(p.clone())) {
                    Some(c) => told!(ctx, "Constructor::psbt", c.output(o).psbt()),
                    None => None,
                },
            }
        }
        11 => {
            // Finalized inputs are what the check is for.
            if p.is_finalized() {
                let _ = told!(ctx, "interpreter_check v2", p.interpreter_check(secp()));
            }
            None
        }
        _ => {
            // The PSBT of another role's text.
            let j = serde_json::to_vec(p).ok();
            match j {
                Some(j) => match calm("from json", || serde_json::from_slice::<Psbt>(&j))? {
                    Ok(q) => Some(q),
                    Err(e) => {
                        render(&e)?;
                        None
                    }
                },
                None => None,
            }
        }
    })
}

fn vmp_errors(e: &[vmp::Error]) -> Res { e.iter().try_for_each(|e| render(e)) }

fn step0(s: &mut Src, ctx: &mut Ctx, p: &v0::Psbt, other: &v0::Psbt, sp: Option<&Spend>) -> Res<Option<v0::Psbt>> {
    let n = p.inputs.len();
    let mut q = p.clone();
    Ok(match s.u(16) {
        0 | 1 => {
            let r = calm("sign v0", || match keys(s, sp) {
                Keys::Of(k) => q.sign(&k, secp()),
                Keys::All(k) => q.sign(&k, secp()),
                Keys::Xpriv(k) => q.sign(&masters()[k], secp()),
                Keys::Any(k) => q.sign(&k, secp()),
            })?;
            match r {
                Ok(_) => ctx.class("sign v0: done"),
                Err((_, e)) => {
                    ctx.class("sign v0: refused");
                    each(&e)?;
                }
            }
            Some(q)
        }
        2 => {
            if s.bool() {
                let _ = told!(ctx, "combine v0", q.combine(other.clone()));
            } else {
                let mut o = other.clone();
                let _ = told!(ctx, "combine v0", o.combine(p.clone()));
                q = o;
            }
            Some(q)
        }
        3 => {
            let _ = told!(ctx, "fee v0", p.fee());
            let _ = told!(ctx, "signer_checks", p.signer_checks());
            for u in calm("iter_funding_utxos v0", || p.iter_funding_utxos().map(|r| r.map(|_| ())).collect::<Vec<_>>())? {
                if let Err(e) = u {
                    render(&e)?;
                }
            }
            for i in 0..n {
                let _ = told!(ctx, "spend_utxo", p.spend_utxo(i).map(|_| ()));
                let _ = told!(ctx, "ecdsa_hash_ty v0", p.inputs[i].ecdsa_hash_ty());
                let _ = told!(ctx, "taproot_hash_ty v0", p.inputs[i].taproot_hash_ty());
            }
            let i = n + s.us(3);
            let _ = told!(ctx, "spend_utxo", p.spend_utxo(i).map(|_| ()));
            None
        }
        4 => {
            let mut c = SighashCache::new(&p.unsigned_tx);
            for i in 0..n {
                let _ = told!(ctx, "sighash_ecdsa v0", p.sighash_ecdsa(i, &mut c));
                let leaf = s.bool().then(|| TapLeafHash::from_script(&gen::script(s), LeafVersion::TapScript));
                if let Some(m) = told!(ctx, "sighash_msg", p.sighash_msg(i, &mut c, leaf)) {
                    calm("to_secp_msg", || m.to_secp_msg())?;
                }
            }
            let i = index(s, n);
            let _ = told!(ctx, "sighash_ecdsa v0", p.sighash_ecdsa(i, &mut c));
            let _ = told!(ctx, "sighash_msg", p.sighash_msg(i, &mut c, None));
            None
        }
        5 => {
            let r = match s.u(4) {
                0 => calm("finalize_mut", || q.finalize_mut(secp()))?,
                1 => calm("finalize_mall_mut", || q.finalize_mall_mut(secp()))?,
                2 => match calm("finalize v0", || q.finalize(secp()))? {
                    Ok(x) => {
                        q = x;
                        Ok(())
                    }
                    Err((x, e)) => {
                        q = x;
                        Err(e)
                    }
                },
                _ => match calm("finalize_mall v0", || q.finalize_mall(secp()))? {
                    Ok(x) => {
                        q = x;
                        Ok(())
                    }
                    Err((x, e)) => {
                        q = x;
                        Err(e)
                    }
                },
            };
            match r {
                Ok(()) => ctx.class("finalize v0: done"),
                Err(e) => {
                    ctx.class("finalize v0: refused");
                    vmp_errors(&e)?;
                }
            }
            Some(q)
        }
        6 => {
            let i = index(s, n);
            match s.u(4) {
                0 => {
                    let _ = told!(ctx, "finalize_inp_mut", q.finalize_inp_mut(secp(), i));
                }
                1 => {
                    let _ = told!(ctx, "finalize_inp_mall_mut", q.finalize_inp_mall_mut(secp(), i));
                }
                2 => match calm("finalize_inp", || q.finalize_inp(secp(), i))? {
                    Ok(x) => q = x,
                    Err((x, e)) => {
                        q = x;
                        render(&e)?;
                    }
                },
                _ => match calm("finalize_inp_mall", || q.finalize_inp_mall(secp(), i))? {
                    Ok(x) => q = x,
                    Err((x, e)) => {
                        q = x;
                        render(&e)?;
                    }
                },
            }
            Some(q)
        }
        7 => {
            #[allow(deprecated)]
            if s.bool() {
                let _ = told!(ctx, "miniscript::finalize", vmp::finalize(&mut q, secp()));
            } else {
                let _ = told!(ctx, "miniscript::finalize_mall", vmp::finalize_mall(&mut q, secp()));
            }
            Some(q)
        }
        8 => {
            let _ = told!(ctx, "extract", p.extract(secp()));
            None
        }
        9 => {
            let _ = told!(ctx, "interpreter_check v0", vmp::interpreter_check(p, secp()));
            None
        }
        10 | 11 => {
            match s.u(4) {
                0 => {
                    let _ = told!(ctx, "extract_tx v0", q.extract_tx());
                }
                1 => {
                    let _ = told!(ctx, "extract_tx v0", q.extract_tx_fee_rate_limit());
                }
                2 => {
                    let r = FeeRate::from_sat_per_kwu(s.u64_edge());
                    let _ = told!(ctx, "extract_tx v0", q.extract_tx_with_fee_rate_limit(r));
                }
                _ => {
                    calm("extract_tx unchecked v0", || q.extract_tx_unchecked_fee_rate())?;
                }
            }
            None
        }
        12 | 13 => {
            let Some(sp) = sp else { return Ok(None) };
            let Some(d) = any_descriptor(s, sp) else { return Ok(None) };
            let i = index(s, n);
            match s.u(4) {
                0 if i < n => {
                    let _ = told!(ctx, "update unchecked", q.inputs[i].update_with_descriptor_unchecked(&d));
                }
                1 => {
                    let i = index(s, p.outputs.len());
                    if i < p.outputs.len() && s.bool() {
                        let _ = told!(ctx, "update output unchecked", q.outputs[i].update_with_descriptor_unchecked(&d));
                    } else {
                        let _ = told!(ctx, "update_output_with_descriptor", q.update_output_with_descriptor(i, &d));
                    }
                }
                _ => {
                    let _ = told!(ctx, "update_input_with_descriptor", q.update_input_with_descriptor(i, &d));
                }
            }
            Some(q)
        }
        14 => told!(ctx, "from_unsigned_tx", v0::Psbt::from_unsigned_tx(p.unsigned_tx.clone())),
        _ => {
            let j = serde_json::to_vec(p).ok();
            match j {
                Some(j) => match calm("v0 from json", || serde_json::from_slice::<v0::Psbt>(&j))? {
                    Ok(q) => Some(q),
                    Err(e) => {
                        render(&e)?;
                        None
                    }
                },
                None => None,
            }
        }
    })
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut did = vec![];
    let (mut raw, n, is_v2, sp) = if s.chance(1, 5) {
        let (r, n, v) = well_formed(s);
        (r, n, v, None)
    } else {
        let sp = wallet::spend(s, 3, &KINDS);
        let flags = s.u(8) as u8;
        let mut p = wallet::psbt2(s, &sp, flags);
        let tx = sp.tx();
        let without = s.chance(1, 6);
        for i in 0..sp.coins.len() {
            if without {
                continue;
            }
            let mut d = wallet::data(s, &sp, &tx, i);
            for _ in 0..3 {
                if sp.can(i, &d).sat {
                    break;
                }
                d = wallet::data(s, &sp, &tx, i);
            }
            wallet::fill_data(&mut p.inputs[i], &sp.coins[i], &d);
            if sp.coins[i].kind == Kind::Tr && s.chance(1, 8) {
                // Signatures for leaves that miniscript could not have made.
                let c = &sp.coins[i];
                if let Some(l) = c.tap.as_ref().and_then(|t| t.leaves.first()) {
                    wallet::fill_leaves(&mut p.inputs[i], c, &[l.2].into());
                    for k in &c.keys {
                        p.inputs[i].tap_script_sigs.insert((kref(*k).x, l.2), gen::tap_sig(s));
                    }
                    p.inputs[i].tap_key_sig = None;
                }
            }
        }
        for _ in 0..s.u(3) {
            did.push(fault(s, &sp, &mut p));
        }
        if s.bool() {
            if !p.inputs.is_empty() {
                did.push(hostile(s, &sp, &mut p));
            }
        }
        if s.chance(1, 4) {
            // Some inputs are final already.
            // (A panic comes again in the steps.)
            let q = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v2::Finalizer::new(p.clone()).ok()?.finalize(secp()).ok()));
            if let Ok(Some(q)) = q {
                if s.bool() {
                    p = q;
                    did.push("finalized");
                } else {
                    let i = s.us(p.inputs.len());
                    p.inputs[i] = q.inputs[i].clone();
                    did.push("one input finalized");
                }
            }
        }
        for _ in 0..s.u(4) {
            did.push(misplace(s, &mut p));
        }
        let v2 = s.chance(3, 5);
        let r = if v2 {
            model2::to_raw(&p)
        } else {
            match tx_of(&p) {
                // A v0 PSBT with inputs has no way to tell an empty list of them.
                Some(t) => kv::Raw::parse(&calm("encode v0", || conv::from_v2(&t, &p).serialize())?).unwrap_or_else(|_| model2::to_raw(&p)),
                None => model2::to_raw(&p),
            }
        };
        (r, p.inputs.len(), v2, Some(sp))
    };
    let _ = is_v2;
    for d in &did {
        ctx.class(format!("fault: {}", d));
    }
    let first = raw.clone();
    for _ in 0..s.u(3) {
        ctx.class(format!("kv: {}", mutate::mutate_kv(s, &mut raw, n)));
    }
    let bytes = raw.encode();
    ctx.note(|| format!("{:?} bytes {}", did, kv::hex(&bytes)));

    // Another PSBT: the one before the mutations, another mutation of it, or any.
    let mut second = first;
    match s.u(3) {
        0 => {}
        1 => {
            mutate::mutate_kv(s, &mut second, n);
        }
        _ => second = well_formed(s).0,
    }
    let second = second.encode();

    if let Ok(p) = calm("decode v2", || Psbt::deserialize(&bytes))? {
        ctx.class("v2 PSBT");
        ctx.nontrivial(&bytes);
        let other = Psbt::deserialize(&second).ok().unwrap_or_else(|| p.clone());
        reread2("decoded", &p)?;
        let mut cur = p;
        for _ in 0..1 + s.u(8) {
            if let Some(q) = step2(s, ctx, &cur, &other, sp.as_ref())? {
                reread2("step", &q)?;
                cur = q;
            }
        }
    }
    if let Ok(p) = calm("decode v0", || v0::Psbt::deserialize(&bytes))? {
        ctx.class("v0 PSBT");
        ctx.nontrivial(&bytes);
        let other = v0::Psbt::deserialize(&second).ok().unwrap_or_else(|| p.clone());
        reread0(&p)?;
        let mut cur = p;
        for _ in 0..1 + s.u(8) {
            if let Some(q) = step0(s, ctx, &cur, &other, sp.as_ref())? {
                reread0(&q)?;
                cur = q;
            }
        }
    }
    Ok(())
}


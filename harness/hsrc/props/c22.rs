//! C22: v0 descriptor updates and finalization behave as rust-miniscript.

use std::collections::BTreeSet;
use std::str::FromStr;

use bitcoin::bip32::{ChildNumber, DerivationPath, Xpub};
use bitcoin::sighash::{EcdsaSighashType, SighashCache, TapSighashType};
use bitcoin::taproot::TapLeafHash;
use bitcoin::{psbt as up, ScriptBuf, Transaction, Witness};
use miniscript::psbt::{PsbtExt as _, PsbtInputExt as _, PsbtOutputExt as _};
use miniscript::{psbt as ump, DefiniteDescriptorKey, Descriptor};
use psbt_v2::v0::bitcoin as v0;
use psbt_v2::v0::miniscript::{PsbtExt as _, PsbtInputExt as _, PsbtOutputExt as _};
use psbt_v2::v0::miniscript as vmp;
use psbt_v2::PsbtSighashType;

use super::c14::{fault, funding, tx_of};
use super::c19::upstream;
use super::c20::variant;
use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::keys::{hd_pool, masters, secp, N};
use crate::source::Src;
use crate::wallet::{self, kref, source, Coin, Kind, Spend, KINDS, NK};
use crate::{gen, interp, kv, up as conv};

type Desc = Descriptor<DefiniteDescriptorKey>;

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        dual: false,
        quick: 200_000,
        thorough: 3_000_000,
        rule: "spends of 1 to 3 coins of every output type; histories of updates of inputs and outputs with the coins' descriptors (keys as public keys or extended keys with any origin) or others, checked and unchecked, at right and wrong indices, then signatures, preimages and up to three faults, then signing messages, finalization of all or single inputs in every form, and extraction; every step on the same PSBT in rust-miniscript and here, the updates also against the coins' scripts and keys, the messages against the consensus digests, and extracted transactions through an independent consensus interpreter; non-trivial when an input was updated or finalized",
        assumptions: &["rust-miniscript 12.2.0 is the reference, except where it panics", "both funding fields of an input agree when the extracted transaction is judged"],
        run,
    }
}

/// Descriptor text of key `k`, with the part of the path after `split` behind the extended key.
fn key_text(c: &Coin, k: usize, split: usize) -> String {
    let (fp, path) = source(k);
    let origin = |p: &[ChildNumber]| {
        let mut t = format!("[{}", fp);
        p.iter().for_each(|c| t += &format!("/{}", c));
        t + "]"
    };
    let path: Vec<ChildNumber> = path.into_iter().copied().collect();
    if k < N || split == 0 {
        let key = if c.kind == Kind::Tr { kref(k).x.to_string() } else { c.pubkey(k).to_string() };
        return origin(&path) + &key;
    }
    // Everything up to the last hardened step belongs to the origin.
    let min = path.iter().rposition(|c| c.is_hardened()).map_or(0, |p| p + 1);
    let at = min + (split - 1) % (path.len() - min + 1);
    let hd = &hd_pool()[k - N];
    let x = masters()[hd.master].derive_priv(secp(), &DerivationPath::from(path[..at].to_vec())).unwrap();
    let mut t = if at == 0 && split % 2 == 0 { String::new() } else { origin(&path[..at]) };
    t += &Xpub::from_priv(secp(), &x).to_string();
    path[at..].iter().for_each(|c| t += &format!("/{}", c));
    t
}

/// The descriptor of a coin, if it is one miniscript accepts.
fn descriptor(s: &mut Src, c: &Coin) -> Option<Desc> {
    if c.tap.as_ref().is_some_and(|t| !t.foreign.is_empty()) {
        return None;
    }
    let splits: Vec<usize> = (0..NK).map(|k| if c.keys.contains(&k) && !c.uncompressed { s.us(8) } else { 0 }).collect();
    Desc::from_str(&c.descriptor(&|k| key_text(c, k, splits[k]))).ok()
}

/// A descriptor that need not be of any coin.
pub fn any_descriptor(s: &mut Src, sp: &Spend) -> Option<Desc> {
    match s.u(4) {
        0 => {
            let c = wallet::coin(s, &sp.env, &KINDS);
            descriptor(s, &c)
        }
        1 => {
            let n = 1 + s.few(3);
            let c = &sp.coins[0];
            let ks: Vec<String> = (0..n)
                .map(|_| {
                    let (k, x) = (wallet::key(s), s.us(8));
                    if c.kind == Kind::Tr { format!("[{}]{}", source(k).0, kref(k).pk) } else { key_text(&Coin { uncompressed: false, ..c.clone() }, k, x) }
                })
                .collect();
            let m = format!("sortedmulti({},{})", 1 + s.us(n), ks.join(","));
            let t = match s.u(3) {
                0 => format!("wsh({})", m),
                1 => format!("sh({})", m),
                _ => format!("sh(wsh({}))", m),
            };
            Desc::from_str(&t).ok()
        }
        _ => {
            let c = &sp.coins[s.us(sp.coins.len())];
            descriptor(s, c)
        }
    }
}

fn kind(e: &vmp::Error) -> String {
    match e {
        vmp::Error::InputError(e, i) => format!("InputError {} {}", i, variant(e)),
        e => variant(e),
    }
}
fn ukind(e: &ump::Error) -> String {
    match e {
        ump::Error::InputError(e, i) => format!("InputError {} {}", i, variant(e)),
        e => variant(e),
    }
}

fn text(e: &dyn std::fmt::Display) -> Res {
    check!(!no_panic("rendering an error", || e.to_string())?.is_empty(), "empty error text", "");
    Ok(())
}

/// The two PSBTs that are to stay the same.
struct Both {
    ours: v0::Psbt,
    theirs: up::Psbt,
}

impl Both {
    fn agree(&self, what: &str) -> Res {
        if conv::up(&self.ours) != self.theirs {
            return fail(format!("{}: PSBTs differ", what), format!("{:?}\nversus rust-miniscript's {:?}", self.ours, self.theirs));
        }
        Ok(())
    }

    /// The outcome both implementations had, None when the reference panics.
    fn step<T: PartialEq + std::fmt::Debug>(
        &mut self,
        what: &str,
        ctx: &mut Ctx,
        f: impl FnOnce(&mut v0::Psbt) -> Result<T, String>,
        g: impl FnOnce(&mut up::Psbt) -> Result<T, String>,
    ) -> Result<Option<Result<T, String>>, crate::engine::Fail> {
        let (ours, theirs) = (&mut self.ours, &mut self.theirs);
        let mut t = theirs.clone();
        let b = upstream(|| {
            let r = g(&mut t);
            (r, t)
        });
        let Some((b, t)) = b else {
            ctx.class(format!("{}: reference panics", what));
            return Ok(None);
        };
        *theirs = t;
        let a = no_panic(what, || f(ours))?;
        if a != b {
            return fail(format!("{}: results differ", what), format!("{:?} versus rust-miniscript's {:?}", a, b));
        }
        self.agree(what)?;
        ctx.class(match &a {
            Ok(_) => format!("{}: done", what),
            Err(e) => format!("{}: {}", what, e.split(", ").next().unwrap_or("").split_whitespace().filter(|w| w.parse::<usize>().is_err()).collect::<Vec<_>>().join(" ")),
        });
        Ok(Some(a))
    }
}

fn messages(s: &mut Src, b: &mut Both, sp: &Spend, right: bool, ctx: &mut Ctx) -> Res {
    let n = b.ours.inputs.len();
    let i = if s.chance(1, 20) { n + s.us(2) } else { s.us(n) };
    let leaf: Option<TapLeafHash> = match sp.coins.get(i).and_then(|c| c.tap.as_ref()) {
        Some(t) if !t.leaves.is_empty() && s.chance(2, 3) => Some(t.leaves[s.us(t.leaves.len())].2),
        _ if s.chance(1, 10) => Some(TapLeafHash::from_script(&ScriptBuf::new(), bitcoin::taproot::LeafVersion::TapScript)),
        _ => None,
    };
    let (t1, t2) = (b.ours.unsigned_tx.clone(), b.ours.unsigned_tx.clone());
    let r = b.step(
        "sighash_msg",
        ctx,
        |p| {
            let mut c = SighashCache::new(&t1);
            match p.sighash_msg(i, &mut c, leaf) {
                Ok(m) => Ok((variant(&m), m.to_secp_msg())),
                Err(e) => {
                    if e.to_string().is_empty() {
                        return Err("no text".into());
                    }
                    Err(variant(&e))
                }
            }
        },
        |p| {
            let mut c = SighashCache::new(&t2);
            match p.sighash_msg(i, &mut c, leaf) {
                Ok(m) => Ok((variant(&m), m.to_secp_msg())),
                Err(e) => Err(variant(&e)),
            }
        },
    )?;
    if !right {
        return Ok(());
    }
    let (Some(Ok((v, m))), Some(c)) = (r, sp.coins.get(i)) else { return Ok(()) };
    let inp = &b.ours.inputs[i];
    if inp.redeem_script != c.redeem && c.redeem.is_some() || inp.witness_script != c.witness_script && c.witness_script.is_some() {
        return Ok(());
    }
    let ty = inp.sighash_type;
    let tx = &b.ours.unsigned_tx;
    let want = if c.kind == Kind::Tr {
        let ty = ty.map_or(Ok(TapSighashType::Default), |t| t.taproot_hash_ty());
        check!(v == "TapSighash", "kind of message", "{}", v);
        ty.ok().and_then(|t| c.tap_msg(tx, i, t, leaf, &sp.prevouts()))
    } else {
        let ty = ty.map_or(Ok(EcdsaSighashType::All), |t| t.ecdsa_hash_ty());
        check!(v == if c.segwit() { "SegwitV0Sighash" } else { "LegacySighash" }, "kind of message", "{} for {:?}", v, c.kind);
        ty.ok().map(|t| c.ecdsa_msg(tx, i, t.to_u32()))
    };
    if Some(m) != want {
        return fail(format!("message for {:?}", c.kind), format!("input {}: {:?} expected {:?}", i, m, want));
    }
    ctx.class(format!("message for {:?}", c.kind));
    Ok(())
}

/// Updates one input of the pair; whether it was one of the right ones that succeeded.
fn update_input(s: &mut Src, b: &mut Both, sp: &Spend, i: usize, own: bool, ctx: &mut Ctx) -> Res {
    let d = if own { descriptor(s, &sp.coins[i]) } else { any_descriptor(s, sp) };
    let Some(d) = d else {
        ctx.class("not a descriptor");
        return Ok(());
    };
    let at = if !own && s.chance(1, 10) { b.ours.inputs.len() + s.us(2) } else { i };
    if s.chance(1, 4) && at < b.ours.inputs.len() {
        let r = b.step(
            "update unchecked",
            ctx,
            |p| p.inputs[at].update_with_descriptor_unchecked(&d).map_err(|e| variant(&e)),
            |p| p.inputs[at].update_with_descriptor_unchecked(&d).map_err(|e| variant(&e)),
        )?;
        if let (true, Some(Ok(x))) = (own, r) {
            check!(x.script_pubkey() == sp.coins[i].spk, "returned descriptor is another", "{}", x);
        }
    } else {
        let before = b.ours.clone();
        let r = b.step(
            "update_input_with_descriptor",
            ctx,
            |p| p.update_input_with_descriptor(at, &d).map_err(|e| if e.to_string().is_empty() { "no text".into() } else { variant(&e) }),
            |p| p.update_input_with_descriptor(at, &d).map_err(|e| variant(&e)),
        )?;
        match r {
            Some(Err(e)) => {
                check!(b.ours == before, "a failed update changes the PSBT", "{}", e);
                check!(!own, "update with the own descriptor fails", "{}: {}", e, d);
            }
            Some(Ok(())) if !own => {
            
                let spk = b.ours.iter_funding_utxos().nth(at).and_then(|x| x.ok().map(|x| x.script_pubkey.clone()));
                check!(Some(d.script_pubkey()) == spk, "updated with a descriptor for another script", "{}", d);
            }
            _ => {}
        }
    }
    if own {
        ctx.nontrivial(&b.ours.serialize());
        let (c, inp) = (&sp.coins[i], &b.ours.inputs[i]);
        check!(inp.redeem_script == c.redeem, "redeem script after update", "{:?} expected {:?}", inp.redeem_script, c.redeem);
        check!(inp.witness_script == c.witness_script, "witness script after update", "{:?} expected {:?}", inp.witness_script, c.witness_script);
        for k in &c.keys {
            if c.tap.is_none() {
                check!(inp.bip32_derivation.get(&kref(*k).pk) == Some(&source(*k)), "derivation after update", "K{}: {:?}", k, inp.bip32_derivation);
            } else {
                let t = c.tap.as_ref().unwrap();
                let got = inp.tap_key_origins.get(&kref(*k).x).cloned().unwrap_or_default();
                let leaves: BTreeSet<_> = t
                    .leaves
                    .iter()
                    .filter(|l| {
                        let mut v = vec![];
                        l.0.keys(&mut v);
                        v.contains(k)
                    })
                    .map(|l| l.2)
                    .collect();
                check!(got.1 == source(*k), "key origin after update", "K{}: {:?}", k, got);
                check!(got.0.iter().copied().collect::<BTreeSet<_>>() == leaves && got.0.len() == leaves.len(), "leaves of key after update", "K{}: {:?} expected {:?}", k, got.0, leaves);
            }
        }
        if let Some(t) = &c.tap {
            check!(inp.tap_internal_key == Some(kref(t.internal).x), "internal key after update", "{:?}", inp.tap_internal_key);
            check!(inp.tap_merkle_root == t.info.merkle_root(), "merkle root after update", "{:?}", inp.tap_merkle_root);
            let got: BTreeSet<_> = inp.tap_scripts.values().map(|x| x.0.clone()).collect();
            let want: BTreeSet<_> = t.leaves.iter().map(|l| l.1.clone()).collect();
            check!(got == want, "leaf scripts after update", "{:?} expected {:?}", got, want);
            for (cb, (sc, _)) in &inp.tap_scripts {
                let key = bitcoin::XOnlyPublicKey::from_slice(&c.spk.as_bytes()[2..]).unwrap();
                check!(cb.verify_taproot_commitment(secp(), key, sc), "control block after update", "");
            }
        }
    }
    Ok(())
}

fn update_output(s: &mut Src, b: &mut Both, sp: &Spend, ctx: &mut Ctx) -> Res {
    let Some(d) = any_descriptor(s, sp) else { return Ok(()) };
    let n = b.ours.outputs.len();
    let i = s.us(n + 1);
    if i < n && s.chance(2, 3) {
        // An output that the descriptor is of.
        b.ours.unsigned_tx.output[i].script_pubkey = d.script_pubkey();
        b.theirs.unsigned_tx.output[i].script_pubkey = d.script_pubkey();
    }
    if i < n && s.chance(1, 3) {
        b.step(
            "update output unchecked",
            ctx,
            |p| p.outputs[i].update_with_descriptor_unchecked(&d).map_err(|e| variant(&e)),
            |p| p.outputs[i].update_with_descriptor_unchecked(&d).map_err(|e| variant(&e)),
        )?;
        return Ok(());
    }
    let before = b.ours.clone();
    let r = b.step(
        "update_output_with_descriptor",
        ctx,
        |p| p.update_output_with_descriptor(i, &d).map_err(|e| if e.to_string().is_empty() { "no text".into() } else { variant(&e) }),
        |p| p.update_output_with_descriptor(i, &d).map_err(|e| variant(&e)),
    )?;
    if let Some(r) = r {
        let fits = i < n && before.unsigned_tx.output[i].script_pubkey == d.script_pubkey();
        check!(r.is_ok() == fits, "output updated with a descriptor that is not its own", "{:?} {}", r, d);
        if r.is_err() {
            check!(b.ours == before, "a failed update changes the PSBT", "");
        }
    }
    Ok(())
}

/// One finalization in one of its forms.
fn finalize(s: &mut Src, b: &mut Both, ctx: &mut Ctx) -> Result<Option<bool>, crate::engine::Fail> {
    let n = b.ours.inputs.len();
    let before = b.ours.clone();
    let i = if s.chance(1, 20) { n + s.us(2) } else { s.us(n) };
    fn e1(e: vmp::Error) -> String {
        if e.to_string().is_empty() { "no text".into() } else { kind(&e) }
    }
    fn e2(e: ump::Error) -> String { ukind(&e) }
    fn es(v: Vec<vmp::Error>) -> String { v.into_iter().map(e1).collect::<Vec<_>>().join(", ") }
    fn ues(v: Vec<ump::Error>) -> String { v.into_iter().map(e2).collect::<Vec<_>>().join(", ") }
    let c = secp();
    macro_rules! whole {
        ($what:expr, $m:ident) => {
            b.step($what, ctx, |p| p.$m(c).map_err(es), |p| p.$m(c).map_err(ues))?
        };
    }
    macro_rules! one {
        ($what:expr, $m:ident) => {
            b.step($what, ctx, |p| p.$m(c, i).map_err(e1), |p| p.$m(c, i).map_err(e2))?
        };
    }
    macro_rules! owned {
        ($what:expr, $m:ident, $e1:ident, $e2:ident $(, $i:expr)?) => {
            b.step(
                $what,
                ctx,
                |p| match p.clone().$m(c $(, $i)?) {
                    Ok(q) => {
                        *p = q;
                        Ok(())
                    }
                    Err((q, e)) => {
                        *p = q;
                        Err($e1(e))
                    }
                },
                |p| match p.clone().$m(c $(, $i)?) {
                    Ok(q) => {
                        *p = q;
                        Ok(())
                    }
                    Err((q, e)) => {
                        *p = q;
                        Err($e2(e))
                    }
                },
            )?
        };
    }
    #[allow(deprecated)]
    let (r, single) = match s.u(10) {
        0 => (whole!("finalize_mut", finalize_mut), false),
        1 => (whole!("finalize_mall_mut", finalize_mall_mut), false),
        2 => (owned!("finalize", finalize, es, ues), false),
        3 => (owned!("finalize_mall", finalize_mall, es, ues), false),
        4 => (one!("finalize_inp_mut", finalize_inp_mut), true),
        5 => (one!("finalize_inp_mall_mut", finalize_inp_mall_mut), true),
        6 => (owned!("finalize_inp", finalize_inp, e1, e2, i), true),
        7 => (owned!("finalize_inp_mall", finalize_inp_mall, e1, e2, i), true),
        8 => (b.step("psbt::finalize", ctx, |p| vmp::finalize(p, c).map_err(e1), |p| ump::finalize(p, c).map_err(e2))?, false),
        _ => (b.step("psbt::finalize_mall", ctx, |p| vmp::finalize_mall(p, c).map_err(e1), |p| ump::finalize_mall(p, c).map_err(e2))?, false),
    };
    let Some(r) = r else { return Ok(None) };
    // Whatever failed is as it was.
    let a = &b.ours;
    check!(a.unsigned_tx == before.unsigned_tx && a.outputs == before.outputs && a.xpub == before.xpub, "finalizing changes other fields", "");
    check!(a.proprietary == before.proprietary && a.unknown == before.unknown && a.version == before.version, "finalizing changes other fields", "");
    if let Err(e) = &r {
        for j in 0..n {
            let named = e.split(", ").any(|e| e.starts_with(&format!("InputError {} ", j)));
            let changed = a.inputs[j] != before.inputs[j];
            check!(!(changed && (named || single)), "an input whose finalization fails changes", "input {}: {}", j, e);
        }
    } else {
        for j in 0..n {
            let x = &a.inputs[j];
            if single && j != i {
                check!(*x == before.inputs[j], "another input changes", "input {}", j);
                continue;
            }
            check!(x.final_script_sig.is_some() || x.final_script_witness.is_some(), "finalized without final fields", "input {}", j);
            check!(x.witness_utxo == before.inputs[j].witness_utxo && x.non_witness_utxo == before.inputs[j].non_witness_utxo, "finalizing changes the funding data", "input {}", j);
        }
    }
    Ok(Some(r.is_ok() && !single))
}

fn extract(b: &mut Both, ctx: &mut Ctx) -> Result<Option<Transaction>, crate::engine::Fail> {
    let r = b.step(
        "extract",
        ctx,
        |p| p.extract(secp()).map_err(|e| if e.to_string().is_empty() { "no text".into() } else { kind(&e) }),
        |p| p.extract(secp()).map_err(|e| ukind(&e)),
    )?;
    b.step("interpreter_check", ctx, |p| vmp::interpreter_check(p, secp()).map_err(|e| kind(&e)), |p| ump::interpreter_check(p, secp()).map_err(|e| ukind(&e)))?;
    Ok(r.and_then(|r| r.ok()))
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let sp = wallet::spend(s, 3, &KINDS);
    let mut p2 = wallet::psbt2(s, &sp, 0);
    let workflow = s.bool();
    if workflow {
        for i in &mut p2.inputs {
            i.redeem_script = None;
            i.witness_script = None;
            i.bip32_derivations.clear();
            i.tap_internal_key = None;
            i.tap_merkle_root = None;
            i.tap_key_origins.clear();
        }
        let tx = sp.tx();
        let ours = conv::from_v2(&tx, &p2);
        let theirs = conv::up(&ours);
        let mut b = Both { ours, theirs };
        ctx.note(|| format!("update first; {}", sp.describe()));
        for _ in 0..s.us(3) {
            update_output(s, &mut b, &sp, ctx)?;
        }
        if s.chance(1, 3) {
            let i = s.us(sp.coins.len());
            update_input(s, &mut b, &sp, i, false, ctx)?;
        }
        // Fresh inputs again for the right ones.
        for (i, x) in conv::from_v2(&tx, &p2).inputs.into_iter().enumerate() {
            b.theirs.inputs[i] = conv::input_up(&x);
            b.ours.inputs[i] = x;
        }
        let tx = b.ours.unsigned_tx.clone();
        let outs = tx.output.clone();
        let sp = Spend { outs, ..sp };
        let mut order: Vec<usize> = (0..sp.coins.len()).collect();
        s.shuffle(&mut order);
        let mut sat = vec![];
        for i in order {
            update_input(s, &mut b, &sp, i, true, ctx)?;
            if s.chance(1, 8) {
                update_input(s, &mut b, &sp, i, true, ctx)?;
            }
            let c = &sp.coins[i];
            if descriptor(s, c).is_none() {
                let mut inp = psbt_v2::v2::Input::new(&c.outpoint());
                wallet::fill_scripts(&mut inp, c);
                b.ours.inputs[i].redeem_script = inp.redeem_script;
                b.ours.inputs[i].witness_script = inp.witness_script;
                b.ours.inputs[i].bip32_derivation = inp.bip32_derivations;
                b.ours.inputs[i].tap_internal_key = inp.tap_internal_key;
                b.ours.inputs[i].tap_merkle_root = inp.tap_merkle_root;
                b.ours.inputs[i].tap_key_origins = inp.tap_key_origins;
            }
            let mut d = wallet::data(s, &sp, &tx, i);
            for _ in 0..3 {
                if sp.can(i, &d).sat {
                    break;
                }
                d = wallet::data(s, &sp, &tx, i);
            }
            // Data in the fields that signers and others add.
            let mut inp = psbt_v2::v2::Input::new(&c.outpoint());
            wallet::fill_data(&mut inp, c, &d);
            let o = &mut b.ours.inputs[i];
            o.partial_sigs = inp.partial_sigs;
            // The sanity check of both takes taproot types only where they are ECDSA types too.
            o.sighash_type = inp.sighash_type.filter(|t| *t != PsbtSighashType::from_u32(0));
            o.tap_key_sig = inp.tap_key_sig;
            o.tap_script_sigs = inp.tap_script_sigs;
            o.sha256_preimages = inp.sha256_preimages;
            o.hash256_preimages = inp.hash256_preimages;
            o.ripemd160_preimages = inp.ripemd160_preimages;
            o.hash160_preimages = inp.hash160_preimages;
            o.tap_scripts.append(&mut inp.tap_scripts);
            let all = c.tap.as_ref().map(|t| t.leaves.iter().map(|l| l.2).collect()).unwrap_or_default();
            let d = wallet::Data { leaves: all, ..d };
            sat.push(sp.can(i, &d));
            b.theirs = conv::up(&b.ours);
        }
        return finish(s, b, &sp, Some(sat), true, &[], ctx);
    }
    let tx = sp.tx();
    for i in 0..sp.coins.len() {
        let d = wallet::data(s, &sp, &tx, i);
        wallet::fill_data(&mut p2.inputs[i], &sp.coins[i], &d);
    }
    let mut faults = vec![];
    for _ in 0..s.us(4) {
        faults.push(fault(s, &sp, &mut p2));
    }
    faults.retain(|f| *f != "none");
    let Some(tx) = tx_of(&p2) else { return Ok(()) };
    let ours = conv::from_v2(&tx, &p2);
    let theirs = conv::up(&ours);
    let mut b = Both { ours, theirs };
    ctx.note(|| format!("{}; faults {}; {}", sp.describe(), faults.join(", "), kv::hex(&b.ours.serialize())));
    if s.chance(1, 3) {
        let i = s.us(sp.coins.len());
        update_input(s, &mut b, &sp, i, false, ctx)?;
    }
    if s.chance(1, 20) {
        for inp in &mut b.ours.inputs {
            inp.sighash_type = Some(PsbtSighashType::from_u32(gen::sighash_u32(s)));
        }
        b.theirs = conv::up(&b.ours);
    }
    if s.chance(1, 6) {
        let i = s.us(b.ours.inputs.len());
        let inp = &mut b.ours.inputs[i];
        match s.u(3) {
            0 => inp.witness_utxo = None,
            1 => inp.non_witness_utxo = None,
            _ => {
                inp.witness_utxo = None;
                inp.non_witness_utxo = None;
            }
        }
        b.theirs = conv::up(&b.ours);
    }
    let p = p2;
    let right = faults.is_empty();
    let agree = p.inputs.iter().all(|i| match (&i.witness_utxo, &i.non_witness_utxo) {
        (Some(o), Some(t)) => t.output.get(i.spent_output_index as usize) == Some(o),
        _ => true,
    });
    let _ = funding(&p);
    let faults: Vec<&str> = faults;
    if !agree {
        ctx.class("funding fields disagree");
    }
    finish(s, b, &sp, None, right, &faults, ctx)
}

fn tamper(s: &mut Src, p: &mut v0::Psbt, i: usize, j: usize) -> &'static str {
    let flip = |s: &mut Src, v: &mut Vec<u8>| {
        if v.is_empty() {
            v.push(1);
        } else {
            let at = s.us(v.len());
            v[at] ^= 1 << s.u(8);
        }
    };
    match s.u(7) {
        0 | 1 => {
            let Some(w) = &p.inputs[i].final_script_witness else { return "nothing" };
            let mut v = w.to_vec();
            if v.is_empty() || s.chance(1, 5) {
                v.insert(0, vec![]);
            } else {
                let at = s.us(v.len());
                match s.u(4) {
                    0 => drop(v.remove(at)),
                    _ => flip(s, &mut v[at]),
                }
            }
            p.inputs[i].final_script_witness = Some(bitcoin::Witness::from_slice(&v));
            "witness"
        }
        2 => {
            let Some(x) = &p.inputs[i].final_script_sig else { return "nothing" };
            let mut v = x.to_bytes();
            flip(s, &mut v);
            p.inputs[i].final_script_sig = Some(ScriptBuf::from_bytes(v));
            "script sig"
        }
        3 => {
            p.inputs[i].final_script_witness = p.inputs[j].final_script_witness.clone();
            p.inputs[i].final_script_sig = p.inputs[j].final_script_sig.clone();
            "final fields of another input"
        }
        4 => {
            p.unsigned_tx.input[i].sequence.0 ^= 1 << s.u(32);
            "sequence"
        }
        5 => {
            match p.unsigned_tx.output.first_mut() {
                Some(o) => o.value = bitcoin::Amount::from_sat(o.value.to_sat() ^ 1),
                None => p.unsigned_tx.version.0 ^= 3,
            }
            "output"
        }
        _ => {
            p.unsigned_tx.lock_time = bitcoin::absolute::LockTime::from_consensus(s.u32_edge());
            "lock time"
        }
    }
}

fn finish(s: &mut Src, mut b: Both, sp: &Spend, sat: Option<Vec<wallet::Can>>, right: bool, faults: &[&str], ctx: &mut Ctx) -> Res {
    for _ in 0..1 + s.us(3) {
        messages(s, &mut b, sp, right, ctx)?;
    }
    let before = b.ours.clone();
    let prevouts: Option<Vec<_>> = before.iter_funding_utxos().map(|o| o.ok().cloned()).collect();
    let agree = before.inputs.iter().zip(&before.unsigned_tx.input).all(|(i, t)| match (&i.witness_utxo, &i.non_witness_utxo) {
        (Some(o), Some(x)) => x.output.get(t.previous_output.vout as usize) == Some(o),
        _ => true,
    });
    let mut done = false;
    for _ in 0..1 + s.us(3) {
        let Some(whole) = finalize(s, &mut b, ctx)? else { return Ok(()) };
        done |= whole;
    }
    if let (Some(sat), true) = (&sat, before == b.ours) {
        // Enough for every input, and yet nothing was finalized.
        let (v, n) = (before.unsigned_tx.version.0, sat.len());
        if n == 1 && sat[0].sat && v >= 0 && before.inputs[0].sighash_type.map_or(true, |t| t.ecdsa_hash_ty().is_ok()) {
            ctx.class("enough but not finalized (same as the reference)");
        }
    }
    let t = extract(&mut b, ctx)?;
    if done {
        ctx.nontrivial(&before.serialize());
    }
    let Some(t) = t else {
        check!(!done, "finalized but not extracted", "");
        return Ok(());
    };
    let mut stripped = t.clone();
    for i in &mut stripped.input {
        i.script_sig = ScriptBuf::new();
        i.witness = Witness::new();
    }
    check!(stripped == before.unsigned_tx, "extracted transaction is another", "{:?}", stripped);
    let Some(prevouts) = prevouts else { return Ok(()) };
    if agree {
        if let Err(e) = interp::verify_tx(&t, &prevouts) {
            return fail(format!("invalid transaction: {}", e.split(": ").nth(1).unwrap_or("")), format!("{} (faults {:?}): {:?}", e, faults, t));
        }
        ctx.class(if faults.is_empty() { "valid transaction" } else { "valid transaction despite faults" });
    }
    // What was finalized is altered: extraction is to see that.
    if s.bool() {
        let i = s.us(b.ours.inputs.len());
        let j = s.us(b.ours.inputs.len());
        let what = tamper(s, &mut b.ours, i, j);
        ctx.class(format!("altered: {}", what));
        ctx.note(|| format!("altered after finalization: {}", what));
        b.theirs = conv::up(&b.ours);
        extract(&mut b, ctx)?;
    }
    // Rendering of the errors of everything that is missing.
    if s.chance(1, 10) {
        text(&vmp::InputError::MissingUtxo)?;
    }
    Ok(())
}

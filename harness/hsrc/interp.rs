//! Consensus script rules for one input: legacy, P2SH, segwit version 0 and taproot, as far as
//! scripts made from miniscript (and anything of the same opcodes) need. Independent of the
//! library and of rust-miniscript; message hashes come from rust-bitcoin.

use bitcoin::hashes::{hash160, ripemd160, sha256, sha256d, Hash};
use bitcoin::secp256k1::{self, schnorr, Message};
use bitcoin::sighash::{Prevouts, SighashCache, TapSighashType};
use bitcoin::taproot::{ControlBlock, LeafVersion, TapLeafHash};
use bitcoin::{EcdsaSighashType, Script, ScriptBuf, Transaction, TxOut};

use crate::keys::secp;

type R<T = ()> = Result<T, String>;
fn err<T>(s: &str) -> R<T> { Err(s.to_string()) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ver {
    Legacy,
    V0,
    Tap(TapLeafHash),
}

pub struct Checker<'a> {
    pub tx: &'a Transaction,
    pub idx: usize,
    pub prevouts: &'a [TxOut],
}

pub fn truthy(v: &[u8]) -> bool {
    for (i, b) in v.iter().enumerate() {
        if *b != 0 {
            return !(i == v.len() - 1 && *b == 0x80);
        }
    }
    false
}

fn num(v: &[u8], max: usize) -> R<i64> {
    if v.len() > max {
        return err("number too long");
    }
    let mut n: i64 = 0;
    for (i, b) in v.iter().enumerate() {
        n |= (*b as i64) << (8 * i);
    }
    if let Some(l) = v.last() {
        if l & 0x80 != 0 {
            n &= !(0x80i64 << (8 * (v.len() - 1)));
            n = -n;
        }
    }
    Ok(n)
}

fn enc(n: i64) -> Vec<u8> {
    if n == 0 {
        return vec![];
    }
    let mut a = n.unsigned_abs();
    let mut v = vec![];
    while a > 0 {
        v.push((a & 0xff) as u8);
        a >>= 8;
    }
    if v.last().unwrap() & 0x80 != 0 {
        v.push(if n < 0 { 0x80 } else { 0 });
    } else if n < 0 {
        *v.last_mut().unwrap() |= 0x80;
    }
    v
}

/// Removes pushes of `sig` from a legacy script code.
fn find_and_delete(script: &[u8], sig: &[u8]) -> ScriptBuf {
    let pat = bitcoin::script::Builder::new()
        .push_slice(bitcoin::script::PushBytesBuf::try_from(sig.to_vec()).unwrap())
        .into_script();
    let p = pat.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < script.len() {
        if !p.is_empty() && script[i..].starts_with(p) {
            i += p.len();
            continue;
        }
        // Copy one opcode.
        let (_, n) = op_at(script, i).unwrap_or((None, script.len() - i));
        out.extend_from_slice(&script[i..(i + n).min(script.len())]);
        i += n;
    }
    ScriptBuf::from(out)
}

/// The pushed data, if any, and the length of the operation at `i`.
fn op_at(s: &[u8], i: usize) -> Option<(Option<Vec<u8>>, usize)> {
    let op = s[i];
    let (n, h) = match op {
        1..=75 => (op as usize, 1),
        76 => (*s.get(i + 1)? as usize, 2),
        77 => (u16::from_le_bytes(s.get(i + 1..i + 3)?.try_into().ok()?) as usize, 3),
        78 => (u32::from_le_bytes(s.get(i + 1..i + 5)?.try_into().ok()?) as usize, 5),
        0 => return Some((Some(vec![]), 1)),
        _ => return Some((None, 1)),
    };
    Some((Some(s.get(i + h..i + h + n)?.to_vec()), h + n))
}

impl Checker<'_> {
    fn ecdsa(&self, ver: Ver, sig: &[u8], pk: &[u8], code: &Script, value: bitcoin::Amount) -> R<bool> {
        let Some((ht, der)) = sig.split_last() else { return Ok(false) };
        // Strict DER is consensus.
        let Ok(s) = secp256k1::ecdsa::Signature::from_der(der) else { return err("signature is not DER") };
        if s.serialize_der().as_ref() != der {
            return err("signature is not canonical DER");
        }
        let Ok(pk) = secp256k1::PublicKey::from_slice(pk) else { return Ok(false) };
        let mut cache = SighashCache::new(self.tx);
        let msg = match ver {
            Ver::Legacy => Message::from(cache.legacy_signature_hash(self.idx, code, *ht as u32).map_err(|e| e.to_string())?),
            _ => {
                let Ok(ty) = EcdsaSighashType::from_standard(*ht as u32) else { return err("non-standard sighash type, not modelled") };
                Message::from(cache.p2wsh_signature_hash(self.idx, code, value, ty).map_err(|e| e.to_string())?)
            }
        };
        let mut low = s;
        low.normalize_s();
        Ok(secp().verify_ecdsa(&msg, &low, &pk).is_ok())
    }

    /// Some(ok) where a wrong signature fails the script, None for an empty signature.
    fn schnorr(&self, sig: &[u8], pk: &[u8], leaf: Option<TapLeafHash>) -> R {
        let ty = match sig.len() {
            64 => TapSighashType::Default,
            65 if sig[64] != 0 => TapSighashType::from_consensus_u8(sig[64]).map_err(|_| "sighash type".to_string())?,
            _ => return err("schnorr signature form"),
        };
        let pk = secp256k1::XOnlyPublicKey::from_slice(pk).map_err(|_| "x-only key".to_string())?;
        let mut cache = SighashCache::new(self.tx);
        let single;
        let prevouts = if ty as u8 & 0x80 != 0 {
            single = self.prevouts[self.idx].clone();
            Prevouts::One(self.idx, single)
        } else {
            Prevouts::All(self.prevouts)
        };
        let h = match (leaf, &prevouts) {
            (None, Prevouts::All(p)) => cache.taproot_key_spend_signature_hash(self.idx, &Prevouts::All(p), ty),
            (None, Prevouts::One(i, p)) => cache.taproot_key_spend_signature_hash(self.idx, &Prevouts::One(*i, p), ty),
            (Some(l), Prevouts::All(p)) => cache.taproot_script_spend_signature_hash(self.idx, &Prevouts::All(p), l, ty),
            (Some(l), Prevouts::One(i, p)) => cache.taproot_script_spend_signature_hash(self.idx, &Prevouts::One(*i, p), l, ty),
        }
        .map_err(|e| e.to_string())?;
        let s = schnorr::Signature::from_slice(&sig[..64]).unwrap();
        secp().verify_schnorr(&s, &Message::from(h), &pk).map_err(|_| "schnorr signature does not verify".to_string())
    }

    fn run(&self, ver: Ver, script: &Script, stack: &mut Vec<Vec<u8>>, budget: &mut i64) -> R {
        let value = self.prevouts[self.idx].value;
        let s = script.as_bytes();
        let tap = matches!(ver, Ver::Tap(_));
        if !tap && s.len() > 10_000 {
            return err("script size");
        }
        let mut alt: Vec<Vec<u8>> = vec![];
        let mut cond: Vec<bool> = vec![];
        let mut ops = 0;
        let mut i = 0;
        macro_rules! pop {
            () => {
                match stack.pop() {
                    Some(v) => v,
                    None => return err("stack underflow"),
                }
            };
        }
        while i < s.len() {
            let op = s[i];
            let Some((push, n)) = op_at(s, i) else { return err("truncated push") };
            i += n;
            let exec = cond.iter().all(|c| *c);
            if let Some(d) = push {
                if d.len() > 520 {
                    return err("push size");
                }
                if exec {
                    stack.push(d);
                }
                continue;
            }
            if op > 0x60 && !tap {
                ops += 1;
                if ops > 201 {
                    return err("too many operations");
                }
            }
            if !exec && !(0x63..=0x68).contains(&op) {
                continue;
            }
            match op {
                0x4f => stack.push(enc(-1)),
                0x51..=0x60 => stack.push(enc((op - 0x50) as i64)),
                0x61 => {}
                0x63 | 0x64 => {
                    let mut v = false;
                    if exec {
                        let t = pop!();
                        if tap && !(t.is_empty() || t == [1]) {
                            return err("minimal if");
                        }
                        v = truthy(&t) == (op == 0x63);
                    }
                    cond.push(v);
                }
                0x67 => match cond.last_mut() {
                    Some(c) => *c = !*c,
                    None => return err("unbalanced conditional"),
                },
                0x68 => {
                    if cond.pop().is_none() {
                        return err("unbalanced conditional");
                    }
                }
                0x69 => {
                    if !truthy(&pop!()) {
                        return err("verify");
                    }
                }
                0x6a => return err("op_return"),
                0x6b => alt.push(pop!()),
                0x6c => match alt.pop() {
                    Some(v) => stack.push(v),
                    None => return err("alt stack underflow"),
                },
                0x73 => {
                    let t = pop!();
                    if truthy(&t) {
                        stack.push(t.clone());
                    }
                    stack.push(t);
                }
                0x75 => {
                    pop!();
                }
                0x76 => {
                    let t = pop!();
                    stack.push(t.clone());
                    stack.push(t);
                }
                0x77 => {
                    let t = pop!();
                    pop!();
                    stack.push(t);
                }
                0x7c => {
                    let (b, a) = (pop!(), pop!());
                    stack.push(b);
                    stack.push(a);
                }
                0x82 => {
                    let t = pop!();
                    let l = enc(t.len() as i64);
                    stack.push(t);
                    stack.push(l);
                }
                0x87 | 0x88 => {
                    let eq = pop!() == pop!();
                    if op == 0x88 {
                        if !eq {
                            return err("equalverify");
                        }
                    } else {
                        stack.push(enc(eq as i64));
                    }
                }
                0x92 => {
                    let a = num(&pop!(), 4)?;
                    stack.push(enc((a != 0) as i64));
                }
                0x91 => {
                    let a = num(&pop!(), 4)?;
                    stack.push(enc((a == 0) as i64));
                }
                0x93 | 0x9a | 0x9b | 0x9c | 0x9d => {
                    let (b, a) = (num(&pop!(), 4)?, num(&pop!(), 4)?);
                    let r = match op {
                        0x93 => a + b,
                        0x9a => (a != 0 && b != 0) as i64,
                        0x9b => (a != 0 || b != 0) as i64,
                        _ => (a == b) as i64,
                    };
                    if op == 0x9d {
                        if r == 0 {
                            return err("numequalverify");
                        }
                    } else {
                        stack.push(enc(r));
                    }
                }
                0xa6 => {
                    let t = pop!();
                    stack.push(ripemd160::Hash::hash(&t).to_byte_array().to_vec());
                }
                0xa8 => {
                    let t = pop!();
                    stack.push(sha256::Hash::hash(&t).to_byte_array().to_vec());
                }
                0xa9 => {
                    let t = pop!();
                    stack.push(hash160::Hash::hash(&t).to_byte_array().to_vec());
                }
                0xaa => {
                    let t = pop!();
                    stack.push(sha256d::Hash::hash(&t).to_byte_array().to_vec());
                }
                0xac | 0xad => {
                    let (pk, sig) = (pop!(), pop!());
                    let ok = match ver {
                        Ver::Tap(l) => {
                            if pk.len() != 32 {
                                return err("tapscript key form, not modelled");
                            }
                            if sig.is_empty() {
                                false
                            } else {
                                *budget -= 50;
                                if *budget < 0 {
                                    return err("signature budget");
                                }
                                self.schnorr(&sig, &pk, Some(l))?;
                                true
                            }
                        }
                        _ => {
                            let code = if ver == Ver::Legacy { find_and_delete(s, &sig) } else { script.to_owned() };
                            self.ecdsa(ver, &sig, &pk, &code, value)?
                        }
                    };
                    if op == 0xad {
                        if !ok {
                            return err("checksigverify");
                        }
                    } else {
                        stack.push(enc(ok as i64));
                    }
                }
                0xae | 0xaf if !tap => {
                    let nk = num(&pop!(), 4)?;
                    if !(0..=20).contains(&nk) {
                        return err("key count");
                    }
                    ops += nk;
                    if ops > 201 {
                        return err("too many operations");
                    }
                    let mut keys = vec![];
                    for _ in 0..nk {
                        keys.push(pop!());
                    }
                    let ns = num(&pop!(), 4)?;
                    if ns < 0 || ns > nk {
                        return err("signature count");
                    }
                    let mut sigs = vec![];
                    for _ in 0..ns {
                        sigs.push(pop!());
                    }
                    let dummy = pop!();
                    if !dummy.is_empty() {
                        return err("null dummy");
                    }
                    let mut code = script.to_owned();
                    if ver == Ver::Legacy {
                        for x in &sigs {
                            code = find_and_delete(code.as_bytes(), x);
                        }
                    }
                    let (mut ki, mut si) = (0, 0);
                    let mut ok = true;
                    while si < sigs.len() {
                        if sigs.len() - si > keys.len() - ki {
                            ok = false;
                            break;
                        }
                        if self.ecdsa(ver, &sigs[si], &keys[ki], &code, value)? {
                            si += 1;
                        }
                        ki += 1;
                    }
                    if op == 0xaf {
                        if !ok {
                            return err("checkmultisigverify");
                        }
                    } else {
                        stack.push(enc(ok as i64));
                    }
                }
                0xba if tap => {
                    let Ver::Tap(l) = ver else { unreachable!() };
                    let (pk, n, sig) = (pop!(), num(&pop!(), 4)?, pop!());
                    if pk.len() != 32 {
                        return err("tapscript key form, not modelled");
                    }
                    if sig.is_empty() {
                        stack.push(enc(n));
                    } else {
                        *budget -= 50;
                        if *budget < 0 {
                            return err("signature budget");
                        }
                        self.schnorr(&sig, &pk, Some(l))?;
                        stack.push(enc(n + 1));
                    }
                }
                0xb1 => {
                    let Some(t) = stack.last() else { return err("stack underflow") };
                    let n = num(t, 5)?;
                    if n < 0 {
                        return err("negative lock time");
                    }
                    let lt = self.tx.lock_time.to_consensus_u32() as i64;
                    if (n < 500_000_000) != (lt < 500_000_000) {
                        return err("lock time kind");
                    }
                    if n > lt {
                        return err("lock time not reached");
                    }
                    if self.tx.input[self.idx].sequence.0 == 0xffff_ffff {
                        return err("final sequence");
                    }
                }
                0xb2 => {
                    let Some(t) = stack.last() else { return err("stack underflow") };
                    let n = num(t, 5)?;
                    if n < 0 {
                        return err("negative sequence");
                    }
                    if n & (1 << 31) == 0 {
                        let seq = self.tx.input[self.idx].sequence.0;
                        if (self.tx.version.0 as u32) < 2 {
                            return err("relative lock time in a version 1 transaction");
                        }
                        if seq & (1 << 31) != 0 {
                            return err("relative lock time disabled");
                        }
                        const M: u32 = 0x0040_ffff;
                        let (a, b) = (n as u32 & M, seq & M);
                        if (a < 1 << 22) != (b < 1 << 22) {
                            return err("relative lock time kind");
                        }
                        if a > b {
                            return err("relative lock time not reached");
                        }
                    }
                }
                0xb0 | 0xb3..=0xb9 => {}
                _ => return Err(format!("opcode {:#x} not modelled", op)),
            }
            if stack.len() + alt.len() > 1000 {
                return err("stack size");
            }
        }
        if !cond.is_empty() {
            return err("unbalanced conditional");
        }
        Ok(())
    }

    fn witness_program(&self, version: u8, prog: &[u8]) -> R {
        let wit: Vec<Vec<u8>> = self.tx.input[self.idx].witness.iter().map(|w| w.to_vec()).collect();
        match (version, prog.len()) {
            (0, 20) => {
                if wit.len() != 2 {
                    return err("witness program mismatch");
                }
                let mut sc = vec![0x76, 0xa9, 0x14];
                sc.extend_from_slice(prog);
                sc.extend_from_slice(&[0x88, 0xac]);
                self.v0(&ScriptBuf::from(sc), wit)
            }
            (0, 32) => {
                let Some((last, rest)) = wit.split_last() else { return err("empty witness") };
                if sha256::Hash::hash(last).as_byte_array() != prog {
                    return err("witness script hash");
                }
                self.v0(&ScriptBuf::from(last.clone()), rest.to_vec())
            }
            (0, _) => err("witness program length"),
            (1, 32) => self.taproot(prog, wit),
            _ => Ok(()),
        }
    }

    fn v0(&self, script: &Script, mut stack: Vec<Vec<u8>>) -> R {
        if stack.iter().any(|e| e.len() > 520) {
            return err("witness element size");
        }
        self.run(Ver::V0, script, &mut stack, &mut 0)?;
        if stack.len() != 1 || !truthy(&stack[0]) {
            return err("script evaluates to false or leaves items");
        }
        Ok(())
    }

    fn taproot(&self, prog: &[u8], mut wit: Vec<Vec<u8>>) -> R {
        if wit.is_empty() {
            return err("empty witness");
        }
        if wit.len() >= 2 && wit.last().unwrap().first() == Some(&0x50) {
            return err("annex, not modelled");
        }
        let size = bitcoin::consensus::encode::serialize(&self.tx.input[self.idx].witness).len() as i64;
        if wit.len() == 1 {
            return self.schnorr(&wit[0], prog, None);
        }
        let cb = wit.pop().unwrap();
        let sc = ScriptBuf::from(wit.pop().unwrap());
        let control = ControlBlock::decode(&cb).map_err(|_| "control block form".to_string())?;
        let out = secp256k1::XOnlyPublicKey::from_slice(prog).map_err(|_| "output key".to_string())?;
        if !control.verify_taproot_commitment(secp(), out, &sc) {
            return err("taproot commitment");
        }
        if control.leaf_version != LeafVersion::TapScript {
            return Ok(());
        }
        if wit.iter().any(|e| e.len() > 520) {
            return err("witness element size");
        }
        let leaf = TapLeafHash::from_script(&sc, LeafVersion::TapScript);
        let mut budget = size + 50;
        self.run(Ver::Tap(leaf), &sc, &mut wit, &mut budget)?;
        if wit.len() != 1 || !truthy(&wit[0]) {
            return err("script evaluates to false or leaves items");
        }
        Ok(())
    }

    pub fn verify(&self) -> R {
        let inp = &self.tx.input[self.idx];
        let spk = &self.prevouts[self.idx].script_pubkey;
        let ssig = &inp.script_sig;
        let push_only = |s: &Script| {
            let b = s.as_bytes();
            let mut i = 0;
            while i < b.len() {
                match op_at(b, i) {
                    Some((p, n)) if p.is_some() || (0x4f..=0x60).contains(&b[i]) => i += n,
                    _ => return false,
                }
            }
            true
        };
        let program = |s: &Script| -> Option<(u8, Vec<u8>)> {
            let b = s.as_bytes();
            if (4..=42).contains(&b.len()) && (b[0] == 0 || (0x51..=0x60).contains(&b[0])) && b[1] as usize == b.len() - 2 {
                Some((if b[0] == 0 { 0 } else { b[0] - 0x50 }, b[2..].to_vec()))
            } else {
                None
            }
        };
        let mut stack = vec![];
        self.run(Ver::Legacy, ssig, &mut stack, &mut 0)?;
        let after_sig = stack.clone();
        self.run(Ver::Legacy, spk, &mut stack, &mut 0)?;
        if !stack.last().map(|t| truthy(t)).unwrap_or(false) {
            return err("script evaluates to false");
        }
        let mut had_witness = false;
        if let Some((v, p)) = program(spk) {
            if !ssig.is_empty() {
                return err("script sig with a witness program");
            }
            had_witness = true;
            self.witness_program(v, &p)?;
        } else if spk.is_p2sh() {
            if !push_only(ssig) {
                return err("script sig of a script hash is not push only");
            }
            stack = after_sig;
            let Some(redeem) = stack.pop() else { return err("no redeem script") };
            let redeem = ScriptBuf::from(redeem);
            self.run(Ver::Legacy, &redeem, &mut stack, &mut 0)?;
            if !stack.last().map(|t| truthy(t)).unwrap_or(false) {
                return err("redeem script evaluates to false");
            }
            if let Some((v, p)) = program(&redeem) {
                let want = bitcoin::script::Builder::new()
                    .push_slice(bitcoin::script::PushBytesBuf::try_from(redeem.to_bytes()).unwrap())
                    .into_script();
                if *ssig != want {
                    return err("script sig of a nested witness program");
                }
                had_witness = true;
                // A taproot program in a script hash is not taproot.
                if v == 0 {
                    self.witness_program(v, &p)?;
                }
            }
        }
        if !had_witness && !inp.witness.is_empty() {
            return err("unexpected witness");
        }
        Ok(())
    }
}

/// Checks all inputs; names the first that fails.
pub fn verify_tx(tx: &Transaction, prevouts: &[TxOut]) -> Result<(), String> {
    if tx.input.len() != prevouts.len() {
        return err("number of inputs");
    }
    for idx in 0..tx.input.len() {
        Checker { tx, idx, prevouts }.verify().map_err(|e| format!("input {}: {}", idx, e))?;
    }
    Ok(())
}

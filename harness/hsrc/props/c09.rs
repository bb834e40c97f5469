//! C09: a v2 PSBT keeps its identity through its life and shares it with no other.

use std::collections::BTreeMap;

use bitcoin::absolute::LockTime;
use bitcoin::hashes::{sha256d, Hash};
use bitcoin::{transaction, Amount, OutPoint, PrivateKey, PublicKey, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Txid, Witness};
use psbt_v2::v2::{self, Psbt};

use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::keys::secp;
use crate::source::Src;
use crate::wallet::{self, KINDS};
use crate::{gen, kv};

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        dual: false,
        quick: 250_000,
        thorough: 2_000_000,
        rule: "spends of 1 to 4 coins of any type with any sequences and lock times, followed through up to 8 random steps (updating sequences, adding metadata, signing with random keys, encoding, combining with a differently extended copy, finalizing); after each step every role's identification and the unsigned transaction are compared with a model, then one identifying property is changed; non-trivial when some step signs, combines or finalizes",
        assumptions: &[],
        run,
    }
}

struct Model {
    version: i32,
    lock: u32,
    ins: Vec<(OutPoint, Option<u32>)>,
    outs: Vec<TxOut>,
}

impl Model {
    fn tx(&self, zero: bool) -> Transaction {
        Transaction {
            version: transaction::Version(self.version),
            lock_time: LockTime::from_consensus(self.lock),
            input: self
                .ins
                .iter()
                .map(|(o, q)| TxIn { previous_output: *o, script_sig: ScriptBuf::new(), sequence: Sequence(if zero { 0 } else { q.unwrap_or(u32::MAX) }), witness: Witness::new() })
                .collect(),
            output: self.outs.clone(),
        }
    }

    /// The txid, from the encoding written out.
    fn id(&self) -> Txid {
        let mut b = self.version.to_le_bytes().to_vec();
        kv::put_compact(&mut b, self.ins.len() as u64);
        for (o, _) in &self.ins {
            b.extend(o.txid.to_byte_array());
            b.extend(o.vout.to_le_bytes());
            b.extend([0; 5]);
        }
        kv::put_compact(&mut b, self.outs.len() as u64);
        for o in &self.outs {
            b.extend(o.value.to_sat().to_le_bytes());
            kv::put_compact(&mut b, o.script_pubkey.len() as u64);
            b.extend(o.script_pubkey.as_bytes());
        }
        b.extend(self.lock.to_le_bytes());
        Txid::from_raw_hash(sha256d::Hash::hash(&b))
    }

    fn judge(&self, p: &Psbt, when: &str) -> Res {
        let id = self.id();
        for (role, got) in ids(p)? {
            check!(got == id, format!("{} id {}", role, when), "{} expected {}", got, id);
        }
        let t = match v2::Signer::new(p.clone()) {
            Ok(x) => no_panic("unsigned_tx", || x.unsigned_tx())?,
            Err(e) => return fail(format!("Signer::new refuses {}", when), e.to_string()),
        };
        check!(t == self.tx(false), format!("unsigned transaction {}", when), "{:?} expected {:?}", t, self.tx(false));
        Ok(())
    }
}

fn ids(p: &Psbt) -> Res<Vec<(&'static str, Txid)>> {
    let mut v = vec![];
    if let Ok(u) = v2::Updater::new(p.clone()) {
        v.push(("updater", no_panic("Updater::id", || u.id())?));
    }
    if let Ok(u) = v2::Signer::new(p.clone()) {
        if let Ok(t) = no_panic("Signer::id", || u.id())? {
            v.push(("signer", t));
        }
    }
    if let Ok(u) = v2::Finalizer::new(p.clone()) {
        v.push(("finalizer", no_panic("Finalizer::id", || u.id())?));
    }
    if let Ok(u) = v2::Extractor::new(p.clone()) {
        v.push(("extractor", no_panic("Extractor::id", || u.id())?));
    }
    Ok(v)
}

fn keyring(s: &mut Src, sp: &wallet::Spend) -> BTreeMap<PublicKey, PrivateKey> {
    let mut m = BTreeMap::new();
    for c in &sp.coins {
        for k in &c.keys {
            if s.bool() {
                m.insert(wallet::kref(*k).comp(), wallet::kref(*k).priv_comp());
            }
        }
    }
    m
}

fn metadata(s: &mut Src, p: &mut Psbt) {
    for i in &mut p.inputs {
        if s.bool() {
            wallet::junk_input(s, i);
        }
        if s.chance(1, 4) {
            i.bip32_derivations.extend(gen::derivations(s, 4));
        }
    }
    for o in &mut p.outputs {
        wallet::junk_output(s, o);
    }
    if s.bool() {
        let g = gen::global(s);
        p.global.proprietaries.extend(g.proprietaries);
        p.global.unknowns.extend(g.unknowns);
        if p.global.xpubs.is_empty() {
            p.global.xpubs = g.xpubs;
        }
    }
    if s.chance(1, 3) {
        p.global.tx_modifiable_flags = s.u(8) as u8;
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let sp = wallet::spend(s, 4, &KINDS);
    let flags = s.u(8) as u8;
    let mut p = wallet::psbt2(s, &sp, flags);
    let mut m = Model {
        version: sp.env.version,
        lock: sp.lock_time().unwrap(),
        ins: sp.coins.iter().map(|c| (c.outpoint(), c.seq)).collect(),
        outs: sp.outs.clone(),
    };
    ctx.note(|| sp.describe());
    let mut log: Vec<&str> = vec![];
    m.judge(&p, "at first")?;
    let mut finalized = false;
    let mut heavy = false;
    for _ in 0..s.few(9) {
        match s.u(if finalized { 4 } else { 8 }) {
            0 => {
                let i = s.us(m.ins.len());
                let q = s.u32_edge();
                let u = match v2::Updater::try_from(p.clone()) {
                    Ok(u) => u,
                    Err(e) => return fail("Updater refuses", e.to_string()),
                };
                p = match u.set_sequence(Sequence(q), i) {
                    Ok(u) => u.psbt(),
                    Err(e) => return fail("set_sequence", e.to_string()),
                };
                m.ins[i].1 = Some(q);
                log.push("sequence");
            }
            1 => {
                metadata(s, &mut p);
                log.push("metadata");
            }
            2 => {
                p = match Psbt::deserialize(&p.serialize()) {
                    Ok(q) => q,
                    Err(e) => return fail("own encoding refused", e.to_string()),
                };
                log.push("encode");
            }
            3 => {
                let mut q = p.clone();
                metadata(s, &mut q);
                if !finalized && s.bool() {
                    let k = keyring(s, &sp);
                    if let Ok(x) = v2::Signer::new(q.clone()).unwrap().sign(&k, secp()) {
                        q = x.0;
                    }
                }
                if s.bool() {
                    metadata(s, &mut p);
                }
                p = match if s.bool() { no_panic("combine", || v2::combine(p, q))? } else { no_panic("combine", || v2::combine(q, p))? } {
                    Ok(r) => r,
                    Err(v2::CombineError::Global(_)) => return Ok(()), // Conflicting xpub.
                    Err(e) => return fail("combining with an extended copy", e.to_string()),
                };
                heavy = true;
                log.push("combine");
            }
            4 | 5 => {
                let k = keyring(s, &sp);
                let x = match v2::Signer::new(p.clone()) {
                    Ok(x) => x,
                    Err(e) => return fail("Signer refuses", e.to_string()),
                };
                if let Ok((q, _)) = no_panic("sign", || x.sign(&k, secp()))? {
                    p = q;
                    heavy = true;
                    log.push("sign");
                }
            }
            6 => {
                // Everything a finalizer could use.
                let tx = m.tx(false);
                for i in 0..sp.coins.len() {
                    let d = wallet::data(s, &sp, &tx, i);
                    p.inputs[i].partial_sigs.clear();
                    wallet::fill_data(&mut p.inputs[i], &sp.coins[i], &d);
                }
                log.push("data");
            }
            _ => {
                if let Ok(f) = no_panic("Finalizer::new", || v2::Finalizer::new(p.clone()))? {
                    if let Ok(q) = no_panic("finalize", || f.finalize(secp()))? {
                        p = q;
                        finalized = true;
                        heavy = true;
                        log.push("finalize");
                    }
                }
            }
        }
        m.judge(&p, &format!("after {}", log.last().unwrap_or(&"nothing")))?;
    }
    log.iter().for_each(|l| ctx.class(*l));
    ctx.note(|| log.join(", "));
    if heavy {
        ctx.nontrivial(format!("{}{:?}", p, log).as_bytes());
    }

    // No other PSBT has this identity.
    let id = m.id();
    let (n, k) = (p.inputs.len(), p.outputs.len());
    let what = match s.u(10) {
        0 => {
            p.global.tx_version = transaction::Version(m.version ^ (1 << s.u(32)));
            "version"
        }
        1 => {
            p.inputs[s.us(n)].spent_output_index ^= 1 << s.u(32);
            "output index"
        }
        2 => {
            let i = &mut p.inputs[s.us(n)];
            let mut t = i.previous_txid.to_byte_array();
            t[s.us(32)] ^= 1 << s.u(8);
            i.previous_txid = Txid::from_byte_array(t);
            "txid"
        }
        3 if k > 0 => {
            let o = &mut p.outputs[s.us(k)];
            o.amount = Amount::from_sat(o.amount.to_sat() ^ (1 << s.u(64)));
            "amount"
        }
        4 if k > 0 => {
            let o = &mut p.outputs[s.us(k)];
            let mut b = o.script_pubkey.to_bytes();
            let j = s.us(b.len());
            b[j] ^= 1 << s.u(8);
            o.script_pubkey = b.into();
            "script"
        }
        5 if n > 1 && m.ins[0].0 != m.ins[n - 1].0 => {
            p.inputs.swap(0, n - 1);
            "input order"
        }
        6 if k > 1 && m.outs[0] != m.outs[k - 1] => {
            p.outputs.swap(0, k - 1);
            "output order"
        }
        7 => {
            p.outputs.push(v2::Output::new(gen::txout(s)));
            "another output"
        }
        8 => {
            p.inputs.push(v2::Input::new(&gen::outpoint(s)));
            "another input"
        }
        _ => {
            p.inputs.iter_mut().for_each(|i| {
                i.min_time = None;
                i.min_height = None;
            });
            let l = m.lock ^ (1 << s.u(32));
            if s.bool() {
                p.global.fallback_lock_time = Some(LockTime::from_consensus(l));
            } else {
                let j = s.us(n);
                match LockTime::from_consensus(l) {
                    LockTime::Blocks(h) => p.inputs[j].min_height = Some(h),
                    LockTime::Seconds(t) => p.inputs[j].min_time = Some(t),
                }
            }
            "lock time"
        }
    };
    p.global.input_count = p.inputs.len();
    p.global.output_count = p.outputs.len();
    ctx.note(|| format!("then another {}", what));
    let v = ids(&p)?;
    check!(v.len() >= 2, "identification fails", "after change of {}", what);
    for (role, got) in v {
        check!(got != id, format!("{} id does not depend on the {}", role, what), "{}", got);
    }
    Ok(())
}

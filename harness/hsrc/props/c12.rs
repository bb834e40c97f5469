//! C12: signing changes nothing but signatures and the modifiable flags.

use std::collections::BTreeMap;

use bitcoin::{ecdsa, PublicKey};
use psbt_v2::v2::{self, Psbt};

use super::c11::{self, number, store, vary, Fate, Store, TYPES};
use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::gen;
use crate::keys::secp;
use crate::source::Src;
use crate::wallet::{self, KINDS};

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        dual: true,
        quick: 150_000,
        thorough: 1_500_000,
        rule: "spends as for C11 with any flags byte, foreign signatures and metadata, signed by up to four stores one after the other, repeats among them and encoding in between; compared with a model after each: flags by the types of the signatures added, all else as before; and the flag rule alone for every type and flags byte; non-trivial when something is signed",
        assumptions: &[],
        run,
    }
}

fn flags_after(f: u8, types: &[u32]) -> u8 {
    let mut f = f;
    for t in types {
        if t & 0x80 == 0 {
            f &= !1;
        }
        if t & 0x1f != 2 {
            f &= !2;
        }
        if t & 0x1f == 3 {
            f |= 4;
        }
    }
    f
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let sp = wallet::spend(s, 3, &KINDS);
    let flags = if s.chance(1, 4) { s.u(256) as u8 } else { s.u(8) as u8 };
    let mut p = wallet::psbt2(s, &sp, flags);
    let break_it = s.chance(1, 4);
    let mut fates = vary(s, &sp, &mut p, break_it);
    if s.chance(1, 3) {
        // All of one kind, so that some flags stay.
        let t = *s.pick(&TYPES);
        for (i, f) in p.inputs.iter_mut().zip(&mut fates) {
            if let Fate::Sign(_) = f {
                i.sighash_type = Some(psbt_v2::PsbtSighashType::from_u32(number(t)));
                *f = Fate::Sign(t);
            }
        }
    }
    // What others did before.
    for i in &mut p.inputs {
        if s.chance(1, 3) {
            for _ in 0..1 + s.us(2) {
                i.partial_sigs.insert(gen::pubkey(s), gen::ecdsa_sig(s));
            }
        }
        if s.chance(1, 8) {
            i.tap_key_sig = Some(gen::tap_sig(s));
            i.sha256_preimages.insert(bitcoin::hashes::Hash::hash(b"x"), b"x".to_vec());
        }
    }
    ctx.note(|| format!("{}; flags {:#x}; fates {:?}", sp.describe(), flags, fates));

    // The rule by itself.
    let ty = *s.pick(&TYPES);
    let mut x = match v2::Signer::new(p.clone()) {
        Ok(x) => x,
        Err(e) => return fail("Signer refuses", e.to_string()),
    };
    x.ecdsa_clear_tx_modifiable(ty);
    let q = x.psbt();
    let mut w = p.clone();
    w.global.tx_modifiable_flags = flags_after(flags, &[number(ty)]);
    check!(q == w, "flags for a type", "{:?} of {:#x} gives {:#x}, expected {:#x}", ty, flags, q.global.tx_modifiable_flags, w.global.tx_modifiable_flags);

    let mut stores: Vec<Store> = (0..1 + s.us(3)).map(|_| store(s, &sp)).collect();
    if s.chance(1, 6) {
        stores.push(Store::Ordered(BTreeMap::new()));
    }
    let mut signed = false;
    for _ in 0..1 + s.few(4) {
        let st = &stores[s.us(stores.len())];
        let (q, used) = match no_panic("sign", || v2::Signer::new(p.clone()).unwrap().sign(st, secp()))? {
            Ok(x) => x,
            Err(_) => {
                ctx.class("error");
                continue;
            }
        };
        let mut w = p.clone();
        let mut types = vec![];
        for (i, f) in fates.iter().enumerate() {
            let ks = c11::keys_for(&p, i, st);
            if let (Fate::Sign(t), false) = (f, ks.is_empty()) {
                types.push(number(*t));
                for k in ks {
                    let pk: PublicKey = k.public_key(secp());
                    let sig: ecdsa::Signature = match q.inputs[i].partial_sigs.get(&pk) {
                        Some(g) => *g,
                        None => return fail("no signature", format!("input {} key {}", i, pk)),
                    };
                    w.inputs[i].partial_sigs.insert(pk, sig);
                }
            }
        }
        w.global.tx_modifiable_flags = flags_after(p.global.tx_modifiable_flags, &types);
        check!(
            q.global.tx_modifiable_flags == w.global.tx_modifiable_flags,
            "flags after signing",
            "{:#x} and types {:x?} give {:#x}, expected {:#x}",
            p.global.tx_modifiable_flags,
            types,
            q.global.tx_modifiable_flags,
            w.global.tx_modifiable_flags
        );
        for i in 0..w.inputs.len() {
            check!(q.inputs[i].partial_sigs == w.inputs[i].partial_sigs, "signatures of others", "input {}", i);
        }
        check!(q == w, "signing changes something else", "{}", first_difference(&q, &w));
        // Again.
        let (r, again) = match no_panic("sign again", || v2::Signer::new(q.clone()).unwrap().sign(st, secp()))? {
            Ok(x) => x,
            Err(e) => return fail("signing again fails", format!("{:?}", e)),
        };
        check!(r == q, "signing again changes something", "{}", first_difference(&r, &q));
        check!(again == used, "signing again reports other keys", "");
        if types.is_empty() {
            ctx.class("nothing signed");
            check!(q == p, "signing nothing changes something", "");
        } else {
            ctx.class(if q.global.tx_modifiable_flags == p.global.tx_modifiable_flags { "signed, flags kept" } else { "signed, flags changed" });
            signed = true;
        }
        p = q;
        if s.chance(1, 3) {
            let o = p.global.tx_modifiable_flags;
            p = match Psbt::deserialize(&p.serialize()) {
                Ok(x) => x,
                Err(e) => return fail("own encoding refused", e.to_string()),
            };
            check!(p.global.tx_modifiable_flags == o, "flags lost by encoding", "{:#x}", o);
        }
    }
    if signed {
        ctx.nontrivial(format!("{:?}{:?}", p, stores.len()).as_bytes());
    }
    Ok(())
}

fn first_difference(a: &Psbt, b: &Psbt) -> String {
    if a.global != b.global {
        return format!("global {:?} expected {:?}", a.global, b.global);
    }
    for (i, (x, y)) in a.inputs.iter().zip(&b.inputs).enumerate() {
        if x != y {
            return format!("input {}: {:?} expected {:?}", i, x, y);
        }
    }
    "outputs".into()
}

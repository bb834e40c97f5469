//! C06: serde serialisation is faithful in every format.

use std::fmt::Debug;

use psbt_v2::{raw, v0, v2, PsbtSighashType, Version};
use serde::de::DeserializeOwned;
use serde::Serialize;

use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::props::c01::v0_raw;
use crate::source::Src;
use crate::{gen, kv, mutate};

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        dual: true,
        quick: 120_000,
        thorough: 3_000_000,
        rule: "random typed PSBTs of both versions, their maps on their own, raw keys, proprietary keys, sighash types, versions and proofs, through JSON text, JSON values, bincode and CBOR and back, and damaged forms of each; non-trivial when the value holds an optional field or is a key/proof/type",
        assumptions: &["formats: serde_json (text and value), bincode 1.3, ciborium 0.2"],
        run,
    }
}

fn round<T: Serialize + DeserializeOwned + PartialEq + Debug>(s: &mut Src, what: &str, v: &T) -> Res {
    let e = |f: &str, e: String| -> Res { fail(format!("{} {}", what, f), e) };
    match s.u(4) {
        0 => {
            let t = match no_panic("to json", || serde_json::to_string(v))? {
                Ok(t) => t,
                Err(x) => return e("to json fails", x.to_string()),
            };
            match no_panic("from json", || serde_json::from_str::<T>(&t))? {
                Ok(w) => check!(w == *v, format!("{} json changes the value", what), "{} gives {:?}, was {:?}", t, w, v),
                Err(x) => return e("from json fails", format!("{}: {}", x, t)),
            }
            match no_panic("from json reader", || serde_json::from_reader::<_, T>(t.as_bytes()))? {
                Ok(w) => check!(w == *v, format!("{} json reader changes the value", what), "{:?} was {:?}", w, v),
                Err(x) => return e("from json reader fails", format!("{}: {}", x, t)),
            }
            damage(s, what, t.into_bytes(), |b| {
                let _ = serde_json::from_slice::<T>(b);
            })
        }
        1 => {
            let t = match no_panic("to json value", || serde_json::to_value(v))? {
                Ok(t) => t,
                Err(x) => return e("to json value fails", x.to_string()),
            };
            match no_panic("from json value", || serde_json::from_value::<T>(t.clone()))? {
                Ok(w) => check!(w == *v, format!("{} json value changes the value", what), "{} gives {:?}, was {:?}", t, w, v),
                Err(x) => return e("from json value fails", format!("{}: {}", x, t)),
            }
            Ok(())
        }
        2 => {
            let t = match no_panic("to bincode", || bincode::serialize(v))? {
                Ok(t) => t,
                Err(x) => return e("to bincode fails", x.to_string()),
            };
            match no_panic("from bincode", || bincode::deserialize::<T>(&t))? {
                Ok(w) => check!(w == *v, format!("{} bincode changes the value", what), "{} gives {:?}, was {:?}", kv::hex(&t), w, v),
                Err(x) => return e("from bincode fails", format!("{}: {}", x, kv::hex(&t))),
            }
            damage(s, what, t, |b| {
                let _ = bincode::deserialize::<T>(b);
            })
        }
        _ => {
            let mut t = vec![];
            if let Err(x) = no_panic("to cbor", || ciborium::into_writer(v, &mut t))? {
                return e("to cbor fails", x.to_string());
            }
            match no_panic("from cbor", || ciborium::from_reader::<T, _>(&t[..]))? {
                Ok(w) => check!(w == *v, format!("{} cbor changes the value", what), "{} gives {:?}, was {:?}", kv::hex(&t), w, v),
                Err(x) => return e("from cbor fails", format!("{}: {}", x, kv::hex(&t))),
            }
            damage(s, what, t, |b| {
                let _ = ciborium::from_reader::<T, _>(b);
            })
        }
    }
}

fn damage(s: &mut Src, what: &str, mut b: Vec<u8>, f: impl Fn(&[u8])) -> Res {
    if s.bool() {
        for _ in 0..1 + s.u(3) {
            mutate::mutate_raw(s, &mut b);
        }
        no_panic(&format!("{} from damaged serde data {}", what, kv::hex(&b[..b.len().min(400)])), || f(&b))?;
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.u(12) {
        0..=3 => {
            let p = gen::psbt2(s);
            ctx.class("v2 psbt");
            let b = p.serialize();
            ctx.note(|| format!("v2 {}", kv::hex(&b)));
            ctx.nontrivial(&b);
            round(s, "v2 psbt", &p)?;
        }
        4..=6 => {
            let (r, _) = v0_raw(s);
            let b = r.encode();
            let p = match v0::Psbt::deserialize(&b) {
                Ok(p) => p,
                Err(e) => return fail("well-formed v0 PSBT refused", e.to_string()),
            };
            ctx.class("v0 psbt");
            ctx.note(|| format!("v0 {}", kv::hex(&b)));
            ctx.nontrivial(&b);
            round(s, "v0 psbt", &p)?;
            if let Some(i) = p.inputs.first() {
                round(s, "v0 input", i)?;
            }
            if let Some(o) = p.outputs.first() {
                round(s, "v0 output", o)?;
            }
        }
        7 => {
            ctx.class("v2 maps");
            let (g, i, o) = (gen::global(s), gen::input(s), gen::output(s));
            ctx.nontrivial(format!("{:?}{:?}{:?}", g, i, o).as_bytes());
            ctx.note(|| format!("maps {:?} {:?} {:?}", g, i, o));
            round(s, "v2 global", &g)?;
            round(s, "v2 input", &i)?;
            round(s, "v2 output", &o)?;
        }
        8 => {
            ctx.class("creator");
            let mut c = v2::Creator::new();
            if s.bool() {
                c = c.inputs_modifiable();
            }
            if s.bool() {
                c = c.fallback_lock_time(bitcoin::absolute::LockTime::from_consensus(s.u32_edge()));
            }
            round(s, "creator", &c)?;
            let p = gen::psbt2(s);
            if let Ok(u) = v2::Updater::new(p.clone()) {
                ctx.nontrivial(&p.serialize());
                round(s, "updater", &u)?;
            }
        }
        9 => {
            ctx.class("keys");
            let k = gen::unknown_key(s, gen::MapKind::Input);
            let pk = gen::prop_key(s);
            let pair = raw::Pair { key: k.clone(), value: gen::blob(s) };
            ctx.nontrivial(format!("{:?}{:?}", k, pk).as_bytes());
            ctx.note(|| format!("{:?} {:?}", k, pk));
            round(s, "raw key", &k)?;
            round(s, "raw pair", &pair)?;
            round(s, "proprietary key", &pk)?;
            let vk = v0::bitcoin::raw::Key { type_value: k.type_value, key: k.key.clone() };
            round(s, "v0 raw key", &vk)?;
        }
        10 => {
            ctx.class("numbers");
            let t = PsbtSighashType::from_u32(gen::sighash_u32(s));
            ctx.nontrivial(&t.to_u32().to_le_bytes());
            ctx.note(|| format!("{:?}", t));
            round(s, "sighash type", &t)?;
            let version = if s.bool() { Version::TWO } else { Version::ZERO };
            round(s, "version", &version)?;
        }
        _ => {
            #[cfg(feature = "sp")]
            {
                ctx.class("proof");
                let p = v2::DleqProof(s.arr());
                ctx.nontrivial(&p.0);
                ctx.note(|| format!("{:?}", p));
                round(s, "proof", &p)?;
                round(s, "proof list", &vec![p, p])?;
            }
        }
    }
    Ok(())
}

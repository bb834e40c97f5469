//! C05: decoding and re-encoding a PSBT loses and invents nothing.

use psbt_v2::{v0, v2};

use crate::engine::{fail, Ctx, Prop, Res};
use crate::kv::{Kv, Raw};
use crate::model2::{self, Outcome};
use crate::props::c01::v0_raw;
use crate::source::Src;
use crate::{gen, kv, mutate};

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        dual: true,
        quick: 400_000,
        thorough: 10_000_000,
        rule: "well-formed key-value maps of both versions in random field order (also mutated ones that stay well-formed, and with the optional defaults left out), decoded and re-encoded, maps compared as sets of pairs; non-trivial when some map holds an optional field",
        assumptions: &["well-formed excludes what C04 leaves open"],
        run,
    }
}

fn compare(input: &Raw, output: &[u8], normalise: impl Fn(&mut Raw, &mut Raw)) -> Res {
    let mut got = match Raw::parse(output) {
        Ok(r) => r,
        Err(e) => return fail("re-encoding is not a PSBT", e),
    };
    let mut want = input.clone();
    normalise(&mut want, &mut got);
    let (a, b) = (want.sorted(), got.sorted());
    check!(a.maps.len() == b.maps.len(), "number of maps changed", "{} maps read, {} written", a.maps.len(), b.maps.len());
    for (i, (x, y)) in a.maps.iter().zip(&b.maps).enumerate() {
        if x != y {
            let lost: Vec<&Kv> = x.iter().filter(|k| !y.contains(k)).collect();
            let extra: Vec<&Kv> = y.iter().filter(|k| !x.contains(k)).collect();
            return fail("pairs changed", format!("map {}: lost {:x?}, invented {:x?}, read {} pairs, wrote {}", i, lost, extra, x.len(), y.len()));
        }
    }
    Ok(())
}

/// A form of a taproot tree that does not depend on the order of the children of a branch.
fn tree_form(v: &[u8]) -> Option<Vec<u8>> {
    fn node(r: &mut &[u8], depth: u8) -> Option<Vec<u8>> {
        if *r.first()? == depth {
            let version = *r.get(1)?;
            *r = &r[2..];
            let (n, _) = kv::get_compact(r)?;
            let script = r.get(..n as usize)?;
            *r = &r[n as usize..];
            let mut out = vec![0, version];
            kv::put_compact(&mut out, n);
            out.extend_from_slice(script);
            return Some(out);
        }
        if depth >= 128 {
            return None;
        }
        let (a, b) = (node(r, depth + 1)?, node(r, depth + 1)?);
        let mut out = vec![1];
        out.extend_from_slice((&a).min(&b));
        out.extend_from_slice((&a).max(&b));
        Some(out)
    }
    let mut r = v;
    let t = node(&mut r, 0)?;
    if r.is_empty() { Some(t) } else { None }
}

fn tree_forms(r: &mut Raw, n_inputs: usize) {
    for m in r.maps.iter_mut().skip(1 + n_inputs) {
        for k in m.iter_mut() {
            if k.ty == 0x06 && k.key.is_empty() {
                if let Some(t) = tree_form(&k.val) {
                    k.val = t;
                }
            }
        }
    }
}

/// Proprietary keys as raw keys and back.
fn keys(s: &mut Src, ctx: &mut Ctx) -> Res {
    use v0::bitcoin::raw as raw0;
    let k = gen::prop_key(s);
    let mut want = kv::compact(k.prefix.len() as u64);
    want.extend(&k.prefix);
    want.push(k.subtype);
    want.extend(&k.key);
    let k0 = raw0::ProprietaryKey { prefix: k.prefix.clone(), subtype: k.subtype, key: k.key.clone() };
    let (a, b) = (k.to_key(), k0.to_key());
    ctx.class("proprietary key");
    ctx.nontrivial(&want);
    ctx.note(|| format!("proprietary key {:?}", k));
    check!(a.type_value == 0xfc && b.type_value == 0xfc, "type of a proprietary key", "{:?}", a);
    check!(a.key == want && b.key == want, "data of a proprietary key", "{:?} and {:?}, expected {:?}", a.key, b.key, want);
    let (c, d) = (psbt_v2::raw::ProprietaryKey::<u8>::try_from(a.clone()), raw0::ProprietaryKey::<u8>::try_from(b.clone()));
    check!(c.as_ref().ok() == Some(&k), "proprietary key from its raw key", "{:?}", c);
    check!(d.as_ref().ok() == Some(&k0), "proprietary key from its raw key", "{:?}", d);
    let (mut a, mut b) = (a, b);
    a.type_value = s.u(256) as u8;
    b.type_value = a.type_value;
    let (c, d) = (psbt_v2::raw::ProprietaryKey::<u8>::try_from(a.clone()).is_ok(), raw0::ProprietaryKey::<u8>::try_from(b).is_ok());
    check!(c == (a.type_value == 0xfc) && c == d, "proprietary key from a key of another type", "{:?}", a);
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.chance(1, 20) {
        return keys(s, ctx);
    }
    if s.chance(1, 3) {
        let (mut r, n) = v0_raw(s);
        mutate::shuffle_fields(s, &mut r);
        let zero_version = s.chance(1, 6);
        if zero_version {
            r.maps[0].push(Kv::new(0xfb, &[], &[0; 4]));
        }
        let mutated = s.chance(1, 4);
        if mutated {
            mutate::mutate_kv(s, &mut r, n);
        }
        let bytes = r.encode();
        ctx.note(|| format!("v0 {}", kv::hex(&bytes)));
        let p = match v0::Psbt::deserialize(&bytes) {
            Ok(p) => p,
            Err(_) if mutated => return Ok(()),
            Err(e) => return fail("well-formed v0 PSBT refused", e.to_string()),
        };
        if mutated && (!settled_v0(&bytes) || r.maps.len() != 1 + p.inputs.len() + p.outputs.len()) {
            ctx.class("v0 open");
            return Ok(());
        }
        ctx.class("v0");
        ctx.nontrivial(&bytes);
        let out = p.serialize();
        let ni = p.inputs.len();
        compare(&r, &out, |want, got| {
            tree_forms(want, ni);
            tree_forms(got, ni);
            want.maps[0].retain(|k| !(k.ty == 0xfb && k.key.is_empty() && k.val == [0; 4]));
        })?;
        let again = match v0::Psbt::deserialize(&out) {
            Ok(p) => p,
            Err(e) => return fail("own v0 encoding does not decode", e.to_string()),
        };
        check!(again.serialize() == out, "v0 encoding not canonical", "{}", kv::hex(&out));
        check!(again == p, "v0 value changes on re-decoding", "{}", kv::hex(&out));
    } else {
        let p = gen::psbt2(s);
        let mut r = model2::to_raw(&p);
        mutate::shuffle_fields(s, &mut r);
        if s.chance(1, 4) {
            r.maps[0].retain(|k| k.ty != 0x06);
            ctx.class("flags absent");
        }
        let mutated = s.chance(1, 4);
        if mutated {
            mutate::mutate_kv(s, &mut r, p.inputs.len());
        }
        let bytes = r.encode();
        ctx.note(|| format!("v2 {}", kv::hex(&bytes)));
        let g = match v2::Psbt::deserialize(&bytes) {
            Ok(p) => p,
            Err(_) if mutated => return Ok(()),
            Err(e) => return fail("well-formed v2 PSBT refused", e.to_string()),
        };
        if mutated && !matches!(model2::decode(&bytes), Outcome::Accept(_)) {
            ctx.class("v2 open");
            return Ok(());
        }
        ctx.class("v2");
        ctx.nontrivial(&bytes);
        let out = g.serialize();
        let (ni, sp) = (g.inputs.len(), cfg!(feature = "sp"));
        compare(&r, &out, |want, got| {
            tree_forms(want, ni);
            tree_forms(got, ni);
            if !want.maps[0].iter().any(|k| k.ty == 0x06) {
                want.maps[0].push(Kv::new(0x06, &[], &[0]));
            }
            // Bytes after a count carry nothing.
            for m in [want, got] {
                for k in m.maps[0].iter_mut().filter(|k| (k.ty == 4 || k.ty == 5) && k.key.is_empty()) {
                    let n = kv::get_compact(&mut &k.val[..]).map(|n| n.0).unwrap_or(0);
                    k.val = kv::compact(n);
                }
                // An explicit empty script of a silent payment output is the same as none.
                if sp {
                    for o in m.maps.iter_mut().skip(1 + ni) {
                        if o.iter().any(|k| k.ty == 9 && k.key.is_empty()) {
                            o.retain(|k| !(k.ty == 4 && k.key.is_empty() && k.val.is_empty()));
                        }
                    }
                }
            }
        })?;
        let again = match v2::Psbt::deserialize(&out) {
            Ok(p) => p,
            Err(e) => return fail("own v2 encoding does not decode", e.to_string()),
        };
        check!(again.serialize() == out, "v2 encoding not canonical", "{}", kv::hex(&out));
        check!(again == g, "v2 value changes on re-decoding", "{}", kv::hex(&out));
    }
    Ok(())
}

/// Nothing in these v0 bytes is of the kind that C04 leaves open: judged by giving the maps the
/// version 2 required fields and asking the model.
fn settled_v0(bytes: &[u8]) -> bool {
    let Ok(r) = Raw::parse(bytes) else { return false };
    let Some(tx) = r.maps[0].iter().find(|k| k.ty == 0) else { return false };
    let Ok(tx) = bitcoin::consensus::encode::deserialize::<bitcoin::Transaction>(&tx.val) else {
        return settled_no_inputs(&r);
    };
    if r.maps.len() != 1 + tx.input.len() + tx.output.len() {
        return false;
    }
    as_v2(&r, tx.input.len())
}

fn settled_no_inputs(r: &Raw) -> bool { as_v2(r, 0) }

fn as_v2(r: &Raw, n_in: usize) -> bool {
    let mut q = r.clone();
    q.maps[0].retain(|k| k.ty != 0 && k.ty != 0xfb);
    if q.maps[0].iter().any(|k| matches!(k.ty, 2..=8)) {
        return false;
    }
    let n_out = r.maps.len() - 1 - n_in;
    q.maps[0].push(Kv::new(0xfb, &[], &2u32.to_le_bytes()));
    q.maps[0].push(Kv::new(0x02, &[], &2u32.to_le_bytes()));
    q.maps[0].push(Kv::new(0x04, &[], &kv::compact(n_in as u64)));
    q.maps[0].push(Kv::new(0x05, &[], &kv::compact(n_out as u64)));
    for m in q.maps[1..1 + n_in].iter_mut() {
        m.push(Kv::new(0x0e, &[], &[0; 32]));
        m.push(Kv::new(0x0f, &[], &[0; 4]));
        m.retain(|k| !matches!(k.ty, 0x1d | 0x1e));
    }
    for m in q.maps[1 + n_in..].iter_mut() {
        m.push(Kv::new(0x03, &[], &[0; 8]));
        m.push(Kv::new(0x04, &[], &[]));
        m.retain(|k| !matches!(k.ty, 0x09 | 0x0a));
    }
    matches!(model2::decode(&q.encode()), Outcome::Accept(_))
}

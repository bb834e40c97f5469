//! C07: combining v2 PSBTs is a lossless, order-independent merge.

use std::collections::BTreeMap;

use bitcoin::absolute::LockTime;
use bitcoin::bip32::ChildNumber;
use bitcoin::{transaction, Amount};
use psbt_v2::v2::{self, Psbt};

use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::kv::{self, Kv, Map, Raw};
use crate::model2::to_raw;
use crate::props::c01::render;
use crate::source::Src;
use crate::wallet::bip370_lock;
use crate::gen;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        dual: true,
        quick: 150_000,
        thorough: 5_000_000,
        rule: "a random ancestor PSBT and two to three descendants of it, each with random additional pairs (some conflicting, some shared) in any map, different modifiable flags and sequences, sometimes lock time fields, and sometimes a difference in what identifies the transaction; oracle: key-wise union of the raw pairs, and the algebraic laws; non-trivial when the combined operands each have a pair the other lacks, or when rejection is required",
        assumptions: &[
            "operands with conflicting key sources of one xpub may be combined or refused, but in the same way in both orders",
            "operands of equal lock time whose merged requirements give another lock time may be refused, in both orders",
            "flag bits without meaning may come from either operand",
        ],
        run,
    }
}

const G_ID: [u8; 6] = [0x02, 0x03, 0x04, 0x05, 0x06, 0xfb];
const I_ID: [u8; 5] = [0x0e, 0x0f, 0x10, 0x11, 0x12];
const O_ID: [u8; 2] = [0x03, 0x04];

fn add(s: &mut Src, m: &mut Map, donor: &Map, id: &[u8], sp: &[u8], conflicts: bool) {
    // Fields that must be present together.
    let take_sp = s.bool();
    for p in donor {
        if id.contains(&p.ty) {
            continue;
        }
        if sp.contains(&p.ty) {
            if !take_sp {
                continue;
            }
        } else if s.bool() {
            continue;
        }
        let key = p.full_key();
        match m.iter_mut().find(|q| q.full_key() == key) {
            Some(q) => {
                if conflicts {
                    q.val = p.val.clone();
                }
            }
            None => m.push(p.clone()),
        }
    }
}

fn descend(s: &mut Src, base: &Raw, donors: &Raw, n: usize, conflicts: bool) -> Raw {
    let mut r = base.clone();
    for (k, m) in r.maps.iter_mut().enumerate() {
        let d = &donors.maps[k];
        if k == 0 {
            add(s, m, d, &G_ID, &[7, 8], conflicts);
        } else if k <= n {
            add(s, m, d, &I_ID, &[0x1d, 0x1e], conflicts);
            if s.chance(1, 4) {
                set(m, 0x10, &s.u32_edge().to_le_bytes());
            }
        } else {
            add(s, m, d, &O_ID, &[9, 0x0a], conflicts);
        }
    }
    if s.bool() {
        let f = if s.bool() { s.u(8) as u8 } else { s.u(256) as u8 };
        set(&mut r.maps[0], 0x06, &[f]);
    }
    if s.chance(1, 6) {
        // Lock time fields.
        match s.u(3) {
            0 => set(&mut r.maps[0], 0x03, &s.u32_edge().to_le_bytes()),
            k if n > 0 => {
                let i = 1 + s.us(n);
                if k == 1 {
                    set(&mut r.maps[i], 0x11, &gen::time(s).to_consensus_u32().to_le_bytes());
                } else {
                    set(&mut r.maps[i], 0x12, &gen::height(s).to_consensus_u32().to_le_bytes());
                }
            }
            _ => {}
        }
    }
    r
}

fn set(m: &mut Map, ty: u8, val: &[u8]) {
    m.retain(|p| p.ty != ty);
    m.push(Kv::new(ty, &[], val));
}

fn lock(p: &Psbt) -> Option<u32> {
    let l: Vec<_> = p.inputs.iter().map(|i| (i.min_time.map(|x| x.to_consensus_u32()), i.min_height.map(|x| x.to_consensus_u32()))).collect();
    bip370_lock(p.global.fallback_lock_time.map(|l| l.to_consensus_u32()), &l)
}

fn decode(r: &Raw) -> Res<Psbt> {
    let b = r.encode();
    match Psbt::deserialize(&b) {
        Ok(p) => Ok(p),
        Err(e) => fail("well-formed PSBT refused", format!("{}: {}", e, kv::hex(&b))),
    }
}

/// None: either; Some: the combination must succeed or fail.
fn expected(a: &Psbt, b: &Psbt) -> Option<bool> {
    let same = a.global.tx_version == b.global.tx_version
        && a.inputs.len() == b.inputs.len()
        && a.outputs.len() == b.outputs.len()
        && a.inputs.iter().zip(&b.inputs).all(|(x, y)| x.previous_txid == y.previous_txid && x.spent_output_index == y.spent_output_index)
        && a.outputs.iter().zip(&b.outputs).all(|(x, y)| x.amount == y.amount && x.script_pubkey == y.script_pubkey);
    let (la, lb) = (lock(a), lock(b));
    if !same || la.is_none() || la != lb {
        return Some(false);
    }
    if a.global.xpubs.iter().any(|(k, v)| b.global.xpubs.get(k).map_or(false, |w| w != v)) {
        return None;
    }
    let locks = |p: &Psbt| (p.global.fallback_lock_time, p.inputs.iter().map(|i| (i.min_time, i.min_height)).collect::<Vec<_>>());
    if locks(a) != locks(b) {
        return None;
    }
    Some(true)
}

fn combine(a: &Psbt, b: &Psbt) -> Res<Option<Psbt>> {
    let r = no_panic("combine", || v2::combine(a.clone(), b.clone()))?;
    let q = no_panic("combine_with", || a.clone().combine_with(b.clone()))?;
    match (r, q) {
        (Ok(r), Ok(q)) => {
            check!(r == q, "combine and combine_with differ", "{} {}", r, q);
            Ok(Some(r))
        }
        (Err(r), Err(q)) => {
            check!(r == q, "combine and combine_with differ", "{} {}", r, q);
            render(&r)?;
            Ok(None)
        }
        (r, q) => fail("combine and combine_with differ", format!("{:?} {:?}", r.is_ok(), q.is_ok())),
    }
}

fn pairs(m: &Map) -> BTreeMap<Vec<u8>, Vec<u8>> { m.iter().map(|p| (p.full_key(), p.val.clone())).collect() }

fn union(a: &Raw, b: &Raw, r: &Raw) -> Res {
    check!(r.maps.len() == a.maps.len(), "number of maps", "{} of {}", r.maps.len(), a.maps.len());
    for (k, m) in r.maps.iter().enumerate() {
        let (x, y, z) = (pairs(&a.maps[k]), pairs(&b.maps[k]), pairs(m));
        for (key, v) in &z {
            let (p, q) = (x.get(key), y.get(key));
            if k == 0 && key[..] == [6] {
                let (p, q) = (p.map_or(0, |v| v[0]), q.map_or(0, |v| v[0]));
                let v = v[0];
                check!(v & 3 == p & q & 3, "modifiable flags after combining", "{:#x} and {:#x} give {:#x}", p, q, v);
                check!(v & 4 == (p | q) & 4, "single flag after combining", "{:#x} and {:#x} give {:#x}", p, q, v);
                check!(v & !(p | q) == 0 && p & q & !v & !7 == 0, "other flags after combining", "{:#x} and {:#x} give {:#x}", p, q, v);
                continue;
            }
            check!(p.is_some() || q.is_some(), format!("combining invents type {:#x} in {}", key[0], kind(a, k)), "{}", kv::hex(key));
            check!(p == Some(v) || q == Some(v), format!("combining changes type {:#x} in {}", key[0], kind(a, k)), "{}: {}", kv::hex(key), kv::hex(v));
        }
        for key in x.keys().chain(y.keys()) {
            // An empty script beside silent payment data is written as no script.
            if key[..] == [4] && kind(a, k) == "output" && z.contains_key(&[9u8][..]) && x.get(key).or(y.get(key)).unwrap().is_empty() {
                continue;
            }
            check!(z.contains_key(key), format!("combining loses type {:#x} in {}", key[0], kind(a, k)), "{}", kv::hex(key));
        }
    }
    Ok(())
}

fn kind(a: &Raw, k: usize) -> &'static str {
    let n = a.maps[0].iter().find(|p| p.ty == 4).map_or(0, |p| p.val[0] as usize);
    if k == 0 {
        "global"
    } else if k <= n {
        "input"
    } else {
        "output"
    }
}

/// Changes something that identifies the transaction.
fn other_tx(s: &mut Src, p: &mut Psbt) -> Option<&'static str> {
    let (n, m) = (p.inputs.len(), p.outputs.len());
    Some(match s.u(11) {
        0 => {
            p.global.tx_version = transaction::Version(p.global.tx_version.0 ^ (1 << s.u(32)));
            "version"
        }
        1 if n > 0 => {
            p.inputs[s.us(n)].spent_output_index ^= 1 << s.u(32);
            "output index"
        }
        2 if n > 0 => {
            use bitcoin::hashes::Hash;
            let i = &mut p.inputs[s.us(n)];
            let mut t = i.previous_txid.to_byte_array();
            t[s.us(32)] ^= 1 << s.u(8);
            i.previous_txid = bitcoin::Txid::from_byte_array(t);
            "txid"
        }
        3 if m > 0 => {
            let o = &mut p.outputs[s.us(m)];
            o.amount = Amount::from_sat(o.amount.to_sat() ^ (1 << s.u(64)));
            "amount"
        }
        4 if m > 0 => {
            let o = &mut p.outputs[s.us(m)];
            let mut b = o.script_pubkey.to_bytes();
            if b.is_empty() || s.bool() {
                b.push(s.u(256) as u8);
            } else {
                let k = s.us(b.len());
                b[k] ^= 1 << s.u(8);
            }
            o.script_pubkey = b.into();
            "script"
        }
        5 => {
            p.inputs.push(v2::Input::new(&gen::outpoint(s)));
            p.global.input_count += 1;
            "more inputs"
        }
        6 if n > 0 => {
            p.inputs.pop();
            p.global.input_count -= 1;
            "less inputs"
        }
        7 => {
            p.outputs.push(v2::Output::new(gen::txout(s)));
            p.global.output_count += 1;
            "more outputs"
        }
        8 if m > 0 => {
            p.outputs.pop();
            p.global.output_count -= 1;
            "less outputs"
        }
        9 if n > 1 => {
            p.inputs.swap(0, n - 1);
            "input order"
        }
        10 if m > 1 => {
            p.outputs.swap(0, m - 1);
            "output order"
        }
        _ => {
            let l = lock(p).unwrap_or(0);
            p.inputs.iter_mut().for_each(|i| {
                i.min_time = None;
                i.min_height = None;
            });
            p.global.fallback_lock_time = Some(LockTime::from_consensus(l ^ (1 << s.u(32))));
            "lock time"
        }
    })
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.few(3);
    let m = s.few(3);
    let build = |s: &mut Src, n: usize, m: usize, locks: bool| -> Psbt {
        let mut p = Psbt { global: gen::global(s), inputs: vec![], outputs: vec![] };
        for _ in 0..n {
            let mut i = gen::input(s);
            if !locks {
                i.min_time = None;
                i.min_height = None;
            }
            p.inputs.push(i);
        }
        for _ in 0..m {
            p.outputs.push(gen::output(s));
        }
        p.global.input_count = n;
        p.global.output_count = m;
        p
    };
    let locks = s.chance(1, 8);
    let mut base = build(s, n, m, locks);
    if s.bool() {
        // Little in the ancestor.
        base.inputs.iter_mut().for_each(|i| *i = v2::Input::new(&bitcoin::OutPoint { txid: i.previous_txid, vout: i.spent_output_index }));
    }
    let donors: Vec<Raw> = (0..2)
        .map(|_| {
            let mut d = to_raw(&build(s, n, m, false));
            // Scripts of silent payment outputs may be missing, keep the ancestor's.
            d.maps.iter_mut().skip(1 + n).for_each(|m| m.retain(|p| !O_ID.contains(&p.ty)));
            d
        })
        .collect();
    let conflicts = s.bool();
    let base = to_raw(&base);
    let mut ops: Vec<Psbt> = vec![];
    for _ in 0..3 {
        let d = if s.bool() { &donors[0] } else { &donors[1] };
        let r = descend(s, &base, d, n, conflicts);
        ops.push(decode(&r)?);
    }
    if s.chance(1, 8) {
        // Sources of one xpub: equal, longer, of another key, of another length.
        let (x, _) = gen::xpub(s);
        let (fp, path) = crate::keys::key_source(s);
        let path: Vec<ChildNumber> = path.into_iter().copied().take(6).collect();
        for p in &mut ops {
            let mut f = fp;
            let mut l = path.clone();
            if s.chance(1, 4) {
                let (g, _) = crate::keys::key_source(s);
                f = g;
            }
            match s.u(5) {
                0 => l.insert(0, ChildNumber::from(s.u32_edge())),
                1 => l.push(ChildNumber::from(s.u32_edge())),
                2 => {
                    l.pop();
                }
                3 if !l.is_empty() => {
                    l.remove(0);
                }
                _ => {}
            }
            p.global.xpubs.insert(x, (f, l.into()));
        }
        ctx.class("sources of one xpub");
    }
    if s.chance(1, 4) {
        if let Some(w) = other_tx(s, &mut ops[1]) {
            ctx.class(format!("different {}", w));
        }
    }
    let (a, b, c) = (&ops[0], &ops[1], &ops[2]);
    ctx.note(|| format!("a {} b {} c {}", kv::hex(&a.serialize()), kv::hex(&b.serialize()), kv::hex(&c.serialize())));

    // Idempotent.
    for p in [a, b] {
        match (combine(p, p)?, lock(p)) {
            (Some(r), Some(_)) => check!(r == *p, "combining with itself changes", "{} to {}", p, r),
            (None, None) => {}
            (r, l) => return fail("combining with itself", format!("{:?} with lock time {:?}", r.is_some(), l)),
        }
    }
    let law = |x: &Psbt, y: &Psbt, what: &str| -> Res<Option<Psbt>> {
        let (xy, yx) = (combine(x, y)?, combine(y, x)?);
        let want = expected(x, y);
        match (&xy, &yx) {
            (Some(r), Some(q)) => {
                check!(r == q, "combine is not commutative", "{}: {} and {}", what, r, q);
                check!(want != Some(false), "combines PSBTs of different transactions", "{}", what);
                check!(lock(r) == lock(x), "combining changes the lock time", "{:?} to {:?}", lock(x), lock(r));
                union(&to_raw(x), &to_raw(y), &to_raw(r))?;
                check!(r.global.input_count == r.inputs.len() && r.global.output_count == r.outputs.len(), "counts after combining", "{:?}", r.global);
                let back = Psbt::deserialize(&r.serialize()).ok();
                check!(back.as_ref() == Some(r), "combined PSBT does not survive encoding", "{}", r);
            }
            (None, None) => check!(want != Some(true), "refuses to combine", "{}: {:?}", what, v2::combine(x.clone(), y.clone()).err()),
            _ => return fail("only one order of combining succeeds", format!("{}: {} {}", what, xy.is_some(), yx.is_some())),
        }
        Ok(xy)
    };
    let ab = law(a, b, "a b")?;
    let bc = law(b, c, "b c")?;
    let ac = law(a, c, "a c")?;
    let (ra, rb) = (to_raw(a), to_raw(b));
    let lacks = |x: &Raw, y: &Raw| x.maps.iter().zip(&y.maps).any(|(m, o)| pairs(m).keys().any(|k| !pairs(o).contains_key(k)));
    let want = expected(a, b);
    if ab.is_some() && lacks(&ra, &rb) && lacks(&rb, &ra) || want == Some(false) {
        ctx.nontrivial(format!("{}{}", a, b).as_bytes());
    }
    ctx.class(match want {
        None => "either",
        Some(true) => "combined",
        Some(false) => "rejected",
    });
    if let Some(ab) = &ab {
        // Absorption.
        let r = combine(ab, b)?;
        check!(r.as_ref() == Some(ab), "combining again changes", "{:?}", r.map(|r| r.to_string()));
        if let (Some(bc), Some(_)) = (&bc, &ac) {
            match (combine(ab, c)?, combine(a, bc)?) {
                (Some(x), Some(y)) => check!(x == y, "combine is not associative", "{} and {}", x, y),
                (None, None) => {}
                (x, y) => check!(
                    expected(a, b) != Some(true) || expected(b, c) != Some(true) || expected(a, c) != Some(true),
                    "only one grouping of combining succeeds", "{} {}", x.is_some(), y.is_some()
                ),
            }
        }
    }
    Ok(())
}

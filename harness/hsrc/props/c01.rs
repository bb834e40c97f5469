//! C01: decoding untrusted data never crashes and every failure can be reported.

use std::str::FromStr;

use psbt_v2::{v0, v2};

use crate::alloc::measure;
use crate::engine::{fail, last_panic, no_panic, Ctx, Prop, Res};
use crate::source::Src;
use crate::{gen, kv, model2, mutate};

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        dual: true,
        quick: 400_000,
        thorough: 12_000_000,
        rule: "random typed PSBTs of both versions, encoded, then damaged by 0-3 key-value mutations and 0-4 byte mutations (truncation, bit flips, forged lengths and counts, insertions, splices), also as base64, JSON and bincode text, plus pure noise; non-trivial when the data carries the magic (or its text form) and was damaged",
        assumptions: &["memory bound: 64 MiB (rust-bitcoin reserves up to 32 MB for a claimed witness size) plus 400 bytes per input byte, peak measured by the allocator of the process", "bincode and serde_json are the serde formats tried"],
        run,
    }
}

/// Walks an error and its causes; all must render.
pub fn render(e: &dyn std::error::Error) -> Res {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut cur: Option<&dyn std::error::Error> = Some(e);
        let mut depth = 0;
        while let Some(x) = cur {
            if x.to_string().is_empty() {
                return Err(format!("empty rendering of {:?}", x));
            }
            if format!("{:?}", x).is_empty() {
                return Err("empty debug rendering".to_string());
            }
            depth += 1;
            if depth > 64 {
                return Err("endless chain of causes".to_string());
            }
            cur = x.source();
        }
        Ok(())
    }));
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => fail("error cannot be rendered", e),
        Err(_) => fail("rendering an error panics", last_panic()),
    }
}

/// A well-formed PSBT of either version as maps, with the number of its inputs.
pub fn well_formed(s: &mut Src) -> (kv::Raw, usize, bool) {
    if s.chance(1, 3) {
        let (r, n) = v0_raw(s);
        (r, n, false)
    } else {
        let p = gen::psbt2(s);
        (model2::to_raw(&p), p.inputs.len(), true)
    }
}

pub fn v0_raw(s: &mut Src) -> (kv::Raw, usize) {
    let tx = gen::unsigned_tx(s);
    let mut p = v2::Creator::new().psbt();
    let g = gen::global(s);
    p.global.xpubs = g.xpubs;
    p.global.proprietaries = g.proprietaries;
    p.global.unknowns = g.unknowns;
    for i in &tx.input {
        let mut inp = v2::Input::new(&i.previous_output);
        let d = s.u(9);
        gen::fill_input_common(s, &mut inp, d);
        p.inputs.push(inp);
    }
    for o in &tx.output {
        let mut out = v2::Output::new(o.clone());
        let d = s.u(9);
        gen::fill_output_common(s, &mut out, d);
        p.outputs.push(out);
    }
    let n = tx.input.len();
    (model2::to_raw_v0(&tx, None, &p), n)
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut damaged = false;
    let bytes = if s.chance(1, 20) {
        let n = s.us(120);
        let mut b = if s.bool() { kv::MAGIC.to_vec() } else { vec![] };
        b.extend(s.bytes(n));
        ctx.class("noise");
        b
    } else {
        let (mut r, n, _) = well_formed(s);
        if s.bool() {
            mutate::shuffle_fields(s, &mut r);
        }
        for _ in 0..s.u(4) {
            ctx.class(format!("kv: {}", mutate::mutate_kv(s, &mut r, n)));
            damaged = true;
        }
        let mut b = r.encode();
        for _ in 0..s.u(5) {
            ctx.class(format!("bytes: {}", mutate::mutate_raw(s, &mut b)));
            damaged = true;
        }
        b
    };
    if damaged {
        ctx.nontrivial(&bytes);
    }
    ctx.note(|| format!("bytes {}", kv::hex(&bytes)));
    let bound = 64 * 1024 * 1024 + 400 * bytes.len();

    let (r2, m2) = measure(|| no_panic("v2 decode", || v2::Psbt::deserialize(&bytes)));
    let r2 = r2?;
    check!(m2 <= bound, "v2 decode memory", "{} bytes for {} bytes of input", m2, bytes.len());
    let (r0, m0) = measure(|| no_panic("v0 decode", || v0::Psbt::deserialize(&bytes)));
    let r0 = r0?;
    check!(m0 <= bound, "v0 decode memory", "{} bytes for {} bytes of input", m0, bytes.len());
    match &r2 {
        Ok(_) => ctx.class("v2 accepts"),
        Err(e) => {
            ctx.class("v2 error");
            render(e)?
        }
    }
    match &r0 {
        Ok(_) => ctx.class("v0 accepts"),
        Err(e) => {
            ctx.class("v0 error");
            render(e)?
        }
    }

    match s.u(8) {
        0 => {
            // Base64 text, intact or damaged.
            let mut t = kv::base64(&bytes).into_bytes();
            let n = s.u(3);
            for _ in 0..n {
                mutate::mutate_raw(s, &mut t);
            }
            let t = String::from_utf8_lossy(&t).into_owned();
            ctx.class("text: base64");
            let bound = 64 * 1024 * 1024 + 400 * t.len();
            let (r, m) = measure(|| no_panic("v2 from text", || v2::Psbt::from_str(&t)));
            check!(m <= bound, "v2 text memory", "{} bytes for {} bytes of text", m, t.len());
            if let Err(e) = r? {
                render(&e)?;
            }
            let (r, m) = measure(|| no_panic("v0 from text", || v0::Psbt::from_str(&t)));
            check!(m <= bound, "v0 text memory", "{} bytes for {} bytes of text", m, t.len());
            if let Err(e) = r? {
                render(&e)?;
            }
        }
        1 => {
            // Serde text of whatever was accepted, damaged.
            let mut t = match (&r2, &r0) {
                (Ok(p), _) => serde_json::to_vec(p).unwrap_or_default(),
                (_, Ok(p)) => serde_json::to_vec(p).unwrap_or_default(),
                _ => return Ok(()),
            };
            let n = s.u(3);
            for _ in 0..n {
                mutate::mutate_raw(s, &mut t);
            }
            ctx.class("text: json");
            let bound = 64 * 1024 * 1024 + 400 * t.len();
            let (r, m) = measure(|| no_panic("v2 from json", || serde_json::from_slice::<v2::Psbt>(&t)));
            check!(m <= bound, "v2 json memory", "{} bytes for {} bytes of text", m, t.len());
            if let Err(e) = r? {
                render(&e)?;
            }
            let (r, m) = measure(|| no_panic("v0 from json", || serde_json::from_slice::<v0::Psbt>(&t)));
            check!(m <= bound, "v0 json memory", "{} bytes for {} bytes of text", m, t.len());
            if let Err(e) = r? {
                render(&e)?;
            }
        }
        2 => {
            let mut t = match (&r2, &r0) {
                (Ok(p), _) => bincode::serialize(p).unwrap_or_default(),
                (_, Ok(p)) => bincode::serialize(p).unwrap_or_default(),
                _ => return Ok(()),
            };
            let n = s.u(3);
            for _ in 0..n {
                mutate::mutate_raw(s, &mut t);
            }
            ctx.class("text: bincode");
            if let Err(e) = no_panic("v2 from bincode", || bincode::deserialize::<v2::Psbt>(&t))? {
                render(&*e)?;
            }
            if let Err(e) = no_panic("v0 from bincode", || bincode::deserialize::<v0::Psbt>(&t))? {
                render(&*e)?;
            }
        }
        _ => {}
    }
    Ok(())
}

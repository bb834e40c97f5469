//! C23: PSBT versions are never confused.

use psbt_v2::{v0, v2, Version};

use crate::engine::{fail, Ctx, Prop, Res};
use crate::kv::Kv;
use crate::props::c01::{v0_raw, well_formed};
use crate::source::Src;
use crate::{gen, kv, model2, mutate};

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        dual: true,
        quick: 400_000,
        thorough: 10_000_000,
        rule: "well-formed PSBTs of one version with one field that only the other version has (well-formed value, any map, any position), with a missing or other version number, with the required fields of the other version added or removed, and freely mutated ones, given to both decoders; all 32-bit version numbers sampled; non-trivial when a field or version was planted",
        assumptions: &[],
        run,
    }
}

fn excluded_for_v0(s: &mut Src, r: &kv::Raw, n_in: usize) -> (usize, Kv) {
    let maps = r.maps.len();
    loop {
        let m = s.us(maps);
        let kv = match mutate::kind_of(r, m, n_in) {
            gen::MapKind::Global => match s.u(5) {
                0 => Kv::new(0x02, &[], &s.u32_edge().to_le_bytes()),
                1 => Kv::new(0x03, &[], &s.u32_edge().to_le_bytes()),
                2 => Kv::new(0x04, &[], &kv::compact(if s.bool() { n_in as u64 } else { s.u(300) })),
                3 => Kv::new(0x05, &[], &kv::compact(if s.bool() { (maps - 1 - n_in) as u64 } else { s.u(300) })),
                _ => Kv::new(0x06, &[], &[s.u(256) as u8]),
            },
            gen::MapKind::Input => match s.u(5) {
                0 => Kv::new(0x0e, &[], &s.bytes(32)),
                1 => Kv::new(0x0f, &[], &s.u32_edge().to_le_bytes()),
                2 => Kv::new(0x10, &[], &s.u32_edge().to_le_bytes()),
                3 => Kv::new(0x11, &[], &gen::time(s).to_consensus_u32().to_le_bytes()),
                _ => Kv::new(0x12, &[], &gen::height(s).to_consensus_u32().to_le_bytes()),
            },
            gen::MapKind::Output => match s.u(2) {
                0 => Kv::new(0x03, &[], &s.u64_edge().to_le_bytes()),
                _ => Kv::new(0x04, &[], gen::script(s).as_bytes()),
            },
        };
        return (m, kv);
    }
}

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.u(8) {
        0 | 1 => {
            // A v0 PSBT with a field of version 2.
            let (mut r, n_in) = v0_raw(s);
            mutate::shuffle_fields(s, &mut r);
            let plain = r.encode();
            if let Err(e) = v0::Psbt::deserialize(&plain) {
                return fail("well-formed v0 PSBT refused", format!("{}: {}", e, kv::hex(&plain)));
            }
            check!(v2::Psbt::deserialize(&plain).is_err(), "v0 PSBT decodes as v2", "{}", kv::hex(&plain));
            let (m, mut kv) = excluded_for_v0(s, &r, n_in);
            if s.chance(1, 6) {
                // The type is excluded, whatever else the key holds.
                let n = 1 + s.us(3);
                kv.key = s.bytes(n);
            }
            let pos = s.us(r.maps[m].len() + 1);
            r.maps[m].insert(pos, kv.clone());
            let b = r.encode();
            ctx.nontrivial(&b);
            ctx.class(format!("v2 field {:?} {:#04x} in v0", mutate::kind_of(&r, m, n_in), kv.ty));
            ctx.note(|| format!("v0 with {:x?} in map {}: {}", kv, m, kv::hex(&b)));
            check!(v0::Psbt::deserialize(&b).is_err(), "v0 PSBT with a v2 field accepted", "{:x?} in map {}", kv, m);
            check!(v2::Psbt::deserialize(&b).is_err(), "v0 PSBT decodes as v2", "{}", kv::hex(&b));
        }
        2 | 3 => {
            // A v2 PSBT with an unsigned transaction.
            let p = gen::psbt2(s);
            let mut r = model2::to_raw(&p);
            mutate::shuffle_fields(s, &mut r);
            let plain = r.encode();
            if let Err(e) = v2::Psbt::deserialize(&plain) {
                return fail("well-formed v2 PSBT refused", format!("{}: {}", e, kv::hex(&plain)));
            }
            check!(v0::Psbt::deserialize(&plain).is_err(), "v2 PSBT decodes as v0", "{}", kv::hex(&plain));
            let tx = if s.bool() {
                gen::unsigned_tx(s)
            } else {
                bitcoin::Transaction {
                    version: p.global.tx_version,
                    lock_time: bitcoin::absolute::LockTime::ZERO,
                    input: p.inputs.iter().map(|i| bitcoin::TxIn { previous_output: bitcoin::OutPoint { txid: i.previous_txid, vout: i.spent_output_index }, ..Default::default() }).collect(),
                    output: p.outputs.iter().map(|o| bitcoin::TxOut { value: o.amount, script_pubkey: o.script_pubkey.clone() }).collect(),
                }
            };
            let mut kv = Kv::new(0x00, &[], &model2::serialize_unsigned(&tx));
            if s.chance(1, 6) {
                let n = 1 + s.us(3);
                kv.key = s.bytes(n);
            }
            let pos = s.us(r.maps[0].len() + 1);
            r.maps[0].insert(pos, kv);
            if s.chance(1, 3) {
                r.maps[0].retain(|k| k.ty != 0xfb);
            }
            let b = r.encode();
            ctx.nontrivial(&b);
            ctx.class("unsigned transaction in v2");
            ctx.note(|| format!("v2 with unsigned tx at {}: {}", pos, kv::hex(&b)));
            check!(v2::Psbt::deserialize(&b).is_err(), "v2 PSBT with an unsigned transaction accepted", "position {}", pos);
            // Unless it has no version 2 field at all it is no v0 PSBT either, and it has counts.
            check!(v0::Psbt::deserialize(&b).is_err(), "v2 PSBT decodes as v0", "{}", kv::hex(&b));
        }
        4 => {
            // Version numbers.
            let v2side = s.bool();
            let mut r = if v2side { model2::to_raw(&gen::psbt2(s)) } else { v0_raw(s).0 };
            r.maps[0].retain(|k| k.ty != 0xfb);
            let n = match s.u(4) {
                0 => None,
                1 => Some(s.u(8) as u32),
                _ => Some(s.u32_edge()),
            };
            if let Some(n) = n {
                let pos = s.us(r.maps[0].len() + 1);
                r.maps[0].insert(pos, Kv::new(0xfb, &[], &n.to_le_bytes()));
            }
            let b = r.encode();
            ctx.nontrivial(&b);
            ctx.class(match n {
                None => "version absent".to_string(),
                Some(n @ 0..=7) => format!("version {}", n),
                Some(_) => "version large".to_string(),
            });
            ctx.note(|| format!("version {:?} v2 {}: {}", n, v2side, kv::hex(&b)));
            let want2 = v2side && n == Some(2);
            let want0 = !v2side && (n.is_none() || n == Some(0));
            check!(v2::Psbt::deserialize(&b).is_ok() == want2, "v2 decoder and version", "version {:?}, accepted {}", n, !want2);
            check!(v0::Psbt::deserialize(&b).is_ok() == want0, "v0 decoder and version", "version {:?}, accepted {}", n, !want0);
        }
        5 => {
            // The version type.
            let n = s.u32_edge();
            ctx.class("version type");
            match Version::try_from(n) {
                Ok(v) => {
                    check!(n == 0 || n == 2, "version number", "{} accepted as a version", n);
                    check!(v.to_u32() == n && u32::from(v) == n, "version number", "{} became {}", n, v.to_u32());
                    check!(v == if n == 0 { psbt_v2::V0 } else { psbt_v2::V2 }, "version number", "{} is {:?}", n, v);
                }
                Err(e) => {
                    check!(n != 0 && n != 2, "version number", "{} refused as a version", n);
                    check!(e.to_string().contains(&n.to_string()), "version number", "error for {} says {}", n, e);
                }
            }
            check!(psbt_v2::V0.to_u32() == 0 && psbt_v2::V2.to_u32() == 2, "version number", "constants");
            check!(v2::Creator::new().psbt().global.version == psbt_v2::V2, "version number", "creator");
        }
        _ => {
            let (mut r, n, _) = well_formed(s);
            let k = 1 + s.u(3);
            for _ in 0..k {
                if s.bool() {
                    let (m, kv) = excluded_for_v0(s, &r, n.min(r.maps.len().saturating_sub(1)));
                    r.maps[m].push(kv);
                } else {
                    mutate::mutate_kv(s, &mut r, n);
                }
                if r.maps.is_empty() {
                    r.maps.push(vec![]);
                }
            }
            let b = r.encode();
            ctx.class("mutated");
            ctx.nontrivial(&b);
            ctx.note(|| format!("mutated {}", kv::hex(&b)));
            let (a, c) = (v0::Psbt::deserialize(&b).is_ok(), v2::Psbt::deserialize(&b).is_ok());
            check!(!(a && c), "decodes as both versions", "{}", kv::hex(&b));
        }
    }
    Ok(())
}

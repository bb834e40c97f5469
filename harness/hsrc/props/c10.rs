//! C10: construction histories keep counts, order and flags.

use bitcoin::absolute::LockTime;
use bitcoin::{transaction, Sequence};
use psbt_v2::v2::{self, Constructor, Creator, Input, InputsOnlyModifiable, Modifiable, Output, OutputsOnlyModifiable, Psbt};

use crate::engine::{fail, no_panic, Ctx, Prop, Res};
use crate::source::Src;
use crate::wallet::bip370_lock;
use crate::{gen, kv};

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        dual: true,
        quick: 250_000,
        thorough: 8_000_000,
        rule: "histories of up to 14 creator, constructor (all three kinds), hand-over (directly, through bytes or base64) and updater operations, against a model of flags, version, fallback and the inputs and outputs added; non-trivial when the history has an addition and a hand-over or an update",
        assumptions: &["a constructor's own additions after it declared no more inputs or outputs are not judged"],
        run,
    }
}

#[derive(Debug, Clone, Default)]
struct Model {
    flags: u8,
    version: i32,
    fallback: Option<u32>,
    ins: Vec<Input>,
    outs: Vec<Output>,
}

impl Model {
    fn lock(&self) -> Option<u32> {
        let l: Vec<_> = self.ins.iter().map(|i| (i.min_time.map(|x| x.to_consensus_u32()), i.min_height.map(|x| x.to_consensus_u32()))).collect();
        bip370_lock(self.fallback, &l)
    }

    fn judge(&self, p: &Psbt, when: &str) -> Res {
        let g = &p.global;
        check!(g.tx_modifiable_flags == self.flags, format!("flags {}", when), "{:#x} expected {:#x}", g.tx_modifiable_flags, self.flags);
        check!(g.input_count == self.ins.len() && p.inputs.len() == self.ins.len(), format!("input count {}", when), "{} stated, {} inputs, {} added", g.input_count, p.inputs.len(), self.ins.len());
        check!(g.output_count == self.outs.len() && p.outputs.len() == self.outs.len(), format!("output count {}", when), "{} stated, {} outputs, {} added", g.output_count, p.outputs.len(), self.outs.len());
        check!(p.inputs == self.ins, format!("inputs {}", when), "{:?} expected {:?}", p.inputs, self.ins);
        check!(p.outputs == self.outs, format!("outputs {}", when), "{:?} expected {:?}", p.outputs, self.outs);
        check!(g.tx_version.0 == self.version, format!("transaction version {}", when), "{}", g.tx_version);
        check!(g.fallback_lock_time.map(|l| l.to_consensus_u32()) == self.fallback, format!("fallback lock time {}", when), "{:?}", g.fallback_lock_time);
        check!(g.xpubs.is_empty() && g.proprietaries.is_empty() && g.unknowns.is_empty(), format!("invented global fields {}", when), "{:?}", g);
        let b = p.serialize();
        match no_panic("decode", || Psbt::deserialize(&b))? {
            Ok(q) => check!(q == *p, format!("encoding changes the PSBT {}", when), "{}", kv::hex(&b)),
            Err(e) => return fail(format!("encoding refused {}", when), format!("{}: {}", e, kv::hex(&b))),
        }
        Ok(())
    }
}

enum C {
    M(Constructor<Modifiable>),
    I(Constructor<InputsOnlyModifiable>),
    O(Constructor<OutputsOnlyModifiable>),
}

const IN: u8 = 1;
const OUT: u8 = 2;
const SINGLE: u8 = 4;

fn run(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut m = Model { version: 2, ..Default::default() };
    let mut log: Vec<String> = vec![];
    let (mut added, mut handed, mut updated) = (false, false, false);
    let r = history(s, &mut m, &mut log, &mut added, &mut handed, &mut updated);
    ctx.note(|| log.join(", "));
    ctx.class(if handed { "hand-over" } else { "one entity" });
    if added && (handed || updated) {
        ctx.nontrivial(format!("{:?}{:?}", log, m).as_bytes());
    }
    r
}

fn history(s: &mut Src, m: &mut Model, log: &mut Vec<String>, added: &mut bool, handed: &mut bool, updated: &mut bool) -> Res {
    // Creator.
    let mut cr = if s.bool() { Creator::new() } else { Creator::default() };
    for _ in 0..s.u(4) {
        cr = match s.u(5) {
            0 => {
                log.push("inputs modifiable".into());
                m.flags |= IN;
                cr.inputs_modifiable()
            }
            1 => {
                log.push("outputs modifiable".into());
                m.flags |= OUT;
                cr.outputs_modifiable()
            }
            2 => {
                log.push("sighash single".into());
                m.flags |= SINGLE;
                cr.sighash_single()
            }
            3 => {
                let v = if s.bool() { 1 } else { s.u32_edge() as i32 };
                log.push(format!("version {}", v));
                m.version = v;
                cr.transaction_version(transaction::Version(v))
            }
            _ => {
                let f = s.u32_edge();
                log.push(format!("fallback {}", f));
                m.fallback = Some(f);
                cr.fallback_lock_time(LockTime::from_consensus(f))
            }
        };
    }
    let mut c = match s.u(6) {
        0 => {
            log.push("constructor".into());
            m.flags |= IN | OUT;
            C::M(cr.constructor_modifiable())
        }
        1 => {
            log.push("inputs only constructor".into());
            m.flags = (m.flags | IN) & !OUT;
            C::I(cr.constructor_inputs_only_modifiable())
        }
        2 => {
            log.push("outputs only constructor".into());
            m.flags = (m.flags | OUT) & !IN;
            C::O(cr.constructor_outputs_only_modifiable())
        }
        3 => {
            *m = Model { version: 2, ..Default::default() };
            log.push("default constructor".into());
            match s.u(3) {
                0 => {
                    m.flags = IN | OUT;
                    C::M(Default::default())
                }
                1 => {
                    m.flags = IN;
                    C::I(Default::default())
                }
                _ => {
                    m.flags = OUT;
                    C::O(Default::default())
                }
            }
        }
        _ => {
            let p = cr.psbt();
            log.push("created".into());
            m.judge(&p, "after creation")?;
            *handed = true;
            match take(s, m, log, p)? {
                Some(c) => c,
                None => return Ok(()),
            }
        }
    };
    // Constructors.
    for _ in 0..s.few(11) {
        let ins_ok = m.flags & IN != 0 && !matches!(c, C::O(_));
        let outs_ok = m.flags & OUT != 0 && !matches!(c, C::I(_));
        match s.u(8) {
            0..=2 if ins_ok => {
                let i = new_input(s);
                log.push("input".into());
                *added = true;
                m.ins.push(i.clone());
                c = match c {
                    C::M(c) => C::M(c.input(i)),
                    C::I(c) => C::I(c.input(i)),
                    c => c,
                };
            }
            3 | 4 if outs_ok => {
                let o = if s.chance(1, 3) { gen::output(s) } else { v2::OutputBuilder::new(gen::txout(s)).build() };
                log.push("output".into());
                *added = true;
                m.outs.push(o.clone());
                c = match c {
                    C::M(c) => C::M(c.output(o)),
                    C::O(c) => C::O(c.output(o)),
                    c => c,
                };
            }
            5 if s.chance(1, 2) => {
                log.push("no more inputs".into());
                m.flags &= !IN;
                c = match c {
                    C::M(c) => C::M(c.no_more_inputs()),
                    C::I(c) => C::I(c.no_more_inputs()),
                    C::O(c) => C::O(c.no_more_inputs()),
                };
            }
            6 if s.chance(1, 2) => {
                log.push("no more outputs".into());
                m.flags &= !OUT;
                c = match c {
                    C::M(c) => C::M(c.no_more_outputs()),
                    C::I(c) => C::I(c.no_more_outputs()),
                    C::O(c) => C::O(c.no_more_outputs()),
                };
            }
            7 => {
                let p = match psbt(c, m, log)? {
                    Some(p) => p,
                    None => return Ok(()),
                };
                *handed = true;
                c = match take(s, m, log, p)? {
                    Some(c) => c,
                    None => return Ok(()),
                };
            }
            _ => {}
        }
    }
    // Updater.
    let mut u = if s.bool() {
        log.push("updater".into());
        let r = no_panic("Constructor::updater", || match c {
            C::M(c) => c.updater(),
            C::I(c) => c.updater(),
            C::O(c) => c.updater(),
        })?;
        m.flags &= !(IN | OUT);
        match (r, m.lock()) {
            (Ok(u), Some(_)) => u,
            (Err(_), None) => return Ok(()),
            (r, l) => return fail("Constructor::updater", format!("{:?} with lock time {:?}", r.is_ok(), l)),
        }
    } else {
        let p = match psbt(c, m, log)? {
            Some(p) => p,
            None => return Ok(()),
        };
        log.push("updater of PSBT".into());
        *handed = true;
        match v2::Updater::new(p) {
            Ok(u) => u,
            Err(e) => return fail("Updater::new refuses a handed out PSBT", e.to_string()),
        }
    };
    m.judge(&u.clone().psbt(), "in the updater")?;
    for _ in 0..s.u(5) {
        let n = Sequence(s.u32_edge());
        let idx = match s.u(6) {
            0 => m.ins.len(),
            1 => s.u64_edge() as usize,
            _ => s.us(m.ins.len().max(1)),
        };
        log.push(format!("sequence {} of {}", n, idx));
        let before = u.clone();
        match (no_panic("set_sequence", || u.set_sequence(n, idx))?, idx < m.ins.len()) {
            (Ok(x), true) => {
                m.ins[idx].sequence = Some(n);
                *updated = true;
                u = x;
            }
            (Err(e), false) => {
                check!(!e.to_string().is_empty(), "empty error", "{:?}", e);
                u = before;
            }
            (r, _) => return fail("set_sequence", format!("{:?} for input {} of {}", r.is_ok(), idx, m.ins.len())),
        }
        m.judge(&u.clone().psbt(), "after set_sequence")?;
    }
    Ok(())
}

fn new_input(s: &mut Src) -> Input {
    match s.u(3) {
        0 => {
            let mut i = gen::input(s);
            // Impossible lock times end the history, they should be rare.
            if s.chance(3, 4) {
                i.min_time = None;
            }
            i
        }
        _ => {
            let mut want = Input::new(&gen::outpoint(s));
            let mut b = v2::InputBuilder::new(&bitcoin::OutPoint { txid: want.previous_txid, vout: want.spent_output_index });
            if s.chance(1, 8) {
                let t = gen::time(s);
                want.min_time = Some(t);
                b = b.minimum_required_time_based_lock_time(t);
            }
            if s.chance(1, 4) {
                let t = gen::height(s);
                want.min_height = Some(t);
                b = b.minimum_required_height_based_lock_time(t);
            }
            if s.bool() {
                let t = gen::txout(s);
                want.witness_utxo = Some(t.clone());
                b = b.segwit_fund(t);
            }
            if s.bool() {
                let t = gen::tx(s);
                want.non_witness_utxo = Some(t.clone());
                b = b.legacy_fund(t);
            }
            let _ = b.build();
            let mut b = v2::InputBuilder::new(&bitcoin::OutPoint { txid: want.previous_txid, vout: want.spent_output_index });
            if let Some(t) = want.min_height {
                b = b.minimum_required_height_based_lock_time(t);
            }
            if let Some(t) = want.min_time {
                b = b.minimum_required_time_based_lock_time(t);
            }
            if let Some(t) = &want.non_witness_utxo {
                b = b.legacy_fund(t.clone());
            }
            if let Some(t) = &want.witness_utxo {
                b = b.segwit_fund(t.clone());
            }
            let b = b.build();
            if b != want {
                panic!("input builder gives {:?}, expected {:?}", b, want);
            }
            b
        }
    }
}

/// Hands out the PSBT; None when its lock times are impossible.
fn psbt(c: C, m: &Model, log: &mut Vec<String>) -> Res<Option<Psbt>> {
    log.push("handed out".into());
    let r = no_panic("Constructor::psbt", || match c {
        C::M(c) => c.psbt(),
        C::I(c) => c.psbt(),
        C::O(c) => c.psbt(),
    })?;
    match (r, m.lock()) {
        (Ok(p), Some(_)) => {
            m.judge(&p, "when handed out")?;
            Ok(Some(p))
        }
        (Err(_), None) => Ok(None),
        (r, l) => fail("Constructor::psbt", format!("{:?} with lock time {:?}", r.is_ok(), l)),
    }
}

/// Another entity takes over, trying every kind of constructor.
fn take(s: &mut Src, m: &Model, log: &mut Vec<String>, p: Psbt) -> Res<Option<C>> {
    let p = match s.u(3) {
        0 => p,
        1 => match Psbt::deserialize(&p.serialize()) {
            Ok(p) => p,
            Err(e) => return fail("handed out encoding refused", e.to_string()),
        },
        _ => match p.to_string().parse() {
            Ok(p) => p,
            Err(e) => return fail("handed out text refused", format!("{}", e)),
        },
    };
    let (i, o) = (m.flags & IN != 0, m.flags & OUT != 0);
    let a = no_panic("Constructor::<Modifiable>::new", || Constructor::<Modifiable>::new(p.clone()))?;
    let b = no_panic("Constructor::<InputsOnlyModifiable>::new", || Constructor::<InputsOnlyModifiable>::new(p.clone()))?;
    let c = no_panic("Constructor::<OutputsOnlyModifiable>::new", || Constructor::<OutputsOnlyModifiable>::new(p))?;
    check!(a.is_ok() == (i && o), "Constructor::<Modifiable>::new", "{} with flags {:#x}", a.is_ok(), m.flags);
    check!(b.is_ok() == i, "Constructor::<InputsOnlyModifiable>::new", "{} with flags {:#x}", b.is_ok(), m.flags);
    check!(c.is_ok() == o, "Constructor::<OutputsOnlyModifiable>::new", "{} with flags {:#x}", c.is_ok(), m.flags);
    let mut l = vec![];
    if let Ok(a) = a {
        l.push(C::M(a));
    }
    if let Ok(b) = b {
        l.push(C::I(b));
    }
    if let Ok(c) = c {
        l.push(C::O(c));
    }
    if l.is_empty() {
        return Ok(None);
    }
    let k = s.us(l.len());
    log.push(format!("constructor {} of {}", k, l.len()));
    Ok(Some(l.swap_remove(k)))
}

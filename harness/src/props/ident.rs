//! C09 to C12: ids, caches and offsets.

use crate::engine::*;
use crate::enc;
use crate::fields::*;
use crate::gen;
use crate::keys;
use crate::model::*;
use crate::offs::{compare_offsets, offsets, want_offsets};
use crate::expect::id_of;
use crate::val::*;
use crate::{with_exec, with_tx};
use fuel_tx::*;
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use serde::{Deserialize, Serialize};
use std::hash::{Hash, Hasher};
use std::io::Write;


#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Edited {
    before: MTx,
    after: MTx,
}

pub fn c09(ctx: &mut Ctx) {
    ctx.rule(
        "transactions of every kind with every field arbitrary and up to two single-field or list edits; \
         the id is compared with the SHA-256 of an independent encoding of the blanked transaction before \
         and after, with and without cache, typed and generic, and must change exactly if the signed part \
         changed; non-trivial: the edit changed the transaction",
    );
    fn check(c: &Edited, o: &mut Obs) -> Res {
        let (a, b) = (&c.before, &c.after);
        o.nt(a != b);
        let mut real = a.real();
        let ida = id_of(&real);
        ensure_eq!(ida, enc::id(a), "id of {a:?}");
        ensure_eq!(H::from(&real.id()), ida, "id of the generic transaction");
        let mut warm = real.clone();
        with_tx!(&mut warm, t => t.precompute());
        ensure_eq!(id_of(&warm), ida, "id of the cached transaction");
        ensure_eq!(H::from(&warm.id()), ida, "id of the cached generic transaction");
        assign(&mut real, b);
        ensure_eq!(MTx::of(&real), *b, "the edited transaction");
        let idb = id_of(&real);
        ensure_eq!(idb, enc::id(b), "id of {b:?}");
        ensure_eq!(H::from(&real.id()), idb, "id of the generic transaction");
        let same = enc::signed_part(a) == enc::signed_part(b);
        o.class(if same { "signed part kept" } else { "signed part changed" });
        ensure!(same == (ida == idb), "edit {}changes the id", if same { "" } else { "not reflected: un" });
        Ok(())
    }
    ctx.part(
        "edits",
        60000,
        |g| {
            let before = gen::small_tx(g);
            let before = gen::hollow(g, before);
            let mut after = before.clone();
            for _ in 0..1 + g.below(2) {
                gen::edit_tx(g, &mut after);
            }
            Edited { before, after }
        },
        check,
    );
    ctx.part(
        "large",
        6000,
        |g| {
            let before = gen::tx(g);
            let mut after = before.clone();
            gen::edit_tx(g, &mut after);
            Edited { before, after }
        },
        check,
    );
    // hundreds or thousands of elements, described compactly
    ctx.part(
        "wide",
        15,
        |g| {
            let mut w = gen::wider(g);
            // the cache of very many predicates takes quadratic time
            w.inputs = w.inputs.min(2000);
            (w, g.u64())
        },
        |(w, seed), o| {
            let before = w.tx();
            let mut after = before.clone();
            gen::edit_tx(&mut G::seeded(*seed), &mut after);
            check(&Edited { before, after }, o)
        },
    );
    // the same transaction with one element moved into another list position
    ctx.part(
        "order",
        15000,
        |g| {
            let mut before = gen::small_tx(g);
            let extra = gen::small_tx(g);
            if !before.is_mint() && !extra.is_mint() {
                before.inputs.extend(extra.inputs);
            }
            before.outputs.extend(extra.outputs);
            let mut after = before.clone();
            match g.below(3) {
                0 if after.inputs.len() > 1 => {
                    let i = g.below(after.inputs.len());
                    let x = after.inputs.remove(i);
                    after.inputs.insert(g.below(after.inputs.len() + 1), x);
                }
                1 if after.slots.len() > 1 => {
                    let i = g.below(after.slots.len());
                    let x = after.slots.remove(i);
                    after.slots.insert(g.below(after.slots.len() + 1), x);
                }
                _ if after.outputs.len() > 1 => {
                    let i = g.below(after.outputs.len());
                    let x = after.outputs.remove(i);
                    after.outputs.insert(g.below(after.outputs.len() + 1), x);
                }
                _ => {}
            }
            Edited { before, after }
        },
        check,
    );
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Later {
    Assign(MTx),
    Sign(usize),
    PrepareScript,
    PreparePredicate,
    SetWitnesses(Vec<B>),
}

pub fn c10(ctx: &mut Ctx) {
    ctx.rule(
        "script and create transactions with every field arbitrary, followed by up to eight edits of \
         fields that may change after signing, signings, and preparations for execution; the id must stay \
         what it was at the start; non-trivial: the transaction is no longer equal to the original",
    );
    ctx.part(
        "later",
        30000,
        |g| {
            let t = gen::small_exec_tx(g);
            let mut t = gen::hollow(g, t);
            // some inputs belong to the keys
            for x in &mut t.inputs {
                if x.signed().is_some() && g.chance(1, 2) {
                    x.set_owner(gen::key_addr(g.below(gen::KEYS)));
                }
            }
            let mut m = t.clone();
            let mut steps = Vec::new();
            for _ in 0..1 + g.below(8) {
                steps.push(match g.below(12) {
                    0 => Later::Sign(g.below(gen::KEYS)),
                    1 => {
                        m.outputs.iter_mut().for_each(enc::blank_output_script);
                        Later::PrepareScript
                    }
                    2 => {
                        m.inputs.iter_mut().for_each(enc::blank_input);
                        m.outputs.iter_mut().for_each(enc::blank_output);
                        Later::PreparePredicate
                    }
                    3 => {
                        m.wits = (0..g.below(4)).map(|_| gen::bytes(g)).collect();
                        Later::SetWitnesses(m.wits.clone())
                    }
                    _ => {
                        gen::edit_malleable(g, &mut m);
                        Later::Assign(m.clone())
                    }
                });
            }
            (t, steps)
        },
        |(t, steps), o| {
            let mut real = t.real();
            let start = id_of(&real);
            ensure_eq!(start, enc::id(t), "id");
            for s in steps {
                match s {
                    Later::Assign(m) => assign(&mut real, m),
                    Later::Sign(k) => {
                        o.class("signed");
                        with_exec!(&mut real, t => t.sign_inputs(&keys::secret(*k)))
                    }
                    Later::PrepareScript => with_exec!(&mut real, t => { t.prepare_init_script(); }),
                    Later::PreparePredicate => with_exec!(&mut real, t => { t.prepare_init_predicate(); }),
                    Later::SetWitnesses(w) => with_exec!(&mut real, t => {
                        *t.witnesses_mut() = w.iter().map(|w| w.0.clone().into()).collect()
                    }),
                }
                ensure_eq!(id_of(&real), start, "id after {s:?}");
            }
            o.nt(MTx::of(&real) != *t);
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- offsets

pub fn c12(ctx: &mut Ctx) {
    ctx.rule(
        "transactions of every kind with every field arbitrary, payloads of every padding residue and \
         sometimes hundreds of elements; every reported offset for every index and several beyond the end, \
         with and without cache, is compared with the position in an independent encoding that must also \
         be the crate's encoding; non-trivial: at least two elements or a payload that needs padding",
    );
    fn check(t: &MTx, o: &mut Obs) -> Res {
        let v = MVal::Tx(t.clone());
        o.nt(v.padded() || v.rich());
        o.class(v.class());
        o.class_if(t.inputs.iter().any(|i| i.predicate().is_some()), "with predicates");
        o.class_if(t.inputs.iter().any(MIn::is_hollow), "with empty predicates");
        let mut real = t.real();
        let bytes = real.clone().to_bytes();
        ensure!(bytes == enc::tx(t), "the encoding is not the reference encoding");
        let want = want_offsets(t);
        compare_offsets(&offsets(&real), &want, "offsets")?;
        with_tx!(&mut real, t => t.precompute());
        compare_offsets(&offsets(&real), &want, "offsets of the cached transaction")?;
        // what the predicate offset points at
        for (i, x) in t.inputs.iter().enumerate() {
            if let Some((_, pred)) = x.predicate() {
                let got = with_exec!(&real, t => t.inputs_predicate_offset_at(i));
                let (at, len) = got.ok_or("no predicate offset")?;
                ensure!(
                    bytes.get(at..at + len).map(|b| b.starts_with(pred)) == Some(true),
                    "the predicate of input {i} is not at {at}"
                );
            }
        }
        Ok(())
    }
    ctx.part(
        "tx",
        40000,
        |g| {
            let t = gen::tx(g);
            gen::hollow(g, t)
        },
        check,
    );
    ctx.part("wide", 200, gen::wide, |w, o| check(&w.tx(), o));
}

// ---------------------------------------------------------------- caches

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Op {
    /// Becomes this transaction through the setters.
    Assign(MTx),
    Precompute,
    Clone,
    Sign(usize),
    PrepareScript,
    PreparePredicate,
    DecodeOver(MTx),
    /// Through bytes.
    Reencode,
    Json,
    Bincode,
    Check,
    Observe,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Story {
    start: MTx,
    height: u64,
    params: MParams,
    ops: Vec<Op>,
}

fn story(g: &mut G) -> Story {
    let kind = gen::kind(g);
    let (start, height, params) = if g.chance(1, 2) {
        let c = gen::valid(g, kind);
        (c.tx, c.height, c.params)
    } else {
        (gen::tx_of(g, kind, true), gen::word(g), MParams::default())
    };
    let mut m = start.clone();
    let mut ops = Vec::new();
    for _ in 0..2 + g.below(12) {
        ops.push(match g.below(16) {
            0..=3 => {
                gen::edit_tx(g, &mut m);
                if g.chance(1, 4) {
                    m = gen::hollow(g, m);
                }
                Op::Assign(m.clone())
            }
            4..=7 => Op::Precompute,
            8 => Op::Clone,
            9 => Op::Sign(g.below(gen::KEYS)),
            10 => match g.below(2) {
                0 => {
                    m.outputs.iter_mut().for_each(enc::blank_output_script);
                    Op::PrepareScript
                }
                _ => {
                    m.inputs.iter_mut().for_each(enc::blank_input);
                    m.outputs.iter_mut().for_each(enc::blank_output);
                    Op::PreparePredicate
                }
            },
            11 => {
                if g.chance(1, 2) {
                    gen::edit_tx(g, &mut m);
                } else {
                    m = gen::tx_of(g, kind, true);
                }
                // an empty predicate cannot be encoded
                if m.inputs.iter().any(MIn::is_hollow) {
                    m = gen::tx_of(g, kind, true);
                }
                Op::DecodeOver(m.clone())
            }
            12 => Op::Reencode,
            13 => match g.below(2) {
                0 => Op::Json,
                _ => Op::Bincode,
            },
            14 => Op::Check,
            _ => Op::Observe,
        });
    }
    Story { start, height, params, ops }
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Compares everything observable with a freshly built equal transaction.
fn observe(t: &Transaction, m: &MTx, c: &Story, when: &str) -> Res {
    ensure_eq!(MTx::of(t), *m, "content {when}");
    let fresh = m.real();
    ensure_eq!(id_of(t), enc::id(m), "id {when}");
    ensure_eq!(H::from(&t.id()), enc::id(m), "generic id {when}");
    let bytes = enc::tx(m);
    ensure_eq!(t.serialized_size(), bytes.len(), "serialized_size {when}");
    ensure_eq!(with_tx!(t, t => t.serialized_size()), bytes.len(), "typed serialized_size {when}");
    ensure!(t.clone().to_bytes() == bytes, "the bytes differ {when}");
    compare_offsets(&offsets(t), &want_offsets(m), &format!("offsets {when}"))?;
    ensure!(*t == fresh && fresh == *t, "not equal to an identical transaction {when}");
    ensure_eq!(hash_of(t), hash_of(&fresh), "hash {when}");
    ensure_eq!(t.to_json(), fresh.to_json(), "JSON {when}");
    ensure!(
        bincode::serialize(t).ok() == bincode::serialize(&fresh).ok(),
        "the binary serde form differs {when}"
    );
    let p = c.params.real();
    ensure_eq!(
        with_tx!(t, t => t.check_without_signatures(c.height, &p)),
        with_tx!(&fresh, t => t.check_without_signatures(c.height, &p)),
        "structural check {when}"
    );
    ensure_eq!(
        with_tx!(t, t => t.check_signatures()),
        with_tx!(&fresh, t => t.check_signatures()),
        "signature check {when}"
    );
    ensure_eq!(
        t.check_without_signatures(c.height, &p),
        fresh.check_without_signatures(c.height, &p),
        "structural check of the generic transaction {when}"
    );
    ensure_eq!(t.check_signatures(), fresh.check_signatures(), "signature check of the generic transaction {when}");
    ensure_eq!(t.check(c.height, &p), fresh.check(c.height, &p), "full check of the generic transaction {when}");
    if !m.is_mint() {
        ensure_eq!(
            with_exec!(t, t => t.metered_bytes_size()),
            with_exec!(&fresh, t => t.metered_bytes_size()),
            "metered bytes {when}"
        );
        ensure_eq!(
            with_exec!(t, t => TransactionFee::checked_from_tx(&p, t)),
            with_exec!(&fresh, t => TransactionFee::checked_from_tx(&p, t)),
            "fee {when}"
        );
    }
    Ok(())
}

pub fn c11(ctx: &mut Ctx) {
    ctx.rule(
        "histories of up to 13 edits through setters, cache computations, clones, signings, preparations, \
         in-place decodings, re-encodings, serde round-trips and checks on a transaction of any kind; \
         whenever the cache is absent or current, every observation (id, sizes, bytes, all offsets, \
         equality, hash, serde forms, check verdicts, fee) must be that of a freshly built equal \
         transaction; non-trivial: the cache was computed at least once and something was edited or \
         decoded in the history",
    );
    ctx.part("story", 20000, story, |c, o| {
        let mut t = c.start.real();
        let mut m = c.start.clone();
        // what the cache was computed for
        let mut cache: Option<MTx> = None;
        let computed = |t: &Transaction| {
            let typed = with_tx!(t, t => t.is_computed());
            assert_eq!(t.is_computed(), typed, "generic and typed is_computed");
            typed
        };
        ensure!(!computed(&t), "a new transaction has a cache");
        let (mut computes, mut edits) = (0, 0);
        for (i, op) in c.ops.iter().enumerate() {
            let when = format!("after step {i} ({})", name(op));
            match op {
                Op::Assign(n) => {
                    if *n != m {
                        edits += 1;
                    }
                    assign(&mut t, n);
                    m = n.clone();
                }
                Op::Precompute => {
                    o.class_if(matches!(&cache, Some(x) if *x != m), "stale cache recomputed");
                    if i % 2 == 0 {
                        t.precompute();
                    } else {
                        with_tx!(&mut t, t => t.precompute());
                    }
                    cache = Some(m.clone());
                    computes += 1;
                    ensure!(computed(&t), "no cache {when}");
                }
                Op::Clone => {
                    let had = computed(&t);
                    t = t.clone();
                    ensure_eq!(computed(&t), had, "cache kept by cloning");
                }
                Op::Sign(k) => {
                    // signing with an outdated cache signs an outdated id
                    if m.is_mint() || matches!(&cache, Some(x) if *x != m) {
                        continue;
                    }
                    let sig = keys::sign(*k, &enc::id(&m));
                    for x in &m.inputs.clone() {
                        if let Some((owner, w)) = x.signed() {
                            if owner == keys::addr(*k) {
                                if let Some(w) = m.wits.get_mut(w as usize) {
                                    *w = sig.clone();
                                }
                            }
                        }
                    }
                    with_exec!(&mut t, t => t.sign_inputs(&keys::secret(*k)));
                }
                Op::PrepareScript => {
                    if !m.is_mint() {
                        m.outputs.iter_mut().for_each(enc::blank_output_script);
                        with_exec!(&mut t, t => { t.prepare_init_script(); });
                    }
                }
                Op::PreparePredicate => {
                    if !m.is_mint() {
                        m.inputs.iter_mut().for_each(enc::blank_input);
                        m.outputs.iter_mut().for_each(enc::blank_output);
                        with_exec!(&mut t, t => { t.prepare_init_predicate(); });
                    }
                }
                Op::DecodeOver(n) => {
                    edits += 1;
                    o.class_if(cache.is_some(), "decoded over a cached transaction");
                    let b = enc::tx(n);
                    let used = if i % 2 == 0 {
                        t.write(&b)
                    } else {
                        with_tx!(&mut t, t => t.write(&b))
                    }
                    .map_err(|e| format!("decoding {when}: {e}"))?;
                    ensure_eq!(used, b.len(), "bytes consumed {when}");
                    m = n.clone();
                    cache = None;
                    ensure!(!computed(&t), "a decoded transaction has a cache {when}");
                }
                Op::Reencode => {
                    if matches!(&cache, Some(x) if *x != m) || m.inputs.iter().any(MIn::is_hollow) {
                        continue;
                    }
                    let b = t.to_bytes();
                    t = Transaction::from_bytes(&b).map_err(|e| format!("decoding {when}: {e}"))?;
                    cache = None;
                    ensure!(!computed(&t), "a decoded transaction has a cache {when}");
                }
                Op::Json => {
                    t = Transaction::from_json(t.to_json()).ok_or("its own JSON is rejected")?;
                    cache = None;
                    ensure!(!computed(&t), "a deserialized transaction has a cache {when}");
                }
                Op::Bincode => {
                    let b = bincode::serialize(&t).map_err(|e| format!("serializing {when}: {e}"))?;
                    t = bincode::deserialize(&b).map_err(|e| format!("deserializing {when}: {e}"))?;
                    cache = None;
                    ensure!(!computed(&t), "a deserialized transaction has a cache {when}");
                }
                Op::Check => {
                    let _ = with_tx!(&t, t => t.check_without_signatures(c.height, &c.params.real()));
                }
                Op::Observe => {}
            }
            let current = match &cache {
                None => true,
                Some(x) => *x == m,
            };
            if current {
                observe(&t, &m, c, &when)?;
            } else {
                ensure_eq!(MTx::of(&t), m, "content {when}");
                ensure!(t == m.real(), "equality looks at the cache {when}");
                ensure_eq!(hash_of(&t), hash_of(&m.real()), "hash {when}");
            }
        }
        with_tx!(&mut t, t => t.precompute());
        observe(&t, &m, c, "after a final cache computation")?;
        t.precompute();
        observe(&t, &m, c, "after a further cache computation of the generic transaction")?;
        o.nt(computes > 0 && edits > 0);
        Ok(())
    });
}

fn name(o: &Op) -> String {
    let s = format!("{o:?}");
    s.split(['(', ' ']).next().unwrap_or("").to_string()
}

//! C14 to C16: signatures and predicate ownership.

use crate::engine::*;
use crate::enc;
use crate::expect::*;
use crate::gen;
use crate::keys;
use crate::model::*;
use crate::refs;
use crate::val::assign;
use crate::{with_exec, with_tx};
use fuel_tx::*;
use serde::{Deserialize, Serialize};

/// An executable transaction with inputs of the keys, witnesses shared in any way.
fn signable(g: &mut G) -> MTx {
    let kind = if g.chance(1, 2) { Kind::Create } else { Kind::Script };
    let mut t = gen::tx_of(g, kind, true);
    t.inputs.clear();
    let wide = g.chance(1, 150);
    let n = if wide { 100 + g.below(200) } else { g.below(9) };
    let n_keys = 1 + g.below(gen::KEYS);
    // up to and beyond the last index that an input can name
    let many = g.chance(1, 40);
    let n_wit = match () {
        _ if many => 250 + g.below(12),
        _ if wide => 100 + g.below(160),
        _ => g.below(6),
    };
    t.wits = (0..n_wit)
        .map(|_| {
            let n = *g.pick(&[0, 1, 32, 63, 64, 65, 100]);
            gen::filled(g, n)
        })
        .collect();
    // an owner per witness, mostly respected
    let owners: Vec<usize> = (0..6).map(|_| g.below(n_keys)).collect();
    for _ in 0..n {
        let variant = *g.pick(&[0, 0, 0, 3, 3, 1, 4, 2]);
        let mut x = gen::input_of(g, variant, true);
        if x.signed().is_some() {
            let w = match g.below(12) {
                0 => n_wit as u8,
                1 => gen::byte(g),
                2 | 3 if many => 255 - g.below(3) as u8,
                _ => g.below(n_wit.clamp(1, 256)) as u8,
            };
            x.set_wit(w);
            let owner = match g.below(10) {
                0 => gen::h(g),
                1 => gen::key_addr(g.below(gen::KEYS)),
                _ => gen::key_addr(owners[w as usize % 6]),
            };
            x.set_owner(owner);
        } else if let Some((_, p)) = x.predicate() {
            let root = refs::code_root(p);
            if !g.chance(1, 10) {
                x.set_owner(root);
            }
        }
        t.inputs.push(x);
    }
    t
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Signing {
    tx: MTx,
    order: Vec<usize>,
    generic_cache: bool,
}

pub fn c14(ctx: &mut Ctx) {
    ctx.rule(
        "script and create transactions with up to eight inputs of all kinds, owned by six keys or \
         strangers, with shared, interleaved, conflicting and missing witnesses, signed with a random \
         sequence of keys; the whole transaction after every signing is compared with a model of which \
         witnesses must hold a valid signature, and the signature check with the model's verdict; \
         non-trivial: at least one signature was written",
    );
    ctx.part(
        "sign",
        12000,
        |g| {
            let tx = signable(g);
            let mut order: Vec<usize> = Vec::new();
            if g.chance(3, 4) {
                let mut rest: Vec<usize> = (0..gen::KEYS).collect();
                while !rest.is_empty() {
                    order.push(rest.remove(g.below(rest.len())));
                }
            }
            for _ in 0..g.below(3) {
                order.push(g.below(gen::KEYS));
            }
            Signing { tx, order, generic_cache: g.chance(1, 3) }
        },
        |c, o| {
            let mut t = c.tx.real();
            if c.generic_cache {
                // a current cache does not matter
                with_exec!(&mut t, t => t.precompute());
            }
            let id = enc::id(&c.tx);
            // which key must have signed which witness
            let mut signed: Vec<Option<usize>> = vec![None; c.tx.wits.len()];
            let mut m = c.tx.clone();
            let mut wrote = false;
            let mut used = [false; gen::KEYS];
            for k in &c.order {
                used[*k] = true;
                for x in &c.tx.inputs {
                    if let Some((owner, w)) = x.signed() {
                        if owner == keys::addr(*k) && (w as usize) < signed.len() {
                            signed[w as usize] = Some(*k);
                            wrote = true;
                        }
                    }
                }
                let before = t.clone();
                with_exec!(&mut t, t => t.sign_inputs(&keys::secret(*k)));
                let after = MTx::of(&t);
                for (w, s) in signed.iter().enumerate() {
                    let bytes = after.wits.get(w).ok_or("a witness disappeared")?;
                    match s {
                        None => ensure_eq!(*bytes, c.tx.wits[w], "witness {w}, which no key used owns"),
                        Some(k) => {
                            ensure_eq!(bytes.0.len(), 64, "length of signature {w}");
                            ensure_eq!(
                                keys::recover(&bytes.0, &id),
                                Some(keys::addr(*k)),
                                "signer of witness {w} of {} after key {k}",
                                signed.len()
                            );
                        }
                    }
                }
                m.wits = after.wits.clone();
                ensure_eq!(after, m, "transaction after signing");
                ensure_eq!(crate::expect::id_of(&t), id, "id after signing");
                let again = t.clone();
                with_exec!(&mut t, t => t.sign_inputs(&keys::secret(*k)));
                ensure!(t == again, "signing again with key {k} changed something");
                o.class_if(before == t, "key without inputs");
            }
            o.nt(wrote);
            let want = faults(&m, &id);
            let r = with_exec!(&t, t => t.check_signatures());
            judge_faults(&r, &want, "signature check")?;
            ensure_eq!(t.check_signatures(), r, "signature check of the generic transaction");
            // the property itself: every key signed, one owner per witness
            let complete = c.tx.inputs.iter().all(|x| match (x.signed(), x.predicate()) {
                (Some((owner, w)), _) => {
                    let alone = c.tx.inputs.iter().all(|y| match y.signed() {
                        Some((o2, w2)) => w2 != w || o2 == owner,
                        None => true,
                    });
                    alone
                        && (w as usize) < signed.len()
                        && keys::key_of(&owner).map_or(false, |k| used[k])
                }
                (_, Some((owner, p))) => refs::code_root(p) == owner,
                _ => true,
            });
            o.class_if(complete, "fully signed");
            ensure!(!complete || r.is_ok(), "fully signed, yet {r:?}");
            Ok(())
        },
    );
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Tamper {
    /// Any single edit of the transaction.
    Set(MTx),
    /// Another key's signature of the same transaction.
    OtherKey(usize, usize),
    /// A signature of another transaction.
    OtherTx(usize, MTx),
    FlipWitness(usize, usize),
    Resize(usize, usize),
    SwapWitness(usize, usize),
    Retarget(usize, u8),
    Owner(usize, usize),
    Stranger(usize, H),
    /// Every key signs what the transaction has become.
    Resign,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Tampering {
    tx: MTx,
    what: Vec<Tamper>,
}

fn consistent(g: &mut G) -> MTx {
    // one owner per witness, all in place
    let kind = if g.chance(1, 2) { Kind::Create } else { Kind::Script };
    let mut t = gen::tx_of(g, kind, true);
    t.inputs.clear();
    let wide = g.chance(1, 150);
    let n_wit = if wide { 200 + g.below(56) } else { 1 + g.below(4) };
    let n_in = if wide { 200 + g.below(100) } else { 1 + g.below(5) };
    t.wits = vec![B(vec![0; 64]); n_wit];
    let owners: Vec<usize> = (0..n_wit).map(|_| g.below(gen::KEYS)).collect();
    for i in 0..n_in {
        let variant = *g.pick(&[0, 0, 3, 3, 1, 4, 2]);
        let mut x = gen::input_of(g, variant, true);
        // in a wide one the last witness is of the last input alone
        let w = if !wide {
            g.below(n_wit)
        } else if i + 1 == n_in {
            n_wit - 1
        } else {
            g.below(n_wit - 1)
        };
        x.set_wit(w as u8);
        if x.signed().is_some() {
            x.set_owner(gen::key_addr(owners[w]));
        } else if let Some((_, p)) = x.predicate() {
            let root = refs::code_root(p);
            x.set_owner(root);
        }
        t.inputs.push(x);
    }
    sign_model(&mut t);
    t
}


pub fn c15(ctx: &mut Ctx) {
    ctx.rule(
        "script and create transactions signed completely by an independent signer, then tampered with \
         zero to two times, sometimes signed again after that: any field edit, other keys' and other transactions' signatures, flipped, \
         resized, swapped witnesses, retargeted indexes, changed owners; the verdict of the signature \
         check on the transaction and on each input is compared with independent public-key recovery; \
         non-trivial: at least one signed input and a tampering, or an untampered transaction with one",
    );
    fn check(c: &Tampering, o: &mut Obs) -> Res {
        let mut t = c.tx.real();
        let id = enc::id(&c.tx);
        let signed = c.tx.inputs.iter().any(|x| x.signed().is_some());
        o.nt(signed);
        let r = with_exec!(&t, t => t.check_signatures());
        judge_faults(&r, &faults(&c.tx, &id), "signature check before tampering")?;
        ensure!(r.is_ok(), "the fully signed transaction is rejected: {r:?}");
        let mut m = c.tx.clone();
        for x in &c.what {
            apply(&mut m, x);
        }
        assign(&mut t, &m);
        let id = enc::id(&m);
        let want = faults(&m, &id);
        o.class(if want.is_empty() { "still signed" } else { "broken" });
        let r = with_exec!(&t, t => t.check_signatures());
        judge_faults(&r, &want, "signature check")?;
        judge_faults(&t.check_signatures(), &want, "signature check of the generic transaction")?;
        let wits = m.real_wits();
        for (i, x) in m.inputs.iter().enumerate() {
            let r = x.real().check_signature(i, &id.into(), &wits);
            let w: Vec<Fault> = fault(i, x, &id, &m.wits).into_iter().collect();
            judge_faults(&r, &w, "signature check of one input")?;
        }
        Ok(())
    }
    fn apply(m: &mut MTx, x: &Tamper) {
        let n = m.wits.len().max(1);
        match x {
            Tamper::Set(t) => *m = t.clone(),
            Tamper::OtherKey(w, k) => {
                let s = keys::sign(*k, &enc::id(m));
                if let Some(w) = m.wits.get_mut(w % n) {
                    *w = s;
                }
            }
            Tamper::OtherTx(w, t) => {
                let mut s = None;
                for x in &m.inputs {
                    if let Some((owner, i)) = x.signed() {
                        if i as usize == w % n {
                            s = keys::key_of(&owner).map(|k| keys::sign(k, &enc::id(t)));
                        }
                    }
                }
                if let (Some(w), Some(s)) = (m.wits.get_mut(w % n), s) {
                    *w = s;
                }
            }
            Tamper::FlipWitness(w, bit) => {
                if let Some(w) = m.wits.get_mut(w % n) {
                    if !w.0.is_empty() {
                        let i = (bit / 8) % w.0.len();
                        w.0[i] ^= 1 << (bit % 8);
                    }
                }
            }
            Tamper::Resize(w, len) => {
                if let Some(w) = m.wits.get_mut(w % n) {
                    w.0.resize(*len, 0);
                }
            }
            Tamper::SwapWitness(a, b) => {
                if !m.wits.is_empty() {
                    m.wits.swap(a % n, b % n)
                }
            }
            Tamper::Retarget(i, w) => {
                let n = m.inputs.len().max(1);
                if let Some(x) = m.inputs.get_mut(i % n) {
                    x.set_wit(*w)
                }
            }
            Tamper::Owner(i, k) => {
                let n = m.inputs.len().max(1);
                if let Some(x) = m.inputs.get_mut(i % n) {
                    x.set_owner(keys::addr(*k))
                }
            }
            Tamper::Resign => sign_model(m),
            Tamper::Stranger(i, h) => {
                let n = m.inputs.len().max(1);
                if let Some(x) = m.inputs.get_mut(i % n) {
                    x.set_owner(*h)
                }
            }
        }
    }
    ctx.part(
        "tamper",
        12000,
        |g| {
            let tx = consistent(g);
            let mut what = Vec::new();
            for _ in 0..*g.pick(&[0, 1, 1, 1, 2]) {
                what.push(match g.below(12) {
                    0..=2 => {
                        let mut t = tx.clone();
                        gen::edit_tx(g, &mut t);
                        Tamper::Set(t)
                    }
                    3 => {
                        let mut t = tx.clone();
                        gen::edit_malleable(g, &mut t);
                        Tamper::Set(t)
                    }
                    4 => Tamper::OtherKey(g.below(240), g.below(gen::KEYS)),
                    5 => {
                        let mut t = tx.clone();
                        gen::edit_tx(g, &mut t);
                        Tamper::OtherTx(g.below(240), t)
                    }
                    6 => Tamper::FlipWitness(g.below(240), g.below(512)),
                    7 => Tamper::Resize(g.below(240), *g.pick(&[0, 1, 63, 65, 72, 128])),
                    8 => Tamper::SwapWitness(g.below(240), g.below(240)),
                    9 => {
                        let n = tx.wits.len().max(1);
                        let w = if g.chance(1, 2) { g.below(n + 1) as u8 } else { gen::byte(g) };
                        Tamper::Retarget(g.below(240), w)
                    }
                    10 => Tamper::Owner(g.below(240), g.below(gen::KEYS)),
                    _ => {
                        let i = g.below(240);
                        let n = tx.inputs.len().max(1);
                        let owner = match tx.inputs.get(i % n).and_then(|x| x.owner()) {
                            Some(x) => gen::other_h(g, &x),
                            None => gen::h(g),
                        };
                        Tamper::Stranger(i, owner)
                    }
                });
            }
            if g.chance(1, 3) {
                what.push(Tamper::Resign);
            }
            if tx.inputs.len() > 100 && g.chance(2, 3) {
                let bit = g.below(512);
                what = vec![Tamper::FlipWitness(tx.wits.len() - 1, bit)];
            }
            Tampering { tx, what }
        },
        check,
    );
    // arbitrary transactions never pass by luck
    ctx.part(
        "unsigned",
        20000,
        |g| {
            let mut t = signable(g);
            if g.chance(1, 3) {
                for x in &mut t.inputs {
                    let k = g.below(gen::KEYS);
                    x.set_owner(keys::addr(k));
                }
            }
            t
        },
        |t: &MTx, o| {
            o.nt(t.inputs.iter().any(|x| x.signed().is_some()));
            let id = enc::id(t);
            let r = with_exec!(&t.real(), t => t.check_signatures());
            judge_faults(&r, &faults(t, &id), "signature check")
        },
    );
}

pub fn c16(ctx: &mut Ctx) {
    ctx.rule(
        "script and create transactions mixing predicate inputs (owner: the root of the predicate, of a \
         near-equal predicate, a pooled hash) with other inputs, checked as a whole, per input and through \
         the free-standing functions, against an independent Merkle root; non-trivial: at least one \
         predicate input",
    );
    ctx.part(
        "owners",
        30000,
        |g| {
            let kind = if g.chance(1, 2) { Kind::Create } else { Kind::Script };
            let mut t = gen::tx_of(g, kind, true);
            t.inputs.clear();
            let wrong_one = g.below(10);
            let n = if g.chance(1, 150) { 100 + g.below(300) } else { 1 + g.below(7) };
            let wrong_one = if n <= 20 {
                wrong_one
            } else if g.chance(1, 2) {
                n - 1
            } else {
                g.below(n)
            };
            // without signed inputs nothing but an owner can be wrong
            let variants: &[usize] = if g.chance(1, 2) { &[1, 1, 4, 4, 2, 0, 3] } else { &[1, 4, 2] };
            for i in 0..n {
                let variant = *g.pick(variants);
                let small = g.chance(2, 3);
                let mut x = gen::input_of(g, variant, small);
                if g.chance(1, 30) {
                    // predicates may be empty here
                    match &mut x {
                        MIn::CoinPred { pred, .. } | MIn::MsgPred { pred, .. } => pred.0.clear(),
                        _ => {}
                    }
                }
                if let Some((_, p)) = x.predicate() {
                    let mut p = B(p.to_vec());
                    if i == wrong_one {
                        if g.chance(1, 2) {
                            gen::edit_bytes(g, &mut p, false);
                        } else {
                            p.0.truncate(p.0.len() / 8 * 8);
                        }
                    }
                    let mut root = refs::code_root(&p.0);
                    if g.chance(1, 25) && n <= 20 {
                        root = gen::other_h(g, &root);
                    }
                    x.set_owner(root);
                    // a message's sender is not its owner
                    if let MIn::MsgPred { sender, .. } = &mut x {
                        if g.chance(1, 3) {
                            *sender = refs::code_root(&p.0);
                        }
                    }
                }
                t.inputs.push(x);
            }
            t
        },
        |t: &MTx, o| {
            let real = t.real();
            let id = enc::id(t);
            let mut all = true;
            for (i, x) in t.inputs.iter().enumerate() {
                if let Some((owner, pred)) = x.predicate() {
                    o.nt(true);
                    let root = refs::code_root(pred);
                    let ok = root == owner;
                    all &= ok;
                    o.class(if ok { "owner matches" } else { "owner differs" });
                    ensure_eq!(H::from(&Input::predicate_owner(pred)), root, "predicate owner of input {i}");
                    ensure_eq!(
                        Input::is_predicate_owner_valid(&owner.into(), pred),
                        ok,
                        "ownership of input {i}"
                    );
                    let r = x.real().check_signature(i, &id.into(), &t.real_wits());
                    let f: Vec<Fault> = if ok { vec![] } else { vec![Fault::Predicate(i)] };
                    judge_faults(&r, &f, "check of one input")?;
                }
            }
            let got = with_exec!(&real, t => t.check_predicate_owners());
            ensure_eq!(got, all, "check_predicate_owners");
            let r = with_tx!(&real, t => t.check_signatures());
            judge_faults(&r, &faults(t, &id), "signature check")
        },
    );
}

//! C25 and C26: code roots, state roots, contracts.

use crate::engine::*;
use crate::enc::sha;
use crate::gen;
use crate::model::*;
use crate::refs;
use fuel_tx::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Code {
    code: B,
    other: B,
}

fn code(g: &mut G) -> B {
    let n = match g.below(10) {
        0..=3 => g.below(70),
        4..=6 => 8 * g.below(40) + *g.pick(&[0, 1, 4, 7]),
        7 | 8 => {
            // around powers of two in chunks
            let k = 1usize << g.below(9);
            (8 * k + g.below(17)).saturating_sub(8)
        }
        _ => g.below(6000),
    };
    gen::filled(g, n)
}

pub fn c25(ctx: &mut Ctx) {
    ctx.rule(
        "code of 0 to 6000 bytes (some up to 512 kB) with every padding residue and around powers of two, and an edited copy; \
         every way of computing its root against a recursive definition of the Merkle tree; roots of \
         different padded codes differ; non-trivial: at least two chunks, or the padded codes agree",
    );
    ctx.part(
        "roots",
        80000,
        |g| {
            let code = code(g);
            let mut other = code.clone();
            match g.below(5) {
                0 => other.0.push(0),
                1 => other.0.resize((code.0.len() + 7) / 8 * 8, 0),
                2 => {
                    other.0.pop();
                }
                3 if code.0.len() >= 16 => {
                    // two chunks exchanged
                    let n = code.0.len() / 8;
                    let (a, b) = (g.below(n), g.below(n));
                    for k in 0..8 {
                        other.0.swap(8 * a + k, 8 * b + k);
                    }
                }
                _ => gen::edit_bytes(g, &mut other, false),
            }
            Code { code, other }
        },
        |c: &Code, o| {
            let want = refs::code_root(&c.code.0);
            let b = &c.code.0;
            let root = |b: &[u8]| H::from(&Contract::root_from_code(b));
            ensure_eq!(root(b), want, "root of the code");
            ensure_eq!(H::from(&Contract::root_from_code(b.clone())), want, "root of the owned code");
            let mut by_mut = b.clone();
            let forms = [
                Contract::from(b.clone()),
                Contract::from(&b[..]),
                Contract::from(&mut by_mut[..]),
                Contract::from(b.clone()).clone(),
            ];
            for (i, k) in forms.iter().enumerate() {
                ensure_eq!(H::from(&k.root()), want, "root of contract form {i}");
                ensure_eq!(k.as_ref(), &b[..], "bytes of contract form {i}");
                ensure!(k == &forms[0], "contract form {i} differs");
                ensure_eq!(H::from(&Contract::root_from_code(k)), want, "root from contract form {i}");
                ensure_eq!(Vec::<u8>::from(k.clone()), *b, "bytes given back by contract form {i}");
            }
            ensure_eq!(H::from(&Input::predicate_owner(b)), want, "predicate owner");
            ensure!(Input::is_predicate_owner_valid(&want.into(), b), "the predicate's owner is refused");
            // writing through a contract
            let mut k = Contract::from(b.clone());
            if c.other.0.len() == b.len() {
                k.as_mut().copy_from_slice(&c.other.0);
                ensure_eq!(k.root(), Contract::root_from_code(&c.other.0), "root after writing");
            }
            let pad = |b: &[u8]| {
                let mut v = b.to_vec();
                v.resize((b.len() + 7) / 8 * 8, 0);
                v
            };
            let same = pad(b) == pad(&c.other.0);
            ensure_eq!(root(&c.other.0) == want, same, "equality of the roots of two codes");
            ensure_eq!(
                Input::is_predicate_owner_valid(&want.into(), &c.other.0),
                same,
                "the other code under this owner"
            );
            o.nt(b.len() > 8 || same && *b != c.other.0);
            o.class_if(same && *b != c.other.0, "same padded code");
            o.class_if(b.is_empty(), "empty");
            o.class_if(b.len() % 8 == 0, "whole chunks");
            Ok(())
        },
    );
    ctx.part(
        "long",
        60,
        |g| {
            let len = match g.below(5) {
                4 => (1usize << (20 + g.below(3))) + g.below(80) - 40,
                0 => 65536 - 16 + g.below(40),
                1 => (1usize << (10 + g.below(9))) + g.below(17) - 8,
                2 => 8 * 65536 - 16 + g.below(40),
                _ => g.below(200_000),
            };
            (len, g.u64())
        },
        |(len, seed): &(usize, u64), o| {
            o.nt(true);
            let b = expand(*seed, *len);
            let want = refs::code_root(&b);
            ensure_eq!(H::from(&Contract::root_from_code(&b)), want, "root of the code");
            ensure_eq!(H::from(&Contract::from(b.clone()).root()), want, "root of the contract");
            ensure_eq!(H::from(&Input::predicate_owner(&b)), want, "predicate owner");
            Ok(())
        },
    );
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct State {
    slots: Vec<(H, H)>,
    order: Vec<u64>,
    edit: Vec<(H, H)>,
    salt: H,
    code: B,
}

fn key(g: &mut G) -> H {
    match g.below(4) {
        0 => gen::h(g),
        1 => {
            let mut k = [0u8; 32];
            k.copy_from_slice(&g.blob(32));
            H(k)
        }
        2 => {
            // keys sharing a long prefix
            let mut k = [0u8; 32];
            let i = g.below(256);
            k[i / 8] = 1 << (7 - i % 8);
            H(k)
        }
        _ => {
            let mut k = [0xFFu8; 32];
            let i = g.below(32);
            k[i] = gen::byte(g);
            H(k)
        }
    }
}

pub fn c26(ctx: &mut Ctx) {
    ctx.rule(
        "sets of 0 to 40 slots with distinct keys (random, pooled and sharing prefixes of every length) in \
         two orders, and a set differing in one key, value or slot; roots against a recursive definition of \
         the sparse tree; contract ids against the hash of their parts; non-trivial: at least two slots",
    );
    ctx.part(
        "state",
        12000,
        |g| {
            let n = match g.below(8) {
                0 if g.chance(1, 12) => 250 + g.below(300),
                0 => 40,
                1..=3 => g.below(16),
                _ => g.below(5),
            };
            let mut m = BTreeMap::new();
            for _ in 0..n {
                let k = key(g);
                let v = gen::h(g);
                m.insert(k, v);
            }
            let sorted: Vec<(H, H)> = m.iter().map(|(k, v)| (*k, *v)).collect();
            let mut edit = m.clone();
            let pickk = if sorted.is_empty() { None } else { Some(sorted[g.below(sorted.len())].0) };
            match (g.below(4), pickk) {
                (0, Some(k)) => {
                    let mut v = edit[&k];
                    v.0[g.below(32)] ^= 1 << g.below(8);
                    edit.insert(k, v);
                }
                (1, Some(k)) => {
                    edit.remove(&k);
                }
                (2, Some(k)) => {
                    let v = edit.remove(&k).unwrap();
                    let mut k = k;
                    k.0[g.below(32)] ^= 1 << g.below(8);
                    edit.insert(k, v);
                }
                _ => {
                    let k = key(g);
                    let v = gen::h(g);
                    edit.insert(k, v);
                }
            }
            // some permutation
            let mut slots = sorted;
            if g.chance(3, 4) {
                for i in (1..slots.len()).rev() {
                    slots.swap(i, g.below(i + 1));
                }
            }
            let order = slots.iter().map(|_| g.u64()).collect();
            State { slots, order, edit: edit.into_iter().collect(), salt: gen::h(g), code: code(g) }
        },
        |c: &State, o| {
            let root = |s: &[(H, H)]| {
                let v: Vec<StorageSlot> = s.iter().map(|(k, v)| StorageSlot::new(k.into(), v.into())).collect();
                H::from(&Contract::initial_state_root(v.iter()))
            };
            let map: BTreeMap<H, H> = c.slots.iter().copied().collect();
            o.nt(map.len() >= 2);
            o.class(match map.len() {
                0 => "no slots",
                1 => "one slot",
                2..=4 => "few slots",
                _ => "many slots",
            });
            let want = refs::state_root(&map);
            ensure_eq!(root(&c.slots), want, "state root");
            let mut again: Vec<(u64, (H, H))> = c.order.iter().copied().zip(c.slots.iter().copied()).collect();
            again.sort();
            let again: Vec<(H, H)> = again.into_iter().map(|x| x.1).collect();
            ensure_eq!(root(&again), want, "state root in another order");
            let empty = H::from(&Contract::default_state_root());
            ensure_eq!(empty, H::default(), "default state root");
            ensure_eq!(want == empty, map.is_empty(), "whether the root is the default one");
            let other: BTreeMap<H, H> = c.edit.iter().copied().collect();
            ensure_eq!(root(&c.edit), refs::state_root(&other), "state root of the edited slots");
            ensure_eq!(root(&c.edit) == want, other == map, "equality of two state roots");
            // the contract id
            let k = Contract::from(c.code.0.clone());
            let code = refs::code_root(&c.code.0);
            let id = k.id(&c.salt.into(), &code.into(), &want.into());
            ensure_eq!(
                H::from(&id),
                sha(&[b"FUEL", &c.salt.0, &code.0, &want.0]),
                "contract id"
            );
            // the given root counts, not that of the contract at hand
            let id2 = k.id(&c.salt.into(), &want.into(), &code.into());
            ensure_eq!(
                H::from(&id2),
                sha(&[b"FUEL", &c.salt.0, &want.0, &code.0]),
                "contract id of other roots"
            );
            Ok(())
        },
    );
    ctx.part(
        "from_create",
        200000,
        |g| {
            let kind = *g.pick(&[Kind::Create, Kind::Create, Kind::Create, Kind::Script, Kind::Mint]);
            let mut t = gen::tx_of(g, kind, true);
            if kind == Kind::Create && g.chance(5, 6) {
                for _ in 0..g.below(3) {
                    let w = gen::bytes(g);
                    t.wits.push(w);
                }
                let n = t.wits.len();
                t.bidx = match g.below(4) {
                    0 => n as u8,
                    _ => g.below(n.max(1)) as u8,
                };
            }
            t
        },
        |t: &MTx, o| {
            let real = t.real();
            o.nt(t.kind == Kind::Create);
            let want = match t.kind {
                Kind::Create => t
                    .wits
                    .get(t.bidx as usize)
                    .map(|w| w.0.clone())
                    .ok_or(CheckError::TransactionCreateBytecodeWitnessIndex),
                _ => Err(CheckError::TransactionScriptOutputContractCreated { index: 0 }),
            };
            o.class(if want.is_ok() { "contract" } else { "no contract" });
            let got = Contract::try_from(&real).map(Vec::<u8>::from);
            ensure_eq!(got, want, "contract of the transaction");
            if let Transaction::Create(c) = &real {
                let got = Contract::try_from(c).map(Vec::<u8>::from);
                ensure_eq!(got, want, "contract of the create transaction");
            }
            Ok(())
        },
    );
}

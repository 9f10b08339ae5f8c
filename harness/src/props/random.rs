//! C35: random values and the transaction factory.

use crate::engine::*;
use crate::enc;
use crate::expect::*;
use crate::model::*;
use crate::refs;
use crate::with_exec;
use fuel_crypto::{PublicKey, SecretKey};
use fuel_tx::*;
use fuel_types::bytes::{Deserializable, SerializableVec};
use ptx_helpers::*;
use rand::rngs::StdRng;
use rand::{Rng, SeedableRng};
use serde::{Deserialize, Serialize};

const BATCH: usize = 64;

/// Whatever a random source yields, sampled one value at a time.
fn samples<R: Rng>(r: &mut R, sort: u8) -> Vec<Vec<u8>> {
    (0..BATCH)
        .map(|_| match sort {
            0 => {
                let x: UtxoId = r.gen();
                let mut b = x.tx_id().to_vec();
                b.push(x.output_index());
                b
            }
            1 => {
                let x: TxPointer = r.gen();
                let mut b = x.block_height().to_be_bytes().to_vec();
                b.extend(x.tx_index().to_be_bytes());
                b
            }
            2 => {
                let x: StorageSlot = r.gen();
                let mut b = x.key().to_vec();
                b.extend(x.value().iter());
                b
            }
            3 => r.gen::<Witness>().into_inner(),
            4 => r.gen::<Salt>().to_vec(),
            5 => generate_bytes(r),
            _ => generate_nonempty_padded_bytes(r),
        })
        .collect()
}

/// Every bit of the samples takes both values, at every position all samples have.
fn all_bits(v: &[Vec<u8>], what: &str) -> Res {
    let n = v.iter().map(|x| x.len()).min().unwrap_or(0);
    for i in 0..n {
        let any = v.iter().fold(0, |a, x| a | x[i]);
        let all = v.iter().fold(255, |a, x| a & x[i]);
        ensure!(any == 255 && all == 0, "{what}: byte {i} has bits that never change ({any:08b}, {all:08b})");
    }
    Ok(())
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Batch {
    seed: u64,
    sort: u8,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Factory {
    seed: u64,
    kind: Kind,
    iterate: bool,
    n: usize,
}

fn address(k: &SecretKey) -> H {
    let p = PublicKey::from(k);
    let b: &[u8] = p.as_ref();
    enc::sha(&[b])
}

/// What the factory yields with this seed: transactions and their keys (none for mints).
fn made(c: &Factory) -> Vec<(Transaction, Vec<SecretKey>)> {
    match c.kind {
        Kind::Script => {
            let mut f = TransactionFactory::<StdRng, Script>::from_seed(c.seed);
            if c.iterate {
                return f.take(c.n).map(|(t, k)| (t.into(), k)).collect();
            }
            (0..c.n)
                .map(|_| {
                    let (t, k) = f.transaction_with_keys();
                    (t.into(), k)
                })
                .collect()
        }
        Kind::Create => {
            let mut f = TransactionFactory::<StdRng, Create>::from_seed(c.seed);
            if c.iterate {
                return f.take(c.n).map(|(t, k)| (t.into(), k)).collect();
            }
            (0..c.n)
                .map(|_| {
                    let (t, k) = f.transaction_with_keys();
                    (t.into(), k)
                })
                .collect()
        }
        Kind::Mint => {
            let mut f = TransactionFactory::<StdRng, Mint>::from_seed(c.seed);
            if c.iterate {
                return f.take(c.n).map(|t| (t.into(), Vec::new())).collect();
            }
            (0..c.n).map(|_| (f.transaction().into(), Vec::new())).collect()
        }
    }
}

/// The same without the keys.
fn plain(c: &Factory) -> Vec<Transaction> {
    match c.kind {
        Kind::Script => {
            let mut f = TransactionFactory::<StdRng, Script>::from(StdRng::seed_from_u64(c.seed));
            (0..c.n).map(|_| f.transaction().into()).collect()
        }
        Kind::Create => {
            let mut f = TransactionFactory::<StdRng, Create>::from(StdRng::seed_from_u64(c.seed));
            (0..c.n).map(|_| f.transaction().into()).collect()
        }
        Kind::Mint => {
            let mut f = TransactionFactory::<StdRng, Mint>::from(StdRng::seed_from_u64(c.seed));
            (0..c.n).map(|_| f.transaction().into()).collect()
        }
    }
}

fn judge(t: &Transaction, keys: &[SecretKey], kind: Kind) -> Res {
    let m = MTx::of(t);
    ensure_eq!(m.kind, kind, "kind of the produced transaction");
    // one key for each signed input, in their order
    let owners: Vec<H> = m.inputs.iter().filter_map(|x| x.signed()).map(|(o, _)| o).collect();
    let addrs: Vec<H> = keys.iter().map(address).collect();
    ensure_eq!(owners, addrs, "owners of the signed inputs and addresses of the keys");
    let mut distinct = addrs.clone();
    distinct.sort_unstable();
    distinct.dedup();
    ensure_eq!(distinct.len(), addrs.len(), "different keys of the signed inputs");
    let id = enc::id(&m);
    ensure_eq!(id_of(t), id, "id of the produced transaction");
    let f = faults(&m, &id);
    ensure!(f.is_empty(), "the produced transaction has unsigned inputs or foreign predicates: {f:?}");
    judge_faults(&t.check_signatures(), &f, "signature check of the produced transaction")?;
    if kind != Kind::Mint {
        ensure!(with_exec!(t, t => t.check_predicate_owners()), "predicate owners of the produced transaction");
    }
    for (i, x) in m.inputs.iter().enumerate() {
        if let Some((owner, p)) = x.predicate() {
            ensure!(!p.is_empty() && p.len() % 8 == 0, "predicate {i} of {} bytes", p.len());
            ensure_eq!(owner, refs::code_root(p), "owner of predicate {i}");
        }
    }
    // each signed input has a witness of its own
    let mut w: Vec<u8> = m.inputs.iter().filter_map(|x| x.signed()).map(|(_, w)| w).collect();
    w.sort_unstable();
    w.dedup();
    ensure_eq!(w.len(), owners.len(), "witnesses of the signed inputs");
    if kind == Kind::Create {
        let code = m.wits.get(m.bidx as usize).ok_or("no bytecode")?;
        ensure_eq!(m.blen, code.0.len() as u64 / 4, "declared length of the bytecode");
        ensure!(!w.contains(&m.bidx), "the bytecode's witness was signed over");
    }
    let b = t.clone().to_bytes();
    ensure_eq!(b, enc::tx(&m), "encoding of the produced transaction");
    let d = Transaction::from_bytes(&b).map_err(|e| format!("decoding the produced transaction: {e}"))?;
    ensure!(d == *t, "the produced transaction does not survive a round-trip");
    Ok(())
}

/// What occurs among produced transactions.
fn seen(m: &MTx) -> u64 {
    let mut s = 0u64;
    for x in &m.inputs {
        s |= match x {
            MIn::CoinSigned { .. } => 1,
            MIn::CoinPred { .. } => 2,
            MIn::Contract { .. } => 4,
            MIn::MsgSigned { .. } => 8,
            MIn::MsgPred { .. } => 16,
        };
        // byte strings that are not always empty
        let full = |b: &B, bit: u32| (!b.0.is_empty() as u64) << bit;
        s |= match x {
            MIn::CoinPred { pdata, .. } => full(pdata, 14),
            MIn::MsgSigned { data, .. } => full(data, 15),
            MIn::MsgPred { data, pdata, .. } => full(data, 16) | full(pdata, 17),
            _ => 0,
        };
    }
    for x in &m.outputs {
        s |= match x {
            MOut::Coin { .. } => 32,
            MOut::Contract { .. } => 64,
            MOut::Message { .. } => 128,
            MOut::Change { .. } => 256,
            MOut::Variable { .. } => 512,
            MOut::Created { .. } => 1024,
        }
    }
    s | ((!m.slots.is_empty() as u64) << 11) | ((!m.script.0.is_empty() as u64) << 12) | ((!m.data.0.is_empty() as u64) << 13)
}

pub fn c35(ctx: &mut Ctx) {
    ctx.rule(
        "batches of 64 values of each sort that can be drawn from a seeded source; \
         transactions of each kind the factory of /repo/test-helpers makes from a seed, one by one and as an \
         iterator, against the models of the other properties, and 250 of one seed for the variants that \
         occur; non-trivial: every batch, and every transaction with inputs or outputs",
    );
    ctx.part(
        "samples",
        6000,
        |g| Batch { seed: g.u64(), sort: g.below(7) as u8 },
        |c, o| {
            o.nt(true);
            let what = ["UTXO id", "tx pointer", "slot", "witness", "salt", "bytes", "padded bytes"][c.sort as usize];
            o.class(what);
            let v = samples(&mut StdRng::seed_from_u64(c.seed), c.sort);
            let again = samples(&mut StdRng::seed_from_u64(c.seed), c.sort);
            ensure!(v == again, "{what}: the same source yields other values");
            if c.sort < 3 || c.sort == 4 {
                all_bits(&v, what)?;
            } else {
                let mut lens: Vec<usize> = v.iter().map(|x| x.len()).collect();
                lens.sort_unstable();
                lens.dedup();
                ensure!(lens.len() > 10, "{what}: only the lengths {lens:?}");
                if c.sort == 6 {
                    ensure!(lens[0] > 0 && lens.iter().all(|n| n % 8 == 0), "{what}: lengths {lens:?}");
                }
                // the ends of the long ones
                let long: Vec<Vec<u8>> = v
                    .iter()
                    .filter(|x| x.len() >= 16)
                    .map(|x| {
                        let mut b = x[..8].to_vec();
                        b.extend(&x[x.len() - 8..]);
                        b
                    })
                    .collect();
                if long.len() > 40 {
                    all_bits(&long, what)?;
                }
                // no position always holds the same byte
                for i in 0..lens.last().copied().unwrap_or(0) {
                    let at: Vec<u8> = v.iter().filter_map(|x| x.get(i).copied()).collect();
                    ensure!(at.len() < 16 || at.iter().any(|b| *b != at[0]), "{what}: byte {i} is always {}", at[0]);
                }
            }
            Ok(())
        },
    );
    ctx.part(
        "factory",
        2500,
        |g| Factory {
            seed: g.u64(),
            kind: *g.pick(&[Kind::Script, Kind::Create, Kind::Mint]),
            iterate: g.chance(1, 2),
            n: 1 + g.below(4),
        },
        |c, o| {
            let v = made(c);
            ensure_eq!(v.len(), c.n, "number of transactions");
            o.nt(v.iter().any(|(t, _)| seen(&MTx::of(t)) != 0));
            for (t, k) in &v {
                judge(t, k, c.kind)?;
            }
            let p = plain(c);
            ensure!(p.iter().eq(v.iter().map(|(t, _)| t)), "the same source makes other transactions");
            ensure!(v.windows(2).all(|w| w[0].0 != w[1].0), "the same transaction twice");
            Ok(())
        },
    );
    ctx.part(
        "variants",
        6,
        |g| Factory {
            seed: g.u64(),
            kind: *g.pick(&[Kind::Script, Kind::Create, Kind::Mint]),
            iterate: true,
            n: 250,
        },
        |c, o| {
            o.nt(true);
            let v = made(c);
            let s = v.iter().fold(0, |s, (t, _)| s | seen(&MTx::of(t)));
            let want = match c.kind {
                Kind::Script => 0x3f7ff,
                Kind::Create => 0x3cfff,
                Kind::Mint => 0x07e0,
            };
            ensure_eq!(s, want, "variants occurring among {} transactions", v.len());
            Ok(())
        },
    );
}

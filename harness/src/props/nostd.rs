//! C31: the crate built without std, against the same references as the standard build.

use crate::enc::{self, sha};
use crate::engine::*;
use crate::gen::{self, Checked as Case};
use crate::model::*;
use crate::offs::{compare_offsets, offsets, want_offsets};
use crate::refs;
use fuel_tx::*;
use fuel_types::bytes::SizedBytes;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

macro_rules! exec {
    ($r:expr, $v:ident => $e:expr) => {
        match $r {
            Transaction::Script($v) => $e,
            Transaction::Create($v) => $e,
            Transaction::Mint(_) => panic!("harness: a mint has no inputs"),
        }
    };
}
macro_rules! any {
    ($r:expr, $v:ident => $e:expr) => {
        match $r {
            Transaction::Script($v) => $e,
            Transaction::Create($v) => $e,
            Transaction::Mint($v) => $e,
        }
    };
}

fn verdict(c: &Case, o: &mut Obs) -> Res {
    let vs = refs::violations(&c.tx, c.height, &c.params);
    o.nt(c.tx.inputs.len() + c.tx.outputs.len() >= 1);
    o.class(if vs.is_empty() { "valid" } else { "not valid" });
    let p = c.params.real();
    let t = c.tx.real();
    let r = any!(&t, t => t.check_without_signatures(c.height, &p));
    refs::judge(&r, &vs, "structural check")?;
    ensure_eq!(t.check_without_signatures(c.height, &p), r, "check of the generic transaction");
    if c.tx.is_mint() {
        return Ok(());
    }
    let (ins, outs, wits) = (c.tx.real_inputs(), c.tx.real_outputs(), c.tx.real_wits());
    for (i, x) in ins.iter().enumerate() {
        let mut vs = Vec::new();
        refs::input_rules(i, &c.tx.inputs[i], &c.tx.outputs, wits.len(), &c.params, &mut vs);
        refs::judge(&x.check_without_signature(i, &outs, &wits, &p), &vs, "check of an input")?;
    }
    for (i, x) in outs.iter().enumerate() {
        let mut vs = Vec::new();
        refs::output_rules(i, &c.tx.outputs[i], &c.tx.inputs, &mut vs);
        refs::judge(&x.check(i, &ins), &vs, "check of an output")?;
    }
    Ok(())
}

fn content(c: &Case, o: &mut Obs) -> Res {
    let t = c.tx.real();
    o.nt(!c.tx.inputs.is_empty() || !c.tx.outputs.is_empty());
    ensure_eq!(MTx::of(&t), MTx::of(&c.tx.real()), "the fields set");
    let bytes = enc::tx(&c.tx);
    ensure_eq!(t.serialized_size(), bytes.len(), "size");
    ensure_eq!(any!(&t, t => t.serialized_size()), bytes.len(), "size of the typed transaction");
    compare_offsets(&offsets(&t), &want_offsets(&c.tx), "offsets")?;
    let json = t.to_json();
    let back = Transaction::from_json(&json).ok_or_else(|| format!("its own JSON {json} is rejected"))?;
    ensure_eq!(MTx::of(&back), MTx::of(&t), "transaction through JSON");
    ensure!(back == t, "the transaction read back from JSON differs");
    if c.tx.is_mint() {
        return Ok(());
    }
    let size = refs::metered(&c.tx);
    let f = exec!(&t, t => {
        ensure_eq!(t.metered_bytes_size() as u64, size, "metered bytes");
        ensure_eq!((t.price(), t.limit()), (c.tx.price, c.tx.limit), "price and limit");
        TransactionFee::checked_from_tx(&c.params.real(), t)
    });
    let got = f.as_ref().map(|f| refs::Fee { min: f.min(), total: f.total(), min_gas: f.min_gas(), max_gas: f.max_gas() });
    ensure_eq!(got, refs::fee(&c.params, size, c.tx.limit, c.tx.price), "fee");
    // listings
    let assets: Vec<H> = c.tx.inputs.iter().filter_map(MIn::asset).collect();
    let mut unique = assets.clone();
    unique.sort();
    unique.dedup();
    let (a, mut u): (Vec<H>, Vec<H>) = exec!(&t, t => (
        t.input_asset_ids().map(H::from).collect(),
        t.input_asset_ids_unique().map(H::from).collect(),
    ));
    u.sort();
    ensure_eq!(a, assets, "input assets");
    ensure_eq!(u, unique, "unique input assets");
    // preparation
    let mut m = c.tx.clone();
    let mut p = t.clone();
    exec!(&mut p, t => { t.prepare_init_predicate(); });
    m.inputs.iter_mut().for_each(enc::blank_input);
    m.outputs.iter_mut().for_each(enc::blank_output);
    ensure_eq!(MTx::of(&p), MTx::of(&m.real()), "transaction prepared for predicates");
    Ok(())
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Bits {
    code: B,
    slots: Vec<(H, H)>,
    salt: H,
    a: H,
    b: H,
    nonce: u64,
    nonce32: H,
    amount: u64,
    idx: u8,
    utxo: MUtxo,
    ptr: MPtr,
    create: MTx,
}

fn hashes(c: &Bits, o: &mut Obs) -> Res {
    o.nt(c.code.0.len() > 8);
    let root = refs::code_root(&c.code.0);
    let k = Contract::from(&c.code.0[..]);
    ensure_eq!(H::from(&k.root()), root, "code root");
    ensure_eq!(H::from(&Contract::root_from_code(&c.code.0)), root, "root from code");
    ensure_eq!(H::from(&Input::predicate_owner(&c.code.0)), root, "predicate owner");
    let map: BTreeMap<H, H> = c.slots.iter().copied().collect();
    let slots: Vec<StorageSlot> = map.iter().rev().map(|(k, v)| StorageSlot::new(k.into(), v.into())).collect();
    let state = refs::state_root(&map);
    ensure_eq!(H::from(&Contract::initial_state_root(slots.iter())), state, "state root");
    ensure_eq!(
        H::from(&k.id(&c.salt.into(), &root.into(), &state.into())),
        sha(&[b"FUEL", &c.salt.0, &root.0, &state.0]),
        "contract id"
    );
    let (s, r): (Address, Address) = (c.a.into(), c.b.into());
    ensure_eq!(
        H::from(&Input::compute_message_id(&s, &r, c.nonce, c.amount, &c.code.0)),
        sha(&[&c.a.0, &c.b.0, &c.nonce.to_be_bytes(), &c.amount.to_be_bytes(), &c.code.0]),
        "input message id"
    );
    ensure_eq!(
        H::from(&Output::message_id(&s, &r, &c.nonce32.into(), c.amount, &c.code.0)),
        sha(&[&c.a.0, &c.b.0, &c.nonce32.0, &c.amount.to_be_bytes(), &c.code.0]),
        "output message id"
    );
    ensure_eq!(
        H::from(&Output::message_nonce(&c.a.into(), c.idx as u64)),
        sha(&[&c.a.0, &[c.idx]]),
        "message nonce"
    );
    ensure_eq!(H::from(&Output::message_digest(&c.code.0)), sha(&[&c.code.0]), "message digest");
    let u: UtxoId = format!("{:#x}", c.utxo.real()).parse().map_err(|e| format!("id: {e}"))?;
    ensure_eq!(MUtxo::of(&u), c.utxo, "id through text");
    let p: TxPointer = format!("{:x}", c.ptr.real()).parse().map_err(|e| format!("pointer: {e}"))?;
    ensure_eq!(MPtr::of(&p), c.ptr, "pointer through text");
    let want = c
        .create
        .wits
        .get(c.create.bidx as usize)
        .map(|w| w.0.clone())
        .ok_or(CheckError::TransactionCreateBytecodeWitnessIndex);
    ensure_eq!(Contract::try_from(&c.create.real()).map(Vec::<u8>::from), want, "contract of a transaction");
    Ok(())
}

pub fn c31(ctx: &mut Ctx) {
    ctx.rule(
        "the crate compiled with alloc and serde only: near-valid and arbitrary transactions of each kind \
         against the rule set used for the standard build (some with up to 70000 elements in a list), sizes, offsets, fees, listings, preparation and \
         JSON of arbitrary transactions, roots, ids and texts of arbitrary data; non-trivial: the \
         transaction has inputs or outputs, the data is longer than a chunk",
    );
    ctx.part("script", 250000, |g| gen::near_valid(g, Kind::Script), verdict);
    ctx.part("create", 200000, |g| gen::near_valid(g, Kind::Create), verdict);
    ctx.part("mint", 150000, |g| gen::near_valid(g, Kind::Mint), verdict);
    ctx.part(
        "long lists",
        150,
        |g| {
            let kind = gen::kind(g);
            gen::many_of(g, kind)
        },
        |m, o| verdict(&m.case(), o),
    );
    ctx.part(
        "content",
        30000,
        |g| {
            let tx = gen::tx(g);
            let tx = gen::hollow(g, tx);
            let mut params = MParams::default();
            gen::params_around(g, &tx, &mut params);
            Case { tx, height: 0, params }
        },
        content,
    );
    ctx.part(
        "hashes",
        12000,
        |g| Bits {
            code: gen::bytes(g),
            slots: (0..g.below(8)).map(|_| gen::slot(g)).collect(),
            salt: gen::h(g),
            a: gen::h(g),
            b: gen::h(g),
            nonce: gen::word(g),
            nonce32: gen::h(g),
            amount: gen::word(g),
            idx: gen::byte(g),
            utxo: gen::utxo(g),
            ptr: gen::ptr(g),
            create: gen::tx_of(g, Kind::Create, true),
        },
        hashes,
    );
}

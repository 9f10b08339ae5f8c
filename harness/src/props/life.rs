//! C36 and C37: what happens to a transaction between its sender, the wire and its receiver.

use crate::engine::*;
use crate::expect::*;
use crate::gen::{self, Checked as Case};
use crate::model::*;
use crate::props::codec::{from_bytes, size, to_bytes, write_over};
use crate::val::*;
use crate::{enc, keys, offs, refs, with_exec, with_real, with_tx};
use fuel_tx::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C36

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Foreign {
    base: MVal,
    /// Words overwritten and bits flipped in the encoding.
    words: Vec<(usize, u64)>,
    flips: Vec<(usize, u8)>,
    height: u64,
    params: MParams,
    /// Draws the arguments of the calls.
    seed: u64,
}

fn nasty(g: &mut G) -> u64 {
    match g.below(7) {
        0 => g.below(12) as u64,
        1 => g.below(4000) as u64,
        2 => 1 << g.below(64),
        3 => u64::MAX - g.below(17) as u64,
        4 => (1u64 << g.below(64)).wrapping_sub(1 + g.below(9) as u64),
        5 => gen::word(g),
        _ => g.u64(),
    }
}

/// Any limits; only a zero gas price factor is excluded.
fn any_params(g: &mut G) -> MParams {
    let mut p = MParams::default();
    for x in &mut p.0 {
        if g.chance(1, 2) {
            *x = nasty(g);
        }
    }
    p.0[P_FACTOR] = p.0[P_FACTOR].max(1);
    p
}

fn foreign(g: &mut G, base: MVal) -> Foreign {
    let bytes = base.bytes();
    let control = base.control();
    let (mut words, mut flips) = (Vec::new(), Vec::new());
    for _ in 0..g.below(5) {
        match g.below(8) {
            0 if !control.is_empty() => words.push((*g.pick(&control), nasty(g))),
            1 => {
                if !bytes.is_empty() {
                    flips.push((g.below(bytes.len()), 1 << g.below(8)))
                }
            }
            _ => words.push((8 * g.below(bytes.len() / 8 + 1), nasty(g))),
        }
    }
    let height = gen::word(g);
    let params = any_params(g);
    Foreign { base, words, flips, height, params, seed: g.u64() }
}

fn foreign_tx(g: &mut G) -> Foreign {
    if g.chance(1, 2) {
        let t = tx_val(g);
        return foreign(g, t);
    }
    let kind = gen::kind(g);
    let mut c = gen::valid(g, kind);
    if !c.tx.is_mint() {
        fund(g, &mut c);
        if g.chance(1, 3) {
            sign_model(&mut c.tx);
        }
    }
    if g.chance(1, 2) {
        gen::disturb(g, &mut c);
    }
    let (height, params) = (c.height, c.params.clone());
    let base = if g.chance(1, 2) { MVal::Tx(c.tx) } else { MVal::Typed(c.tx) };
    let mut f = foreign(g, base);
    if g.chance(2, 3) {
        f.height = height;
        f.params = params;
    }
    f
}

fn arrived(c: &Foreign) -> Vec<u8> {
    let mut b = c.base.bytes();
    for (at, w) in &c.words {
        if at + 8 <= b.len() {
            b[*at..at + 8].copy_from_slice(&w.to_be_bytes());
        }
    }
    for (at, m) in &c.flips {
        if let Some(x) = b.get_mut(*at) {
            *x ^= m;
        }
    }
    b
}

/// Runs one operation; a panic names it.
fn op<R>(name: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    no_panic(f).map_err(|e| format!("{name} {e}"))
}

fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// The operations every value offers.
fn plain<T>(x: &T) -> Res
where
    T: Clone + PartialEq + std::fmt::Debug + Serialize + for<'a> Deserialize<'a>,
{
    op("clone and compare", || assert!(x.clone() == *x))?;
    op("debug format", || format!("{x:?} {x:#?}").len())?;
    let j = op("to JSON", || serde_json::to_string(x))?.map_err(|e| format!("to JSON: {e}"))?;
    op("from JSON", || serde_json::from_str::<T>(&j).map(drop))?.map_err(|e| format!("from JSON: {e}"))?;
    let b = op("to bincode", || bincode::serialize(x))?.map_err(|e| format!("to bincode: {e}"))?;
    op("from bincode", || bincode::deserialize::<T>(&b).map(drop))?.map_err(|e| format!("from bincode: {e}"))?;
    Ok(())
}

fn input_ops(i: usize, x: &Input) -> Res {
    op(&format!("accessors of input {i}"), || {
        let _ = (x.utxo_id(), x.input_owner(), x.asset_id(), x.contract_id(), x.amount(), x.witness_index());
        let _ = (x.maturity(), x.message_id(), x.tx_pointer(), x.input_data(), x.balance_root(), x.state_root());
        let _ = (x.sender(), x.recipient(), x.nonce(), x.predicate(), x.input_predicate());
        let _ = (x.predicate_offset(), x.predicate_data_offset(), x.predicate_len(), x.predicate_data_len());
        let _ = (x.is_coin(), x.is_message(), x.is_contract(), x.is_coin_signed(), x.input_predicate_data());
        let r = x.repr();
        let _ = (r.utxo_id_offset(), r.owner_offset(), r.asset_id_offset(), r.data_offset());
        let _ = (r.tx_pointer_offset(), r.message_id_offset(), r.coin_predicate_offset());
        let _ = hash_of(x);
    })?;
    op(&format!("predicate ownership of input {i}"), || {
        if let (Some(o), Some(p)) = (x.input_owner().or(x.recipient()), x.input_predicate()) {
            let _ = Input::is_predicate_owner_valid(o, p);
        }
    })?;
    op(&format!("message id of input {i}"), || {
        if let (Some(s), Some(r), Some(n), Some(a), Some(d)) =
            (x.sender(), x.recipient(), x.nonce(), x.amount(), x.input_data())
        {
            let _ = Input::compute_message_id(s, r, n, a, d);
        }
    })?;
    op(&format!("preparing input {i} for a predicate"), || x.clone().prepare_init_predicate())
}

fn output_ops(i: usize, x: &Output) -> Res {
    op(&format!("accessors of output {i}"), || {
        let _ = (x.asset_id(), x.to(), x.amount(), x.input_index(), x.balance_root(), x.state_root());
        let _ = (x.contract_id(), x.recipient(), x.is_coin(), x.is_message(), x.is_variable());
        let _ = (x.is_contract(), x.is_contract_created(), hash_of(x));
        let r = x.repr();
        let _ = (r.to_offset(), r.asset_id_offset(), r.contract_id_offset(), r.recipient_offset());
        let _ = (r.contract_balance_root_offset(), r.contract_state_root_offset());
        let _ = r.contract_created_state_root_offset();
    })?;
    op(&format!("preparing output {i} for a script"), || x.clone().prepare_init_script())?;
    op(&format!("preparing output {i} for a predicate"), || x.clone().prepare_init_predicate())
}

fn exec_ops<T>(t: &T, g: &mut G) -> Res
where
    T: Executable + Signable + Clone + PartialEq + field::Inputs + field::Outputs + field::Witnesses,
{
    op("input_asset_ids", || t.input_asset_ids().count())?;
    op("input_asset_ids_unique", || t.input_asset_ids_unique().count())?;
    op("input_contracts", || t.input_contracts().count())?;
    op("check_predicate_owners", || t.check_predicate_owners())?;
    op("prepare_init_script", || {
        let mut t = t.clone();
        t.prepare_init_script();
    })?;
    op("prepare_init_predicate", || {
        let mut t = t.clone();
        t.prepare_init_predicate();
    })?;
    let k = g.below(gen::KEYS);
    op("sign_inputs", || t.clone().sign_inputs(&keys::secret(k)))?;
    let (a, b, n, amount, d) = (gen::h(g), gen::h(g), gen::word(g), gen::word(g), gen::bytes(g));
    let (u, p) = (gen::utxo(g), gen::ptr(g));
    op("adding unsigned inputs and signing", || {
        let mut t = t.clone();
        t.add_unsigned_coin_input(u.real(), &keys::public(k), amount, a.into(), p.real(), n);
        t.add_unsigned_message_input(a.into(), b.into(), n, amount, d.0);
        t.sign_inputs(&keys::secret(k));
    })
}

fn fee_ops<T: Chargeable>(t: &T, p: &ConsensusParameters) -> Res {
    op("metered size", || t.metered_bytes_size())?;
    op("price and limit", || (t.price(), t.limit()))?;
    let f = op("fee of the transaction", || TransactionFee::checked_from_tx(p, t))?;
    if let Some(f) = f {
        op("deducting the fee", || {
            (f.checked_deduct_total(0), f.checked_deduct_total(f.total()), f.checked_deduct_total(u64::MAX))
        })?;
    }
    op("refund", || {
        for g in [0, 1, t.limit(), u64::MAX] {
            TransactionFee::gas_refund_value(p, g, t.price());
        }
    })
}

/// Everything a receiver may do with a transaction.
fn tx_ops(real: &Transaction, c: &Foreign, o: &mut Obs) -> Res {
    let model = op("reading the fields", || MTx::of(real))?;
    let t = &model;
    let case = Case { tx: t.clone(), height: c.height, params: c.params.clone() };
    let p = c.params.real();
    let mut g = G::seeded(c.seed);
    let id = op("id", || id_of(real))?;
    ensure_eq!(id, enc::id(t), "id");
    plain(real)?;
    op("to_json and from_json", || Transaction::from_json(real.to_json()))?;
    op("hash", || hash_of(real))?;
    let mut cached = real.clone();
    op("precompute", || with_tx!(&mut cached, t => t.precompute()))?;
    ensure_eq!(op("id with a cache", || id_of(&cached))?, id, "id with a cache");
    for (t, what) in [(real, "the transaction"), (&cached, "the transaction with a cache")] {
        let got = op(&format!("offsets of {what}"), || offs::offsets(t))?;
        offs::compare_offsets(&got, &offs::want_offsets(&case.tx), what)?;
        op("checks without signatures", || with_tx!(t, t => t.check_without_signatures(c.height, &p).is_ok()))?;
        op("signature checks", || with_tx!(t, t => t.check_signatures().is_ok()))?;
    }
    let e = Expect::of(&case);
    for full in [false, true] {
        let [typed, generic] = op("checking", || both(real, &case, full))?;
        e.judge(&typed, full, "check")?;
        e.judge(&generic, full, "generic check")?;
        for f in [typed, generic].into_iter().flatten() {
            o.class_if(full, "admitted");
            o.class_if(!full, "basically admitted");
            let f = op("cloning the checked form", || f.clone())?;
            op("reading the checked form", || meaning(&f).map(drop))??;
            let f: CheckedTransaction = op("converting the checked form", || match f {
                Form::Script(x) => x.into(),
                Form::Create(x) => x.into(),
                Form::Mint(x) => x.into(),
                Form::Generic(x) => x.into(),
                Form::Enum(x) => x,
            })?;
            let f: Checked<Transaction> = op("converting back", || f.into())?;
            op("checking its signatures", || f.check_signatures().is_ok())?;
        }
    }
    match real {
        Transaction::Script(t) => fee_ops(t, &p)?,
        Transaction::Create(t) => {
            fee_ops(t, &p)?;
            op("the contract of the transaction", || {
                if let Ok(c) = Contract::try_from(t) {
                    let _ = c.root();
                }
            })?;
        }
        Transaction::Mint(_) => {}
    }
    op("the contract of the generic transaction", || Contract::try_from(real).map(|c| c.root()).is_ok())?;
    if !t.is_mint() {
        with_exec!(real, t => exec_ops(t, &mut g))?;
        let (inputs, outputs, wits) = (t.real_inputs(), t.real_outputs(), t.real_wits());
        for (i, x) in inputs.iter().enumerate().take(12) {
            input_ops(i, x)?;
            op(&format!("check of input {i}"), || {
                let _ = x.check(i, &id.into(), &outputs, &wits, &p);
                let _ = x.check_signature(i, &id.into(), &wits);
                let _ = x.check_without_signature(i, &outputs, &wits, &p);
            })?;
        }
        for (i, x) in outputs.iter().enumerate().take(12) {
            op(&format!("check of output {i}"), || x.check(i, &inputs).is_ok())?;
        }
    }
    for (i, x) in t.real_outputs().iter().enumerate().take(12) {
        output_ops(i, x)?;
        op(&format!("message of output {i}"), || {
            let _ = Output::message_nonce(&id.into(), i as u64);
            if let (Some(r), Some(a)) = (x.recipient(), x.amount()) {
                let m = Receipt::message_out_from_tx_output(&id.into(), i as u64, *r, *r, a, vec![1; i]);
                let _ = (m.message_id(), m.len());
            }
        })?;
    }
    Ok(())
}

fn receipt_ops(r: &Receipt) -> Res {
    op("accessors of the receipt", || {
        let _ = (r.id(), r.pc(), r.is(), r.to(), r.to_address(), r.amount(), r.asset_id(), r.gas());
        let _ = (r.param1(), r.param2(), r.val(), r.ptr(), r.len(), r.digest(), r.data(), r.reason());
        let _ = (r.ra(), r.rb(), r.rc(), r.rd(), r.result(), r.gas_used(), r.message_id(), r.sender());
        let _ = (r.recipient(), r.nonce(), r.contract_id(), r.is_empty());
    })
}

fn check_foreign(c: &Foreign, o: &mut Obs) -> Res {
    let bytes = arrived(c);
    let sort = c.base.sort();
    let real = match op("decoding", || from_bytes(sort, &bytes))? {
        Ok(r) => r,
        Err(_) => {
            o.class("not decoded");
            return Ok(());
        }
    };
    o.nt(bytes != c.base.bytes());
    o.class(c.base.class());
    let b = op("encoding", || to_bytes(&real))?;
    ensure_eq!(op("serialized_size", || size(&real))?, b.len(), "size");
    match &real {
        Real::Tx(t) => tx_ops(t, c, o),
        Real::Script(t) => {
            plain(t)?;
            tx_ops(&t.clone().into(), c, o)
        }
        Real::Create(t) => {
            plain(t)?;
            tx_ops(&t.clone().into(), c, o)
        }
        Real::Mint(t) => {
            plain(t)?;
            tx_ops(&t.clone().into(), c, o)
        }
        Real::In(x) => {
            plain(x)?;
            input_ops(0, x)
        }
        Real::Out(x) => {
            plain(x)?;
            output_ops(0, x)
        }
        Real::Rcpt(r) => {
            plain(r)?;
            receipt_ops(r)
        }
        r => with_real!(r, v => plain(v)),
    }
}

pub fn c36(ctx: &mut Ctx) {
    ctx.rule(
        "encodings of arbitrary and of valid, funded, signed and disturbed transactions, receipts, inputs and \
         outputs with up to four words or bits overwritten; whatever decodes is put through every operation \
         of its type (sizes, offsets, text forms, ids, both checks and the conversions of what passes, fees, \
         element checks, signing, preparation, messages, the contract) under arbitrary heights and limits, \
         each without a panic and the checks with the verdict of the independent rules; non-trivial: decoded \
         from bytes other than the ones written",
    );
    ctx.part("transactions", 60000, foreign_tx, check_foreign);
    ctx.part(
        "values",
        60000,
        |g| {
            let v = if g.chance(1, 2) { part_val(g) } else { rcpt_val(g) };
            foreign(g, v)
        },
        check_foreign,
    );
}

// ---------------------------------------------------------------- C37

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Hop {
    Generic,
    Typed,
    Read,
    TryFrom,
    Over,
    Json,
    JsonMethods,
    JsonValue,
    Bincode,
    Precompute,
    Clone,
    Checked,
}
const HOPS: [Hop; 12] = [
    Hop::Generic,
    Hop::Typed,
    Hop::Read,
    Hop::TryFrom,
    Hop::Over,
    Hop::Json,
    Hop::JsonMethods,
    Hop::JsonValue,
    Hop::Bincode,
    Hop::Precompute,
    Hop::Clone,
    Hop::Checked,
];

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Journey {
    case: Case,
    hops: Vec<Hop>,
    /// What the receiving buffer held before.
    prior: MTx,
    cached: bool,
    /// The transaction with outcomes filled in.
    executed: Option<MTx>,
}

fn journey(g: &mut G) -> Journey {
    let mut case = signed_case(g);
    for x in &mut case.tx.inputs {
        // an empty predicate has no binary form of its own
        match x {
            MIn::CoinPred { pred, .. } | MIn::MsgPred { pred, .. } if pred.0.is_empty() => pred.0.push(0x24),
            _ => {}
        }
    }
    let n = 1 + g.below(5);
    let hops = (0..n).map(|_| *g.pick(&HOPS)).collect();
    let prior = gen::tx_of(g, case.tx.kind, true);
    let executed = g.chance(1, 2).then(|| {
        let mut t = case.tx.clone();
        for _ in 0..1 + g.below(6) {
            gen::edit_malleable(g, &mut t);
            t.wits = case.tx.wits.clone();
        }
        t
    });
    Journey { case, hops, prior, cached: g.chance(1, 2), executed }
}

fn hop(t: &Transaction, h: Hop, c: &Journey) -> Result<Transaction, String> {
    let sort = match t {
        Transaction::Script(_) => Sort::Script,
        Transaction::Create(_) => Sort::Create,
        Transaction::Mint(_) => Sort::Mint,
    };
    let typed = match t.clone() {
        Transaction::Script(t) => Real::Script(t),
        Transaction::Create(t) => Real::Create(t),
        Transaction::Mint(t) => Real::Mint(t),
    };
    let generic = |r: Real| match r {
        Real::Tx(t) => t,
        Real::Script(t) => t.into(),
        Real::Create(t) => t.into(),
        Real::Mint(t) => t.into(),
        _ => unreachable!(),
    };
    let s = |e: &dyn std::fmt::Display| format!("{h:?}: {e}");
    Ok(match h {
        Hop::Generic => generic(from_bytes(Sort::Tx, &to_bytes(&typed)).map_err(|e| s(&e))?),
        Hop::Typed => generic(from_bytes(sort, &to_bytes(&Real::Tx(t.clone()))).map_err(|e| s(&e))?),
        Hop::Read => {
            let mut b = vec![0xa5; size(&typed)];
            crate::props::codec::read_into(&typed, &mut b).map_err(|e| s(&e))?;
            generic(from_bytes(Sort::Tx, &b).map_err(|e| s(&e))?)
        }
        Hop::TryFrom => Transaction::try_from_bytes(&to_bytes(&typed)).map_err(|e| s(&e))?.1,
        Hop::Over => {
            let mut prior = c.prior.real();
            with_tx!(&mut prior, t => t.precompute());
            let mut prior = Real::Tx(prior);
            write_over(&mut prior, &to_bytes(&typed)).map_err(|e| s(&e))?;
            generic(prior)
        }
        Hop::Json => {
            let j = serde_json::to_string(t).map_err(|e| s(&e))?;
            serde_json::from_str(&j).map_err(|e| s(&e))?
        }
        Hop::JsonMethods => Transaction::from_json(t.to_json()).ok_or_else(|| s(&"nothing"))?,
        Hop::JsonValue => with_tx!(t, t => {
            let j = serde_json::to_vec(t).map_err(|e| s(&e))?;
            let mut back = t.clone();
            back.clone_from(&serde_json::from_slice(&j).map_err(|e| s(&e))?);
            back.into()
        }),
        Hop::Bincode => {
            let b = bincode::serialize(t).map_err(|e| s(&e))?;
            bincode::deserialize(&b).map_err(|e| s(&e))?
        }
        Hop::Precompute => {
            let mut t = t.clone();
            with_tx!(&mut t, t => t.precompute());
            t
        }
        Hop::Clone => t.clone(),
        // admitted here and passed on
        Hop::Checked => match t.clone().into_checked(c.case.height, &c.case.params.real()) {
            Ok(x) => {
                let (t, _): (Transaction, _) = x.into();
                t
            }
            Err(_) => t.clone(),
        },
    })
}

/// What the receiver of `t` sees, against what the sender's model says.
fn seen(t: &Transaction, c: &Journey, e: &Expect, at: &str) -> Res {
    let held = MTx::of(&c.case.tx.real());
    ensure_eq!(MTx::of(t), held, "transaction {at}");
    let id = enc::id(&c.case.tx);
    ensure_eq!(id_of(t), id, "id {at}");
    ensure_eq!(B(to_bytes(&Real::Tx(t.clone()))), B(enc::tx(&c.case.tx)), "encoding {at}");
    for full in [false, true] {
        let bits = if full { 3 } else { 1 };
        for r in both(t, &c.case, full) {
            e.judge(&r, full, at)?;
            if let Ok(f) = r {
                let want = (held.clone(), bits, true, e.bal.clone().unwrap_or(None), id);
                ensure_eq!(meaning(&f)?, want, "checked form {at}");
            }
        }
    }
    Ok(())
}

fn check_journey(c: &Journey, o: &mut Obs) -> Res {
    let e = Expect::of(&c.case);
    let fine = e.vs.is_empty() && e.bal.is_ok() && e.faults.is_empty();
    o.nt(fine);
    o.class(if fine { "admitted" } else { "rejected" });
    let mut t = c.case.tx.real();
    if c.cached {
        with_tx!(&mut t, t => t.precompute());
    }
    seen(&t, c, &e, "at the sender")?;
    for (i, h) in c.hops.iter().enumerate() {
        t = hop(&t, *h, c)?;
        seen(&t, c, &e, &format!("after hop {i} ({h:?})"))?;
    }
    let Some(done) = &c.executed else { return Ok(()) };
    if done == &c.case.tx {
        return Ok(());
    }
    // the same transaction with its outcomes filled in, sent on
    o.class("executed");
    let id = id_of(&t);
    let n = size(&Real::Tx(t.clone()));
    assign(&mut t, done);
    let t = hop(&t, c.hops[0], &Journey { case: Case { tx: done.clone(), ..c.case.clone() }, ..c.clone() })?;
    ensure_eq!(MTx::of(&t), MTx::of(&done.real()), "executed transaction as received");
    ensure_eq!(size(&Real::Tx(t.clone())), n, "size of the executed transaction");
    let mut fresh = t.clone();
    with_tx!(&mut fresh, t => t.precompute());
    ensure_eq!(id_of(&fresh), id, "id of the executed transaction");
    let p = c.case.params.real();
    let r = with_tx!(&fresh, t => t.check_signatures());
    judge_faults(&r, &e.faults, "signatures of the executed transaction")?;
    let fee = refs::fee(&c.case.params, refs::metered(&c.case.tx), c.case.tx.limit, c.case.tx.price);
    if !c.case.tx.is_mint() {
        let got = with_exec!(&fresh, t => TransactionFee::checked_from_tx(&p, t));
        ensure_eq!(got.as_ref().map(fee_of), fee, "fee of the executed transaction");
    }
    Ok(())
}

pub fn c37(ctx: &mut Ctx) {
    ctx.rule(
        "valid, funded and signed transactions (some failing in one respect), with and without a cache, passed \
         on up to five times through the generic, typed and in-place binary forms, JSON, bincode, caching and \
         admission; every holder must see the same fields, id, encoding, verdicts and balances, and the \
         transaction with its outcomes filled in must keep id, size, fee and signatures; non-trivial: the \
         full check admits the transaction",
    );
    ctx.part("journeys", 60000, journey, check_journey);
    ctx.part(
        "all ways",
        5000,
        |g| Journey { hops: HOPS.to_vec(), ..journey(g) },
        check_journey,
    );
}

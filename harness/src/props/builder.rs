//! C29: histories of builder calls.

use crate::enc;
use crate::engine::*;
use crate::gen::{self, Checked as Case};
use crate::keys;
use crate::model::*;
use crate::expect::*;
use crate::refs;
use crate::with_tx;
use fuel_tx::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Step {
    Price(u64),
    Limit(u64),
    Maturity(u64),
    Coin { key: usize, utxo: MUtxo, amount: u64, asset: H, ptr: MPtr, maturity: u64 },
    Message { key: usize, sender: H, nonce: u64, amount: u64, data: B },
    Input(MIn),
    Output(MOut),
    Wit(B),
    PrepareScript(bool),
    PreparePredicate(bool),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Start {
    Script { script: B, data: B },
    Create { code: B, salt: H, slots: Vec<(H, H)> },
    Mint { ptr: MPtr },
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct History {
    start: Start,
    steps: Vec<Step>,
    height: u64,
    params: MParams,
}

fn step(g: &mut G, n_keys: usize) -> Step {
    match g.below(16) {
        0 => Step::Price(gen::word(g)),
        1 => Step::Limit(gen::word(g)),
        2 => Step::Maturity(gen::word(g)),
        3..=5 => coin(g, n_keys),
        6 | 7 => {
            let n = g.below(12);
            Step::Message {
                key: g.below(n_keys),
                sender: gen::h(g),
                nonce: gen::word(g),
                amount: gen::word(g),
                data: gen::filled(g, n),
            }
        }
        8 | 9 => {
            let v = g.below(5);
            let mut x = gen::input_of(g, v, true);
            if g.chance(1, 2) {
                let w = g.below(8) as u8;
                x.set_wit(w);
                if x.signed().is_some() && g.chance(1, 2) {
                    x.set_owner(gen::key_addr(g.below(n_keys)));
                }
            }
            Step::Input(x)
        }
        10 | 11 => Step::Output(gen::output(g)),
        12 | 13 => {
            let n = *g.pick(&[0, 1, 20, 64]);
            Step::Wit(gen::filled(g, n))
        }
        14 => Step::PrepareScript(g.chance(1, 2)),
        _ => Step::PreparePredicate(g.chance(1, 2)),
    }
}
fn coin(g: &mut G, n_keys: usize) -> Step {
    Step::Coin {
        key: g.below(n_keys),
        utxo: gen::utxo(g),
        amount: gen::word(g),
        asset: gen::h(g),
        ptr: gen::ptr(g),
        maturity: gen::word(g),
    }
}

fn any(g: &mut G) -> History {
    let start = match g.below(5) {
        0 | 1 => Start::Script { script: gen::bytes(g), data: gen::bytes(g) },
        2 | 3 => Start::Create {
            code: gen::bytes(g),
            salt: gen::h(g),
            slots: (0..gen::count(g, 5)).map(|_| gen::slot(g)).collect(),
        },
        _ => Start::Mint { ptr: gen::ptr(g) },
    };
    let mint = matches!(start, Start::Mint { .. });
    let n_keys = 1 + g.below(gen::KEYS);
    let n = if g.chance(1, 100) { 20 + g.below(60) } else { g.below(14) };
    let steps = (0..n).map(|_| if mint { Step::Output(gen::output(g)) } else { step(g, n_keys) }).collect();
    History { start, steps, height: gen::word(g), params: MParams::default() }
}

/// The calls that describe a valid transaction, in an order that keeps its indexes.
fn described(g: &mut G) -> History {
    let kind = *g.pick(&[Kind::Script, Kind::Script, Kind::Create, Kind::Create, Kind::Mint]);
    let mut c = gen::valid(g, kind);
    fund(g, &mut c);
    let t = c.tx;
    let mut params = c.params;
    let mut wits: Vec<B> = t.wits.clone();
    let start = match kind {
        Kind::Script => Start::Script { script: t.script.clone(), data: t.data.clone() },
        Kind::Create => {
            let code = wits.remove(t.bidx as usize);
            Start::Create { code, salt: t.salt, slots: t.slots.clone() }
        }
        Kind::Mint => Start::Mint { ptr: t.ptr },
    };
    let mut lists: [std::collections::VecDeque<Step>; 4] = Default::default();
    let mut added = 0;
    for x in &t.inputs {
        lists[0].push_back(match x {
            MIn::CoinSigned { utxo, owner, amount, asset, ptr, maturity, .. } => {
                let key = keys::key_of(owner).unwrap_or(0);
                added += 1;
                Step::Coin { key, utxo: *utxo, amount: *amount, asset: *asset, ptr: *ptr, maturity: *maturity }
            }
            MIn::MsgSigned { sender, recipient, nonce, amount, data, .. } => {
                let key = keys::key_of(recipient).unwrap_or(0);
                added += 1;
                Step::Message { key, sender: *sender, nonce: *nonce, amount: *amount, data: data.clone() }
            }
            x => Step::Input(x.clone()),
        });
    }
    lists[1].extend(t.outputs.iter().cloned().map(Step::Output));
    lists[2].extend(wits.into_iter().map(Step::Wit));
    if kind != Kind::Mint {
        lists[3].extend([Step::Price(t.price), Step::Limit(t.limit), Step::Maturity(t.maturity)]);
        if g.chance(1, 3) {
            lists[3].push_front(Step::Price(gen::word(g)));
            lists[3].push_front(Step::Maturity(gen::word(g)));
        }
        if g.chance(1, 4) {
            let b = g.chance(1, 2);
            lists[3].push_back(Step::PrepareScript(b));
        }
    }
    let need = (t.wits.len() + added) as u64;
    params.0[P_WITS] = params.0[P_WITS].max(need);
    let mut steps = Vec::new();
    while lists.iter().any(|l| !l.is_empty()) {
        let full: Vec<usize> = (0..4).filter(|i| !lists[*i].is_empty()).collect();
        let i = *g.pick(&full);
        steps.extend(lists[i].pop_front());
    }
    History { start, steps, height: c.height, params }
}

struct Model {
    tx: MTx,
    keys: Vec<usize>,
    script: bool,
    predicate: bool,
}

impl Model {
    fn start(s: &Start) -> Self {
        let mut tx = MTx::default();
        let mut script = false;
        match s {
            Start::Script { script: s, data } => {
                tx.kind = Kind::Script;
                tx.script = s.clone();
                tx.data = data.clone();
                script = true;
            }
            Start::Create { code, salt, slots } => {
                tx.kind = Kind::Create;
                tx.blen = code.0.len() as u64 / 4;
                tx.wits.push(code.clone());
                tx.salt = *salt;
                tx.slots = slots.clone();
            }
            Start::Mint { ptr } => {
                tx.kind = Kind::Mint;
                tx.ptr = *ptr;
            }
        }
        Model { tx, keys: vec![], script, predicate: false }
    }
    fn step(&mut self, s: &Step) {
        let t = &mut self.tx;
        let wit = t.wits.len() as u8;
        match s.clone() {
            Step::Price(x) => t.price = x,
            Step::Limit(x) => t.limit = x,
            Step::Maturity(x) => t.maturity = x,
            Step::Coin { key, utxo, amount, asset, ptr, maturity } => {
                t.inputs.push(MIn::CoinSigned { utxo, owner: keys::addr(key), amount, asset, ptr, wit, maturity });
                t.wits.push(B(vec![]));
                self.keys.push(key);
            }
            Step::Message { key, sender, nonce, amount, data } => {
                let recipient = keys::addr(key);
                let mid = enc::sha(&[
                    &sender.0,
                    &recipient.0,
                    &nonce.to_be_bytes(),
                    &amount.to_be_bytes(),
                    &data.0,
                ]);
                t.inputs.push(MIn::MsgSigned { mid, sender, recipient, amount, nonce, wit, data });
                t.wits.push(B(vec![]));
                self.keys.push(key);
            }
            Step::Input(x) => t.inputs.push(x),
            Step::Output(x) => t.outputs.push(x),
            Step::Wit(x) => t.wits.push(x),
            Step::PrepareScript(b) => self.script = b,
            Step::PreparePredicate(b) => self.predicate = b,
        }
    }
    /// The transaction finished without signatures.
    fn prepared(&self) -> MTx {
        let mut t = self.tx.clone();
        if self.predicate {
            t.inputs.iter_mut().for_each(enc::blank_input);
            t.outputs.iter_mut().for_each(enc::blank_output);
        }
        if self.script {
            t.outputs.iter_mut().for_each(enc::blank_output_script);
        }
        t
    }
}

fn apply<T: Buildable>(b: &mut TransactionBuilder<T>, s: &Step) {
    match s.clone() {
        Step::Price(x) => b.gas_price(x),
        Step::Limit(x) => b.gas_limit(x),
        Step::Maturity(x) => b.maturity(x),
        Step::Coin { key, utxo, amount, asset, ptr, maturity } => b.add_unsigned_coin_input(
            keys::secret(key),
            utxo.real(),
            amount,
            asset.into(),
            ptr.real(),
            maturity,
        ),
        Step::Message { key, sender, nonce, amount, data } => {
            b.add_unsigned_message_input(keys::secret(key), sender.into(), nonce, amount, data.0)
        }
        Step::Input(x) => b.add_input(x.real()),
        Step::Output(x) => b.add_output(x.real()),
        Step::Wit(x) => b.add_witness(x.0.into()),
        Step::PrepareScript(x) => b.prepare_script(x),
        Step::PreparePredicate(x) => b.prepare_predicate(x),
    };
}

fn drive<T: Buildable>(b: &mut TransactionBuilder<T>, m: &mut Model, steps: &[Step]) -> Res {
    for (i, s) in std::iter::once(None).chain(steps.iter().map(Some)).enumerate() {
        if let Some(s) = s {
            apply(b, s);
            m.step(s);
        }
        let ins: Vec<MIn> = b.inputs().iter().map(MIn::of).collect();
        ensure_eq!(ins, m.tx.inputs, "inputs after {i} steps");
        let outs: Vec<MOut> = b.outputs().iter().map(MOut::of).collect();
        ensure_eq!(outs, m.tx.outputs, "outputs after {i} steps");
        let wits: Vec<B> = b.witnesses().iter().map(|w| B(w.as_ref().to_vec())).collect();
        ensure_eq!(wits, m.tx.wits, "witnesses after {i} steps");
        let want: Vec<_> = m.keys.iter().map(|k| keys::secret(*k)).collect();
        ensure!(b.sign_keys() == &want[..], "keys after {i} steps");
    }
    Ok(())
}

/// What every kind of transaction must satisfy once finished.
fn judge_tx<T>(t: &T, want: &MTx, what: &str) -> Res
where
    T: Clone + Into<Transaction> + Cacheable + UniqueIdentifier,
{
    ensure_eq!(MTx::of(&t.clone().into()), *want, "{what}");
    ensure!(t.is_computed(), "{what} has no cache");
    ensure_eq!(H::from(&t.id()), enc::id(want), "id of {what}");
    Ok(())
}

macro_rules! finish {
    ($b:expr, $m:expr, $c:expr, $o:expr, $form:path) => {{
        let (b, m, c, o) = ($b, $m, $c, $o);
        let bare = m.prepared();
        let t = b.clone().finalize_without_signature();
        judge_tx(&t, &bare, "the transaction finished without signatures")?;
        let g = b.clone().finalize_without_signature_as_transaction();
        ensure!(g == t.clone().into(), "the generic transaction without signatures differs");
        judge_tx(&g, &bare, "the generic transaction finished without signatures")?;

        // signatures: one of the builder's keys that own the witness has signed it; where several claim
        // the same one, the transaction cannot be valid, and it is left open which of them
        let id = enc::id(&bare);
        let mut signers: Vec<Vec<H>> = vec![Vec::new(); bare.wits.len()];
        for k in &m.keys {
            for x in &bare.inputs {
                if let Some((owner, w)) = x.signed() {
                    if owner == keys::addr(*k) {
                        if let Some(s) = signers.get_mut(w as usize) {
                            s.push(owner);
                        }
                    }
                }
            }
        }
        let t = b.clone().finalize();
        let signed = MTx::of(&t.clone().into());
        ensure_eq!(signed.wits.len(), bare.wits.len(), "number of witnesses");
        for (i, s) in signers.iter().enumerate() {
            let w = &signed.wits[i];
            if s.is_empty() {
                ensure_eq!(*w, bare.wits[i], "witness {i}, which is nobody's");
            } else {
                ensure_eq!(w.0.len(), 64, "length of witness {i}");
                let got = keys::recover(&w.0, &id);
                ensure!(got.is_some_and(|h| s.contains(&h)), "signer of witness {i}: {got:?}, not of {s:?}");
            }
        }
        let mut want = bare.clone();
        want.wits = signed.wits.clone();
        judge_tx(&t, &want, "the finished transaction")?;
        let g = b.clone().finalize_as_transaction();
        ensure!(g == t.clone().into(), "the generic finished transaction differs");
        judge_tx(&g, &want, "the generic finished transaction")?;

        // checked forms succeed exactly for valid transactions
        let case = Case { tx: want, height: c.height, params: c.params };
        let e = Expect::of(&case);
        let p = c.params.real();
        let sound = e.vs.is_empty() && e.bal.is_ok();
        let r = no_panic(|| b.clone().finalize_checked_basic(c.height, &p));
        match (r, sound) {
            (Ok(x), true) => {
                let (tx, bits, computed, meta, _) = meaning(&$form(x))?;
                ensure_eq!(tx, case.tx, "the transaction finished with a basic check");
                ensure!(bits == 1 && computed, "checks {bits}, cache {computed}");
                ensure_eq!(Ok(meta), e.bal, "metadata after a basic check");
                o.class("valid");
            }
            (Err(_), false) => o.class("not valid"),
            (Ok(_), false) => return Err(format!("finished and checked although {:?} {:?}", e.vs, e.bal)),
            (Err(x), true) => return Err(format!("the basic check of the finished transaction {x}")),
        }
        let sound = sound && e.faults.is_empty();
        let r = no_panic(|| b.clone().finalize_checked(c.height, &p));
        match (r, sound) {
            (Ok(x), true) => {
                let (tx, bits, computed, meta, _) = meaning(&$form(x))?;
                ensure_eq!(tx, case.tx, "the transaction finished with a full check");
                ensure!(bits == 3 && computed, "checks {bits}, cache {computed}");
                ensure_eq!(Ok(meta), e.bal, "metadata after a full check");
                o.class("valid and signed");
            }
            (Err(_), false) => {}
            (Ok(_), false) => {
                return Err(format!("finished and checked although {:?} {:?} {:?}", e.vs, e.bal, e.faults))
            }
            (Err(x), true) => return Err(format!("the full check of the finished transaction {x}")),
        }
        // a clone is independent of the builder it was made of
        let t2 = b.finalize();
        ensure!(t2 == t, "the builder finishes differently from its clones");
        Ok(())
    }};
}

fn check(c: &History, o: &mut Obs) -> Res {
    let mut m = Model::start(&c.start);
    o.nt(c.steps.len() >= 2);
    match &c.start {
        Start::Script { script, data } => {
            let mut b = TransactionBuilder::script(script.0.clone(), data.0.clone());
            drive(&mut b, &mut m, &c.steps)?;
            finish!(&mut b, &m, c, o, Form::Script)
        }
        Start::Create { code, salt, slots } => {
            let slots = slots.iter().map(|(k, v)| StorageSlot::new(k.into(), v.into())).collect();
            let mut b = TransactionBuilder::create(code.0.clone().into(), (*salt).into(), slots);
            drive(&mut b, &mut m, &c.steps)?;
            finish!(&mut b, &m, c, o, Form::Create)
        }
        Start::Mint { ptr } => {
            let mut b = TransactionBuilder::mint(ptr.height, ptr.index);
            for s in &c.steps {
                if let Step::Output(x) = s {
                    b.add_output(x.real());
                    m.step(s);
                }
            }
            let t = b.clone().finalize();
            judge_tx(&t, &m.tx, "the finished mint")?;
            judge_tx(&b.clone().finalize_without_signature(), &m.tx, "the finished unsigned mint")?;
            let g = b.clone().finalize_as_transaction();
            judge_tx(&g, &m.tx, "the generic finished mint")?;
            let g = b.clone().finalize_without_signature_as_transaction();
            judge_tx(&g, &m.tx, "the generic finished unsigned mint")?;
            let p = c.params.real();
            let vs = refs::violations(&m.tx, c.height, &c.params);
            o.class(if vs.is_empty() { "valid mint" } else { "mint not valid" });
            for (full, r) in [
                (false, no_panic(|| b.clone().finalize_checked_basic(c.height, &p))),
                (true, no_panic(|| b.clone().finalize_checked(c.height, &p))),
            ] {
                ensure_eq!(r.is_ok(), vs.is_empty(), "whether the mint is finished and checked");
                if let Ok(x) = r {
                    let (tx, bits, computed, _, _) = meaning(&Form::Mint(x))?;
                    ensure_eq!(tx, m.tx, "the checked mint");
                    ensure!(bits == if full { 3 } else { 1 } && computed, "checks {bits}, cache {computed}");
                }
            }
            ensure!(b.finalize() == t, "the builder finishes differently from its clones");
            Ok(())
        }
    }
}

/// Arguments of a constructor; the bytecode index mostly names one of the witnesses, often a long one.
fn constructible(g: &mut G) -> MTx {
    let mut t = gen::small_tx(g);
    if t.kind == Kind::Create {
        if g.chance(1, 60) {
            let n = g.below(256);
            t.wits.resize(n, B(Vec::new()));
        }
        if !t.wits.is_empty() && g.chance(7, 8) {
            let i = g.below(t.wits.len());
            t.bidx = i as u8;
            if g.chance(1, 2) {
                let n = match g.below(40) {
                    0 => 65536 * 4 + g.below(4000),
                    1..=5 => 60000 + g.below(10000),
                    _ => 250 + g.below(2500),
                };
                t.wits[i] = gen::filled(g, n);
            }
        }
        t.blen = t.wits.get(t.bidx as usize).map_or(0, |w| w.0.len() as u64 / 4);
    }
    t.rroot = H::default();
    t
}

fn constructed(m: &MTx, o: &mut Obs) -> Res {
    o.nt(!m.wits.is_empty() || !m.outputs.is_empty());
    let (i, x, w) = (m.real_inputs(), m.real_outputs(), m.real_wits());
    let t: Transaction = match m.kind {
        Kind::Script => {
            Transaction::script(m.price, m.limit, m.maturity, m.script.0.clone(), m.data.0.clone(), i, x, w).into()
        }
        Kind::Create => {
            o.class(if w.len() > m.bidx as usize { "code present" } else { "code missing" });
            Transaction::create(m.price, m.limit, m.maturity, m.bidx, m.salt.into(), m.real_slots(), i, x, w).into()
        }
        Kind::Mint => Transaction::mint(TxPointer::new(m.ptr.height, m.ptr.index), x).into(),
    };
    ensure_eq!(MTx::of(&t), *m, "constructed transaction");
    let cached = with_tx!(&t, t => t.is_computed());
    ensure!(!cached, "the constructed transaction has a cache");
    judge_tx(&{ let mut t = t; with_tx!(&mut t, t => t.precompute()); t }, m, "the constructed transaction, cache computed")
}

pub fn c29(ctx: &mut Ctx) {
    ctx.rule(
        "histories of up to 14 builder calls in any order (unsigned coins and messages of several keys, \
         inputs that share or miss witnesses, outputs, witnesses, settings repeated, preparations switched), \
         and histories describing rule-abiding funded transactions with interleaved additions; after every \
         call the listings, and at the end each way of finishing, are compared with a model of the calls, an \
         independent signature recovery and rule set; then the constructors with arbitrary arguments; \
         non-trivial: at least two calls, or constructor arguments with witnesses or outputs",
    );
    ctx.part("any", 8000, any, check);
    ctx.part("described", 8000, described, check);
    ctx.part("constructors", 60000, constructible, constructed);
}

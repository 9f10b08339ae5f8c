//! What checking a transaction should say, in one form, and what the crate says.

use crate::enc;
use crate::engine::*;
use crate::gen::{self, Checked as Case};
use crate::keys;
use crate::model::*;
use crate::refs::{self, BalErr, Fee, V};
use crate::with_tx;
use fuel_tx::*;
use std::borrow::Borrow;
use std::collections::BTreeMap;

pub fn id_of(t: &Transaction) -> H {
    (&with_tx!(t, t => t.id())).into()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    Bounds(usize),
    Signature(usize),
    Predicate(usize),
}

/// Every input whose signature or predicate ownership is at fault.
pub fn faults(t: &MTx, id: &H) -> Vec<Fault> {
    let mut v = Vec::new();
    for (i, x) in t.inputs.iter().enumerate() {
        v.extend(fault(i, x, id, &t.wits));
    }
    v
}
pub fn fault(i: usize, x: &MIn, id: &H, wits: &[B]) -> Option<Fault> {
    if let Some((owner, w)) = x.signed() {
        return match wits.get(w as usize) {
            None => Some(Fault::Bounds(i)),
            Some(w) if keys::recover(&w.0, id) == Some(owner) => None,
            Some(_) => Some(Fault::Signature(i)),
        };
    }
    if let Some((owner, pred)) = x.predicate() {
        if refs::code_root(pred) != owner {
            return Some(Fault::Predicate(i));
        }
    }
    None
}

pub fn judge_faults(got: &Result<(), CheckError>, want: &[Fault], what: &str) -> Res {
    match got {
        Ok(()) => ensure!(want.is_empty(), "{what}: accepted although {want:?}"),
        Err(e) => {
            let f = match e {
                CheckError::InputWitnessIndexBounds { index } => Fault::Bounds(*index),
                CheckError::InputInvalidSignature { index } => Fault::Signature(*index),
                CheckError::InputPredicateOwner { index } => Fault::Predicate(*index),
                e => return Err(format!("{what}: unexpected error {e:?}, the faults are {want:?}")),
            };
            ensure!(want.contains(&f), "{what}: rejected with {e:?}, the faults are {want:?}");
        }
    }
    Ok(())
}


/// Puts valid signatures into the witnesses of the model.
pub fn sign_model(t: &mut MTx) {
    let id = enc::id(t);
    for x in &t.inputs.clone() {
        if let Some((owner, w)) = x.signed() {
            if let (Some(k), Some(w)) = (keys::key_of(&owner), t.wits.get_mut(w as usize)) {
                *w = keys::sign(k, &id);
            }
        }
    }
}

pub fn fee_of(f: &TransactionFee) -> Fee {
    Fee { min: f.min(), total: f.total(), min_gas: f.min_gas(), max_gas: f.max_gas() }
}

/// Sets amounts and prices so that balances sit at, just above and just below what is spent.
pub fn fund(g: &mut G, c: &mut Case) {
    let t = &mut c.tx;
    if t.is_mint() {
        return;
    }
    if g.chance(1, 2) && !t.inputs.is_empty() {
        // few assets
        let assets = [H::default(), gen::small_h(1), gen::small_h(2)];
        let n = 1 + g.below(3);
        for x in &mut t.inputs {
            if let MIn::CoinSigned { asset, .. } | MIn::CoinPred { asset, .. } = x {
                *asset = assets[g.below(n)];
            }
        }
        let have: Vec<H> = t.inputs.iter().filter_map(|i| i.asset()).collect();
        if !have.is_empty() {
            for o in &mut t.outputs {
                if let MOut::Coin { asset, .. } = o {
                    *asset = *g.pick(&have);
                }
            }
            let mut changed: Vec<H> = Vec::new();
            t.outputs.retain_mut(|o| match o {
                MOut::Change { asset, .. } => {
                    if t.kind == Kind::Script {
                        *asset = *g.pick(&have);
                    }
                    let keep = have.contains(asset) && !changed.contains(asset);
                    changed.push(*asset);
                    keep
                }
                _ => true,
            });
        }
    }
    let have: Vec<H> = t.inputs.iter().filter_map(|i| i.asset()).collect();
    if g.chance(1, 2) && !have.is_empty() {
        for _ in 0..1 + g.below(4) {
            t.outputs.push(MOut::Coin { to: gen::h(g), amount: gen::word(g), asset: *g.pick(&have) });
        }
        c.params.0[P_OUTPUTS] = c.params.0[P_OUTPUTS].max(t.outputs.len() as u64);
    }
    let style = g.below(5);
    let n = t.inputs.len().max(1) as u64;
    for x in &mut t.inputs {
        let a = match style {
            0 => g.below(1000) as u64,
            1 => g.u64() >> (1 + g.below(60)),
            2 => gen::word(g),
            3 => (u64::MAX / n).saturating_add(g.below(3) as u64),
            _ => continue,
        };
        x.set_amount(a);
    }
    match g.below(4) {
        0 => t.price = 0,
        1 => t.price = g.below(20) as u64,
        _ => {}
    }
    let f = refs::fee(&c.params, refs::metered(t), t.limit, t.price);
    let total = f.map(|f| f.total).unwrap_or(0);
    let assets: std::collections::BTreeSet<H> = t.inputs.iter().filter_map(|i| i.asset()).collect();
    let sum = |t: &MTx, a: &H| -> u128 {
        t.inputs.iter().filter(|i| i.asset().as_ref() == Some(a)).filter_map(|i| i.amount()).map(u128::from).sum()
    };
    for a in assets {
        let base = a == H::default();
        let mut coins: Vec<usize> = (0..t.outputs.len())
            .filter(|i| matches!(&t.outputs[*i], MOut::Coin { asset, .. } if *asset == a))
            .collect();
        let ins: Vec<usize> = (0..t.inputs.len()).filter(|i| t.inputs[*i].asset() == Some(a)).collect();
        let put = |t: &mut MTx, i: usize, x: u64| {
            if let MOut::Coin { amount, .. } = &mut t.outputs[i] {
                *amount = x;
            }
        };
        let spend = g.below(7);
        if spend > 0 {
            // outputs within what is there
            let fee = if base { total as u128 } else { 0 };
            let mut left = sum(t, &a).saturating_sub(fee).min(u64::MAX as u128) as u64;
            // amounts run out, so not always on the last ones
            if !coins.is_empty() {
                let at = g.below(coins.len());
                coins.rotate_left(at);
            }
            for (k, i) in coins.iter().enumerate() {
                let x = if left == 0 || spend == 1 && k == coins.len() - 1 {
                    left
                } else {
                    let x = g.u64() % left;
                    if g.chance(1, 4) { x.min(10) } else { x }
                };
                left -= x;
                put(t, *i, x);
            }
            if spend == 2 || spend == 6 {
                // one too many
                if let Some(i) = coins.last() {
                    put(t, *i, left.saturating_add(1));
                }
            }
        }
        if base || g.chance(1, 5) {
            // an input that makes the sum what is needed, or one off
            let need: u128 = coins
                .iter()
                .map(|i| match &t.outputs[*i] {
                    MOut::Coin { amount, .. } => *amount as u128,
                    _ => 0,
                })
                .sum::<u128>()
                + if base { total as u128 } else { 0 };
            let need = match g.below(7) {
                0 => need.saturating_sub(1),
                1 => need + 1,
                2 => need,
                3 => u64::MAX as u128,
                4 => u64::MAX as u128 + 1,
                5 => need + g.below(100000) as u128,
                _ => continue,
            };
            let i = ins[g.below(ins.len())];
            let others = sum(t, &a) - t.inputs[i].amount().unwrap_or(0) as u128;
            if need >= others && need - others <= u64::MAX as u128 {
                t.inputs[i].set_amount((need - others) as u64);
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Meta {
    balances: BTreeMap<H, u64>,
    height: u64,
    fee: Fee,
}

macro_rules! meta_fn {
    ($name:ident, $t:ty) => {
        fn $name(m: &$t) -> Meta {
            Meta {
                balances: m.initial_free_balances.iter().map(|(k, v)| (k.into(), *v)).collect(),
                height: m.block_height,
                fee: fee_of(&m.fee),
            }
        }
    };
}
meta_fn!(script_meta, ScriptCheckedMetadata);
meta_fn!(create_meta, CreateCheckedMetadata);

/// What the crate's checked forms say, in one form. No metadata for mints.
pub type Meaning = (MTx, u32, bool, Option<Meta>, H);

fn generic_meta(m: &CheckedMetadata, kind: Kind) -> Result<Option<Meta>, String> {
    Ok(match (m, kind) {
        (CheckedMetadata::Script(m), Kind::Script) => Some(script_meta(m)),
        (CheckedMetadata::Create(m), Kind::Create) => Some(create_meta(m)),
        (CheckedMetadata::Mint(()), Kind::Mint) => None,
        (m, k) => return Err(format!("metadata {m:?} of a {k:?} transaction")),
    })
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Form {
    Script(Checked<Script>),
    Create(Checked<Create>),
    Mint(Checked<Mint>),
    Generic(Checked<Transaction>),
    Enum(CheckedTransaction),
}

fn base_meaning<T>(c: &Checked<T>, meta: Option<Meta>) -> Meaning
where
    T: IntoChecked + Clone + Into<Transaction> + Cacheable + UniqueIdentifier + PartialEq + std::fmt::Debug,
{
    let t: &T = c.transaction();
    let b: &T = c.borrow();
    let a: &T = c.as_ref();
    assert!(a == t && b == t, "as_ref, borrow and transaction differ");
    (MTx::of(&t.clone().into()), c.checks().bits(), t.is_computed(), meta, H::from(&t.id()))
}

pub fn meaning(f: &Form) -> Result<Meaning, String> {
    Ok(match f {
        Form::Script(c) => base_meaning(c, Some(script_meta(c.metadata()))),
        Form::Create(c) => base_meaning(c, Some(create_meta(c.metadata()))),
        Form::Mint(c) => base_meaning(c, None),
        Form::Generic(c) => {
            let kind = MTx::of(c.transaction()).kind;
            base_meaning(c, generic_meta(c.metadata(), kind)?)
        }
        Form::Enum(CheckedTransaction::Script(c)) => base_meaning(c, Some(script_meta(c.metadata()))),
        Form::Enum(CheckedTransaction::Create(c)) => base_meaning(c, Some(create_meta(c.metadata()))),
        Form::Enum(CheckedTransaction::Mint(c)) => base_meaning(c, None),
    })
}


fn bal_err(e: &CheckError) -> Option<BalErr> {
    Some(match e {
        CheckError::ArithmeticOverflow => BalErr::Overflow,
        CheckError::InsufficientFeeAmount { expected, provided } => {
            BalErr::Fee { expected: *expected, provided: *provided }
        }
        CheckError::InsufficientInputAmount { asset, expected, provided } => {
            BalErr::Asset { asset: asset.into(), expected: *expected, provided: *provided }
        }
        CheckError::TransactionOutputCoinAssetIdNotFound(a) => BalErr::NotFound(a.into()),
        _ => return None,
    })
}

/// What checking should do: the rules broken, the balances, the faulty signatures.
pub struct Expect {
    pub vs: Vec<V>,
    pub bal: Result<Option<Meta>, Vec<BalErr>>,
    pub faults: Vec<Fault>,
}
impl Expect {
    pub fn of(c: &Case) -> Self {
        let vs = refs::violations(&c.tx, c.height, &c.params);
        if c.tx.is_mint() {
            return Expect { vs, bal: Ok(None), faults: vec![] };
        }
        let bal = refs::balances(&c.tx, &c.params)
            .map(|(balances, fee)| Some(Meta { balances, height: c.height, fee }));
        Expect { vs, bal, faults: faults(&c.tx, &enc::id(&c.tx)) }
    }
    /// An error of the check must be one of those it may report.
    pub fn judge(&self, got: &Result<Form, CheckError>, full: bool, what: &str) -> Res {
        let none: &[BalErr] = &[];
        let bal = self.bal.as_ref().err().map(|e| &e[..]).unwrap_or(none);
        let fine = self.vs.is_empty() && bal.is_empty() && (!full || self.faults.is_empty());
        match got {
            Ok(_) => ensure!(fine, "{what}: passes although {:?} {bal:?} {:?}", self.vs, self.faults),
            Err(e) => {
                ensure!(!fine, "{what}: {e:?} although nothing is wrong");
                let known = refs::violation_of(e).map_or(false, |v| self.vs.contains(&v))
                    || bal_err(e).map_or(false, |b| bal.contains(&b))
                    || full && judge_faults(&Err(e.clone()), &self.faults, "").is_ok();
                ensure!(known, "{what}: {e:?}, but wrong is {:?} {bal:?} {:?}", self.vs, self.faults);
            }
        }
        Ok(())
    }
}

/// Checks a transaction in its typed and generic form.
pub fn both(t: &Transaction, c: &Case, full: bool) -> [Result<Form, CheckError>; 2] {
    let p = c.params.real();
    let h = c.height;
    macro_rules! go {
        ($t:expr, $f:path) => {
            if full {
                $t.clone().into_checked(h, &p).map($f)
            } else {
                $t.clone().into_checked_basic(h, &p).map($f)
            }
        };
    }
    let typed = match t {
        Transaction::Script(t) => go!(t, Form::Script),
        Transaction::Create(t) => go!(t, Form::Create),
        Transaction::Mint(t) => go!(t, Form::Mint),
    };
    [typed, go!(t, Form::Generic)]
}

/// Transactions of every kind that are valid, funded and signed, or fail in one respect.
pub fn signed_case(g: &mut G) -> Case {
    let kind = *g.pick(&[Kind::Script, Kind::Script, Kind::Create, Kind::Create, Kind::Mint]);
    let mut case = gen::valid(g, kind);
    fund(g, &mut case);
    if !case.tx.is_mint() && g.chance(5, 6) {
        sign_model(&mut case.tx);
        // a signature in the bytecode witness changes its length
        if case.tx.kind == Kind::Create && g.chance(5, 6) {
            let w = case.tx.wits[case.tx.bidx as usize].0.len() as u64;
            if case.tx.blen != w / 4 {
                case.tx.blen = w / 4;
                sign_model(&mut case.tx);
            }
        }
        if g.chance(1, 8) {
            gen::edit_malleable(g, &mut case.tx);
        }
    }
    if g.chance(1, 6) {
        gen::disturb(g, &mut case);
    }
    if g.chance(1, 12) && !case.tx.wits.is_empty() {
        let n = case.tx.wits.len();
        let w = &mut case.tx.wits[g.below(n)].0;
        if !w.is_empty() {
            let k = g.below(w.len());
            w[k] ^= 1 << g.below(8);
        }
    }
    case
}

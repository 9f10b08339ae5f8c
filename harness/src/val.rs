//! Any encodable value: its model, and the crate's value of every type that can carry it.

use crate::enc;
use crate::engine::G;
use crate::gen;
use crate::model::*;
use fuel_tx::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum MVal {
    /// The generic transaction.
    Tx(MTx),
    /// The typed transaction.
    Typed(MTx),
    In(MIn),
    Out(MOut),
    Wit(B),
    Slot(H, H),
    Utxo(MUtxo),
    Ptr(MPtr),
    Rcpt(MRcpt),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Real {
    Tx(Transaction),
    Script(Script),
    Create(Create),
    Mint(Mint),
    In(Input),
    Out(Output),
    Wit(Witness),
    Slot(StorageSlot),
    Utxo(UtxoId),
    Ptr(TxPointer),
    Rcpt(Receipt),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub enum Sort {
    Tx,
    Script,
    Create,
    Mint,
    In,
    Out,
    Wit,
    Slot,
    Utxo,
    Ptr,
    Rcpt,
}
pub const SORTS: [Sort; 11] = [
    Sort::Tx,
    Sort::Script,
    Sort::Create,
    Sort::Mint,
    Sort::In,
    Sort::Out,
    Sort::Wit,
    Sort::Slot,
    Sort::Utxo,
    Sort::Ptr,
    Sort::Rcpt,
];

#[macro_export]
macro_rules! with_real {
    ($r:expr, $v:ident => $e:expr) => {
        match $r {
            $crate::val::Real::Tx($v) => $e,
            $crate::val::Real::Script($v) => $e,
            $crate::val::Real::Create($v) => $e,
            $crate::val::Real::Mint($v) => $e,
            $crate::val::Real::In($v) => $e,
            $crate::val::Real::Out($v) => $e,
            $crate::val::Real::Wit($v) => $e,
            $crate::val::Real::Slot($v) => $e,
            $crate::val::Real::Utxo($v) => $e,
            $crate::val::Real::Ptr($v) => $e,
            $crate::val::Real::Rcpt($v) => $e,
        }
    };
}

/// Evaluates an expression with the type of a sort.
#[macro_export]
macro_rules! with_sort {
    ($s:expr, $t:ident, $c:ident => $e:expr) => {{
        use $crate::val::{Real, Sort};
        match $s {
            Sort::Tx => { type $t = fuel_tx::Transaction; let $c = Real::Tx; $e }
            Sort::Script => { type $t = fuel_tx::Script; let $c = Real::Script; $e }
            Sort::Create => { type $t = fuel_tx::Create; let $c = Real::Create; $e }
            Sort::Mint => { type $t = fuel_tx::Mint; let $c = Real::Mint; $e }
            Sort::In => { type $t = fuel_tx::Input; let $c = Real::In; $e }
            Sort::Out => { type $t = fuel_tx::Output; let $c = Real::Out; $e }
            Sort::Wit => { type $t = fuel_tx::Witness; let $c = Real::Wit; $e }
            Sort::Slot => { type $t = fuel_tx::StorageSlot; let $c = Real::Slot; $e }
            Sort::Utxo => { type $t = fuel_tx::UtxoId; let $c = Real::Utxo; $e }
            Sort::Ptr => { type $t = fuel_tx::TxPointer; let $c = Real::Ptr; $e }
            Sort::Rcpt => { type $t = fuel_tx::Receipt; let $c = Real::Rcpt; $e }
        }
    }};
}

/// Evaluates an expression with the typed transaction inside a generic one.
#[macro_export]
macro_rules! with_tx {
    ($r:expr, $v:ident => $e:expr) => {
        match $r {
            fuel_tx::Transaction::Script($v) => $e,
            fuel_tx::Transaction::Create($v) => $e,
            fuel_tx::Transaction::Mint($v) => $e,
        }
    };
}
/// The same for transactions with inputs.
#[macro_export]
macro_rules! with_exec {
    ($r:expr, $v:ident => $e:expr) => {
        match $r {
            fuel_tx::Transaction::Script($v) => $e,
            fuel_tx::Transaction::Create($v) => $e,
            fuel_tx::Transaction::Mint(_) => panic!("harness: a mint has no inputs"),
        }
    };
}

impl MVal {
    pub fn real(&self) -> Real {
        match self {
            MVal::Tx(t) => Real::Tx(t.real()),
            MVal::Typed(t) => match t.kind {
                Kind::Script => Real::Script(t.real_script()),
                Kind::Create => Real::Create(t.real_create()),
                Kind::Mint => Real::Mint(t.real_mint()),
            },
            MVal::In(i) => Real::In(i.real()),
            MVal::Out(o) => Real::Out(o.real()),
            MVal::Wit(w) => Real::Wit(w.0.clone().into()),
            MVal::Slot(k, v) => Real::Slot(StorageSlot::new(k.into(), v.into())),
            MVal::Utxo(u) => Real::Utxo(u.real()),
            MVal::Ptr(p) => Real::Ptr(p.real()),
            MVal::Rcpt(r) => Real::Rcpt(r.real()),
        }
    }
    pub fn sort(&self) -> Sort {
        match self {
            MVal::Tx(_) => Sort::Tx,
            MVal::Typed(t) => match t.kind {
                Kind::Script => Sort::Script,
                Kind::Create => Sort::Create,
                Kind::Mint => Sort::Mint,
            },
            MVal::In(_) => Sort::In,
            MVal::Out(_) => Sort::Out,
            MVal::Wit(_) => Sort::Wit,
            MVal::Slot(..) => Sort::Slot,
            MVal::Utxo(_) => Sort::Utxo,
            MVal::Ptr(_) => Sort::Ptr,
            MVal::Rcpt(_) => Sort::Rcpt,
        }
    }
    /// The value as its encoding carries it: without a panic receipt's contract id.
    pub fn on_wire(&self) -> MVal {
        let mut v = self.clone();
        if let MVal::Rcpt(MRcpt::Panic { contract, .. }) = &mut v {
            *contract = None;
        }
        v
    }
    /// Reference encoding.
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = Vec::new();
        match self {
            MVal::Tx(t) | MVal::Typed(t) => o = enc::tx(t),
            MVal::In(i) => {
                enc::input(&mut o, i);
            }
            MVal::Out(x) => enc::output(&mut o, x),
            MVal::Wit(x) => enc::witness(&mut o, x),
            MVal::Slot(k, v) => enc::slot(&mut o, &(*k, *v)),
            MVal::Utxo(u) => enc::utxo(&mut o, u),
            MVal::Ptr(p) => enc::ptr(&mut o, p),
            MVal::Rcpt(r) => o = enc::receipt(r),
        }
        o
    }
    /// Positions of length, count and identifier words in the reference encoding.
    pub fn control(&self) -> Vec<usize> {
        match self {
            MVal::Tx(t) | MVal::Typed(t) => enc::layout(t).control,
            MVal::In(MIn::Contract { .. }) => vec![0],
            MVal::In(MIn::CoinSigned { .. } | MIn::CoinPred { .. }) => vec![0, 136, 152, 160],
            MVal::In(_) => vec![0, 120, 128, 136, 144],
            MVal::Out(_) | MVal::Wit(_) => vec![0],
            MVal::Rcpt(r) => match r {
                // identifier, payload length word
                MRcpt::ReturnData { .. } => vec![0, 88, 48],
                MRcpt::LogData { .. } => vec![0, 104, 64],
                MRcpt::MessageOut { .. } => vec![0, 184, 144],
                _ => vec![0],
            },
            _ => vec![],
        }
    }
    /// Positions of the words of tx pointers, and how many bits of each are used.
    pub fn pointers(&self) -> Vec<(usize, u32)> {
        fn of(x: &MIn, at: usize) -> Vec<(usize, u32)> {
            match x {
                MIn::CoinSigned { .. } | MIn::CoinPred { .. } => vec![(at + 120, 32), (at + 128, 16)],
                MIn::Contract { .. } => vec![(at + 112, 32), (at + 120, 16)],
                _ => vec![],
            }
        }
        match self {
            MVal::Tx(t) | MVal::Typed(t) => {
                let l = enc::layout(t);
                if t.is_mint() {
                    return vec![(l.ptr, 32), (l.ptr + 8, 16)];
                }
                t.inputs.iter().zip(l.inputs).flat_map(|(x, at)| of(x, at)).collect()
            }
            MVal::In(x) => of(x, 0),
            MVal::Ptr(_) => vec![(0, 32), (8, 16)],
            _ => vec![],
        }
    }
    /// Whether some variable-length content does not fill whole words.
    pub fn padded(&self) -> bool {
        fn b(x: &B) -> bool {
            x.0.len() % 8 != 0
        }
        fn i(x: &MIn) -> bool {
            match x {
                MIn::CoinPred { pred, pdata, .. } => b(pred) || b(pdata),
                MIn::MsgSigned { data, .. } => b(data),
                MIn::MsgPred { data, pred, pdata, .. } => b(data) || b(pred) || b(pdata),
                _ => false,
            }
        }
        match self {
            MVal::Tx(t) | MVal::Typed(t) => {
                b(&t.script) || b(&t.data) || t.wits.iter().any(b) || t.inputs.iter().any(i)
            }
            MVal::In(x) => i(x),
            MVal::Wit(w) => b(w),
            MVal::Rcpt(
                MRcpt::ReturnData { data, .. } | MRcpt::LogData { data, .. } | MRcpt::MessageOut { data, .. },
            ) => b(data),
            _ => false,
        }
    }
    /// More than a bare header.
    pub fn rich(&self) -> bool {
        match self {
            MVal::Tx(t) | MVal::Typed(t) => {
                t.inputs.len() + t.outputs.len() + t.wits.len() + t.slots.len() >= 2
            }
            MVal::In(_) | MVal::Out(_) | MVal::Rcpt(_) => true,
            MVal::Wit(w) => !w.0.is_empty(),
            v => v.bytes().iter().any(|b| *b != 0),
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            MVal::Tx(t) | MVal::Typed(t) => match t.kind {
                Kind::Script => "script",
                Kind::Create => "create",
                Kind::Mint => "mint",
            },
            MVal::In(MIn::CoinSigned { .. }) => "coin signed input",
            MVal::In(MIn::CoinPred { .. }) => "coin predicate input",
            MVal::In(MIn::Contract { .. }) => "contract input",
            MVal::In(MIn::MsgSigned { .. }) => "message signed input",
            MVal::In(MIn::MsgPred { .. }) => "message predicate input",
            MVal::Out(MOut::Coin { .. }) => "coin output",
            MVal::Out(MOut::Contract { .. }) => "contract output",
            MVal::Out(MOut::Message { .. }) => "message output",
            MVal::Out(MOut::Change { .. }) => "change output",
            MVal::Out(MOut::Variable { .. }) => "variable output",
            MVal::Out(MOut::Created { .. }) => "contract created output",
            MVal::Wit(_) => "witness",
            MVal::Slot(..) => "storage slot",
            MVal::Utxo(_) => "utxo id",
            MVal::Ptr(_) => "tx pointer",
            MVal::Rcpt(r) => match r {
                MRcpt::Call { .. } => "call receipt",
                MRcpt::Return { .. } => "return receipt",
                MRcpt::ReturnData { .. } => "return data receipt",
                MRcpt::Panic { .. } => "panic receipt",
                MRcpt::Revert { .. } => "revert receipt",
                MRcpt::Log { .. } => "log receipt",
                MRcpt::LogData { .. } => "log data receipt",
                MRcpt::Transfer { .. } => "transfer receipt",
                MRcpt::TransferOut { .. } => "transfer out receipt",
                MRcpt::ScriptResult { .. } => "script result receipt",
                MRcpt::MessageOut { .. } => "message out receipt",
            },
        }
    }
}

impl Real {
    pub fn model(&self) -> MVal {
        match self {
            Real::Tx(t) => MVal::Tx(MTx::of(t)),
            Real::Script(t) => MVal::Typed(MTx::of_script(t)),
            Real::Create(t) => MVal::Typed(MTx::of_create(t)),
            Real::Mint(t) => MVal::Typed(MTx::of_mint(t)),
            Real::In(i) => MVal::In(MIn::of(i)),
            Real::Out(o) => MVal::Out(MOut::of(o)),
            Real::Wit(w) => MVal::Wit(B(w.as_vec().clone())),
            Real::Slot(s) => MVal::Slot(s.key().into(), s.value().into()),
            Real::Utxo(u) => MVal::Utxo(MUtxo::of(u)),
            Real::Ptr(p) => MVal::Ptr(MPtr::of(p)),
            Real::Rcpt(r) => MVal::Rcpt(MRcpt::of(r)),
        }
    }
}

pub fn tx_val(g: &mut G) -> MVal {
    let t = gen::tx(g);
    if g.chance(1, 2) {
        MVal::Typed(t)
    } else {
        MVal::Tx(t)
    }
}
pub fn small_tx_val(g: &mut G) -> MVal {
    let t = gen::small_tx(g);
    if g.chance(1, 2) {
        MVal::Typed(t)
    } else {
        MVal::Tx(t)
    }
}
pub fn part_val(g: &mut G) -> MVal {
    match g.below(10) {
        0..=3 => MVal::In(gen::input(g)),
        4 | 5 => MVal::Out(gen::output(g)),
        6 => MVal::Wit(gen::bytes(g)),
        7 => MVal::Slot(gen::h(g), gen::h(g)),
        8 => MVal::Utxo(gen::utxo(g)),
        _ => MVal::Ptr(gen::ptr(g)),
    }
}
pub fn rcpt_val(g: &mut G) -> MVal {
    MVal::Rcpt(gen::receipt(g))
}
pub fn any_val(g: &mut G) -> MVal {
    match g.below(3) {
        0 => small_tx_val(g),
        1 => part_val(g),
        _ => rcpt_val(g),
    }
}
/// Another value of the same sort.
pub fn same_sort(g: &mut G, s: Sort) -> MVal {
    match s {
        Sort::Tx => MVal::Tx(gen::small_tx(g)),
        Sort::Script => MVal::Typed(gen::tx_of(g, Kind::Script, true)),
        Sort::Create => MVal::Typed(gen::tx_of(g, Kind::Create, true)),
        Sort::Mint => MVal::Typed(gen::tx_of(g, Kind::Mint, true)),
        Sort::In => MVal::In(gen::input(g)),
        Sort::Out => MVal::Out(gen::output(g)),
        Sort::Wit => MVal::Wit(gen::bytes(g)),
        Sort::Slot => MVal::Slot(gen::h(g), gen::h(g)),
        Sort::Utxo => MVal::Utxo(gen::utxo(g)),
        Sort::Ptr => MVal::Ptr(gen::ptr(g)),
        Sort::Rcpt => MVal::Rcpt(gen::receipt(g)),
    }
}

/// Sets every field of a transaction through the crate's own setters.
pub fn assign(t: &mut Transaction, m: &MTx) {
    use crate::fields::*;
    fn exec<T>(t: &mut T, m: &MTx)
    where
        T: field::GasPrice
            + field::GasLimit
            + field::Maturity
            + field::Inputs
            + field::Outputs
            + field::Witnesses,
    {
        *t.gas_price_mut() = m.price;
        *t.gas_limit_mut() = m.limit;
        *t.maturity_mut() = m.maturity;
        *t.inputs_mut() = m.real_inputs();
        *t.outputs_mut() = m.real_outputs();
        *t.witnesses_mut() = m.real_wits();
    }
    match (t, m.kind) {
        (Transaction::Script(s), Kind::Script) => {
            exec(s, m);
            *s.script_mut() = m.script.0.clone();
            *s.script_data_mut() = m.data.0.clone();
            *s.receipts_root_mut() = m.rroot.into();
        }
        (Transaction::Create(c), Kind::Create) => {
            exec(c, m);
            *c.bytecode_length_mut() = m.blen;
            *c.bytecode_witness_index_mut() = m.bidx;
            *c.salt_mut() = m.salt.into();
            *c.storage_slots_mut() = m.real_slots();
        }
        (Transaction::Mint(t), Kind::Mint) => {
            *t.tx_pointer_mut() = m.ptr.real();
            *t.outputs_mut() = m.real_outputs();
        }
        _ => panic!("harness: kinds differ"),
    }
}

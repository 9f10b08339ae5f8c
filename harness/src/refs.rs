//! Reference rules: Merkle roots, fees, balances, validity.

use crate::enc::{self, sha};
use crate::model::*;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- Merkle trees

fn rfc6962(leaves: &[H]) -> H {
    match leaves.len() {
        0 => sha(&[]),
        1 => leaves[0],
        n => {
            let mut k = 1;
            while k * 2 < n {
                k *= 2;
            }
            sha(&[&[1], &rfc6962(&leaves[..k]).0, &rfc6962(&leaves[k..]).0])
        }
    }
}

/// Root over the 8-byte chunks of the code, the last one zero-padded.
pub fn code_root(code: &[u8]) -> H {
    let leaves: Vec<H> = code
        .chunks(8)
        .map(|c| {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            sha(&[&[0], &b])
        })
        .collect();
    rfc6962(&leaves)
}

/// Sparse Merkle root of a map, from its definition: empty subtrees hash to zero and a subtree with
/// a single leaf is that leaf.
pub fn state_root(map: &BTreeMap<H, H>) -> H {
    fn go(leaves: &[(H, H)], depth: usize) -> H {
        match leaves.len() {
            0 => H::default(),
            1 => leaves[0].1,
            _ => {
                let split = leaves.partition_point(|(k, _)| k.0[depth / 8] >> (7 - depth % 8) & 1 == 0);
                sha(&[&[1], &go(&leaves[..split], depth + 1).0, &go(&leaves[split..], depth + 1).0])
            }
        }
    }
    let leaves: Vec<(H, H)> =
        map.iter().map(|(k, v)| (*k, sha(&[&[0], &k.0, &sha(&[&v.0]).0]))).collect();
    go(&leaves, 0)
}

// ---------------------------------------------------------------- fees and balances

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Fee {
    pub min: u64,
    pub total: u64,
    pub min_gas: u64,
    pub max_gas: u64,
}

pub fn fee(p: &MParams, bytes: u64, limit: u64, price: u64) -> Option<Fee> {
    let (gpb, factor) = (p.0[P_GPB] as u128, p.0[P_FACTOR] as u128);
    let fit = |x: u128| u64::try_from(x).ok();
    let min_gas = fit(gpb * bytes as u128)?;
    let max_gas = fit(min_gas as u128 + limit as u128)?;
    let up = |gas: u64| {
        let x = fit(gas as u128 * price as u128)? as u128;
        fit(x / factor + (x % factor != 0) as u128)
    };
    Some(Fee { min: up(min_gas)?, total: up(max_gas)?, min_gas, max_gas })
}

/// gas * price / factor rounded down, if it fits.
#[allow(dead_code)]
pub fn refund(factor: u64, gas: u64, price: u64) -> Option<u64> {
    u64::try_from(gas as u128 * price as u128 / factor as u128).ok()
}

pub fn metered(t: &MTx) -> u64 {
    let mut t = t.clone();
    t.wits.clear();
    enc::tx(&t).len() as u64
}

#[derive(Debug, Clone, PartialEq, Eq)]
#[allow(dead_code)]
pub enum BalErr {
    Overflow,
    Fee { expected: u64, provided: u64 },
    Asset { asset: H, expected: u64, provided: u64 },
    NotFound(H),
}

/// Free balances, or every error that may be reported.
#[allow(dead_code)]
pub fn balances(t: &MTx, p: &MParams) -> Result<(BTreeMap<H, u64>, Fee), Vec<BalErr>> {
    let mut errs = Vec::new();
    let mut sums: BTreeMap<H, u128> = BTreeMap::new();
    for i in &t.inputs {
        if let (Some(a), Some(x)) = (i.asset(), i.amount()) {
            *sums.entry(a).or_default() += x as u128;
        }
    }
    if sums.values().any(|s| *s > u64::MAX as u128) {
        errs.push(BalErr::Overflow);
    }
    let f = fee(p, metered(t), t.limit, t.price);
    let f = match f {
        Some(f) => f,
        None => {
            errs.push(BalErr::Overflow);
            return Err(errs);
        }
    };
    let base = sums.entry(H::default()).or_default();
    let mut left: BTreeMap<H, u128> = BTreeMap::new();
    if *base < f.total as u128 {
        errs.push(BalErr::Fee { expected: f.total, provided: *base as u64 });
    } else {
        *base -= f.total as u128;
    }
    if errs.contains(&BalErr::Overflow) {
        return Err(errs);
    }
    for (a, s) in &sums {
        left.insert(*a, *s);
    }
    for o in &t.outputs {
        if let MOut::Coin { amount, asset, .. } = o {
            match left.get_mut(asset) {
                None => errs.push(BalErr::NotFound(*asset)),
                Some(l) => {
                    if *l < *amount as u128 {
                        errs.push(BalErr::Asset { asset: *asset, expected: *amount, provided: *l as u64 });
                    } else {
                        *l -= *amount as u128;
                    }
                }
            }
        }
    }
    if errs.is_empty() {
        Ok((left.into_iter().map(|(k, v)| (k, v as u64)).collect(), f))
    } else {
        Err(errs)
    }
}

// ---------------------------------------------------------------- validity

/// A rule that is violated, with the element where the rule is about one.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    GasLimit,
    Maturity,
    InputsMax,
    OutputsMax,
    WitsMax,
    ChangeDup(H),
    DupUtxo(H, u8),
    DupContract(H),
    DupMessage(H),
    PredEmpty(usize),
    PredLen(usize),
    PredDataLen(usize),
    WitBounds(usize),
    ContractOutput(usize),
    MsgData(usize),
    OutContractIndex(usize),
    ChangeAsset(H),
    CoinAsset(H),
    ScriptLen,
    ScriptDataLen,
    ScriptCreated(usize),
    CreateWitIndex,
    CreateLen,
    SlotMax,
    SlotOrder,
    CreateInContract(usize),
    CreateOutContract(usize),
    CreateOutVariable(usize),
    CreateChange(usize),
    CreateTwice(usize),
    MintHeight,
    MintNotCoin,
    MintDup(H),
}

/// Rules an input violates on its own in the context of outputs and witnesses.
pub fn input_rules(i: usize, x: &MIn, outs: &[MOut], n_wits: usize, p: &MParams, v: &mut Vec<V>) {
    let (mut pred, mut pdata, mut wit, mut data) = (None, None, None, None);
    match x {
        MIn::CoinSigned { wit: w, .. } => wit = Some(*w),
        MIn::CoinPred { pred: a, pdata: b, .. } => {
            pred = Some(a);
            pdata = Some(b);
        }
        MIn::Contract { .. } => {
            let n = outs.iter().filter(|o| matches!(o, MOut::Contract { idx, .. } if *idx as usize == i)).count();
            if n != 1 {
                v.push(V::ContractOutput(i));
            }
        }
        MIn::MsgSigned { wit: w, data: d, .. } => {
            wit = Some(*w);
            data = Some(d);
        }
        MIn::MsgPred { data: d, pred: a, pdata: b, .. } => {
            data = Some(d);
            pred = Some(a);
            pdata = Some(b);
        }
    }
    if let Some(a) = pred {
        if a.0.is_empty() {
            v.push(V::PredEmpty(i));
        }
        if a.0.len() as u64 > p.0[P_PRED] {
            v.push(V::PredLen(i));
        }
    }
    if matches!(pdata, Some(a) if a.0.len() as u64 > p.0[P_PDATA]) {
        v.push(V::PredDataLen(i));
    }
    if matches!(data, Some(a) if a.0.len() as u64 > p.0[P_MSG]) {
        v.push(V::MsgData(i));
    }
    if matches!(wit, Some(w) if w as usize >= n_wits) {
        v.push(V::WitBounds(i));
    }
}

pub fn output_rules(i: usize, o: &MOut, ins: &[MIn], v: &mut Vec<V>) {
    if let MOut::Contract { idx, .. } = o {
        if !matches!(ins.get(*idx as usize), Some(MIn::Contract { .. })) {
            v.push(V::OutContractIndex(i));
        }
    }
}

fn dups<T: Clone + Ord>(xs: Vec<T>) -> Vec<T> {
    let mut xs = xs;
    xs.sort();
    let mut d: Vec<T> = xs.windows(2).filter(|w| w[0] == w[1]).map(|w| w[0].clone()).collect();
    d.dedup();
    d
}

/// All violated rules; the transaction is valid exactly if there are none.
pub fn violations(t: &MTx, height: u64, p: &MParams) -> Vec<V> {
    let mut v = Vec::new();
    let over = |n: usize, i: usize| n as u64 > p.0[i];
    if t.kind == Kind::Mint {
        if over(t.outputs.len(), P_OUTPUTS) {
            v.push(V::OutputsMax);
        }
        if t.ptr.height as u64 != height {
            v.push(V::MintHeight);
        }
        let mut assets = Vec::new();
        for o in &t.outputs {
            match o {
                MOut::Coin { asset, .. } => assets.push(*asset),
                _ => v.push(V::MintNotCoin),
            }
        }
        v.extend(dups(assets).into_iter().map(V::MintDup));
        return v;
    }
    if t.limit > p.0[P_GAS] {
        v.push(V::GasLimit);
    }
    if t.maturity > height {
        v.push(V::Maturity);
    }
    if over(t.inputs.len(), P_INPUTS) {
        v.push(V::InputsMax);
    }
    if over(t.outputs.len(), P_OUTPUTS) {
        v.push(V::OutputsMax);
    }
    if over(t.wits.len(), P_WITS) {
        v.push(V::WitsMax);
    }
    let assets: Vec<H> = t.inputs.iter().filter_map(|i| i.asset()).collect();
    let change: Vec<H> = t
        .outputs
        .iter()
        .filter_map(|o| match o {
            MOut::Change { asset, .. } => Some(*asset),
            _ => None,
        })
        .collect();
    v.extend(dups(change.clone()).into_iter().filter(|a| assets.contains(a)).map(V::ChangeDup));
    v.extend(
        dups(
            t.inputs
                .iter()
                .filter_map(|i| match i {
                    MIn::CoinSigned { utxo, .. } | MIn::CoinPred { utxo, .. } => Some((utxo.tx, utxo.idx)),
                    _ => None,
                })
                .collect(),
        )
        .into_iter()
        .map(|(h, i)| V::DupUtxo(h, i)),
    );
    v.extend(
        dups(
            t.inputs
                .iter()
                .filter_map(|i| match i {
                    MIn::Contract { id, .. } => Some(*id),
                    _ => None,
                })
                .collect(),
        )
        .into_iter()
        .map(V::DupContract),
    );
    v.extend(
        dups(
            t.inputs
                .iter()
                .filter_map(|i| match i {
                    MIn::MsgSigned { mid, .. } | MIn::MsgPred { mid, .. } => Some(*mid),
                    _ => None,
                })
                .collect(),
        )
        .into_iter()
        .map(V::DupMessage),
    );
    for (i, x) in t.inputs.iter().enumerate() {
        input_rules(i, x, &t.outputs, t.wits.len(), p, &mut v);
    }
    for (i, o) in t.outputs.iter().enumerate() {
        output_rules(i, o, &t.inputs, &mut v);
        match o {
            MOut::Change { asset, .. } if !assets.contains(asset) => v.push(V::ChangeAsset(*asset)),
            MOut::Coin { asset, .. } if !assets.contains(asset) => v.push(V::CoinAsset(*asset)),
            _ => {}
        }
    }
    match t.kind {
        Kind::Script => {
            if over(t.script.0.len(), P_SCRIPT) {
                v.push(V::ScriptLen);
            }
            if over(t.data.0.len(), P_DATA) {
                v.push(V::ScriptDataLen);
            }
            for (i, o) in t.outputs.iter().enumerate() {
                if matches!(o, MOut::Created { .. }) {
                    v.push(V::ScriptCreated(i));
                }
            }
        }
        Kind::Create => {
            match t.wits.get(t.bidx as usize) {
                None => v.push(V::CreateWitIndex),
                Some(w) => {
                    if over(w.0.len(), P_CONTRACT) || w.0.len() as u64 / 4 != t.blen {
                        v.push(V::CreateLen);
                    }
                }
            }
            if over(t.slots.len(), P_SLOTS) {
                v.push(V::SlotMax);
            }
            if t.slots.windows(2).any(|w| w[0].0 > w[1].0) {
                v.push(V::SlotOrder);
            }
            for (i, x) in t.inputs.iter().enumerate() {
                if matches!(x, MIn::Contract { .. }) {
                    v.push(V::CreateInContract(i));
                }
            }
            let mut created = 0;
            for (i, o) in t.outputs.iter().enumerate() {
                match o {
                    MOut::Contract { .. } => v.push(V::CreateOutContract(i)),
                    MOut::Variable { .. } => v.push(V::CreateOutVariable(i)),
                    MOut::Change { asset, .. } if *asset != H::default() => v.push(V::CreateChange(i)),
                    MOut::Created { .. } => {
                        created += 1;
                        if created > 1 {
                            v.push(V::CreateTwice(i));
                        }
                    }
                    _ => {}
                }
            }
        }
        Kind::Mint => unreachable!(),
    }
    v
}

/// The reference form of an error of the crate, if it is about structural validity.
pub fn violation_of(e: &fuel_tx::CheckError) -> Option<V> {
    use fuel_tx::CheckError as E;
    Some(match e {
        E::InputWitnessIndexBounds { index } => V::WitBounds(*index),
        E::InputPredicateEmpty { index } => V::PredEmpty(*index),
        E::InputPredicateLength { index } => V::PredLen(*index),
        E::InputPredicateDataLength { index } => V::PredDataLen(*index),
        E::InputContractAssociatedOutputContract { index } => V::ContractOutput(*index),
        E::InputMessageDataLength { index } => V::MsgData(*index),
        E::DuplicateInputUtxoId { utxo_id } => V::DupUtxo(utxo_id.tx_id().into(), utxo_id.output_index()),
        E::DuplicateMessageInputId { message_id } => V::DupMessage(message_id.into()),
        E::DuplicateInputContractId { contract_id } => V::DupContract(contract_id.into()),
        E::OutputContractInputIndex { index } => V::OutContractIndex(*index),
        E::TransactionCreateInputContract { index } => V::CreateInContract(*index),
        E::TransactionCreateOutputContract { index } => V::CreateOutContract(*index),
        E::TransactionCreateOutputVariable { index } => V::CreateOutVariable(*index),
        E::TransactionCreateOutputChangeNotBaseAsset { index } => V::CreateChange(*index),
        E::TransactionCreateOutputContractCreatedMultiple { index } => V::CreateTwice(*index),
        E::TransactionCreateBytecodeLen => V::CreateLen,
        E::TransactionCreateBytecodeWitnessIndex => V::CreateWitIndex,
        E::TransactionCreateStorageSlotMax => V::SlotMax,
        E::TransactionCreateStorageSlotOrder => V::SlotOrder,
        E::TransactionScriptLength => V::ScriptLen,
        E::TransactionScriptDataLength => V::ScriptDataLen,
        E::TransactionScriptOutputContractCreated { index } => V::ScriptCreated(*index),
        E::TransactionMintOutputIsNotCoin => V::MintNotCoin,
        E::TransactionMintIncorrectBlockHeight => V::MintHeight,
        E::TransactionGasLimit => V::GasLimit,
        E::TransactionMaturity => V::Maturity,
        E::TransactionInputsMax => V::InputsMax,
        E::TransactionOutputsMax => V::OutputsMax,
        E::TransactionWitnessesMax => V::WitsMax,
        E::TransactionOutputCoinAssetIdDuplicated(a) => V::MintDup(a.into()),
        E::TransactionOutputChangeAssetIdDuplicated(a) => V::ChangeDup(a.into()),
        E::TransactionOutputChangeAssetIdNotFound(a) => V::ChangeAsset(a.into()),
        E::TransactionOutputCoinAssetIdNotFound(a) => V::CoinAsset(a.into()),
        _ => return None,
    })
}

/// Ok exactly if no rule is violated; an error must name a violated rule.
pub fn judge(got: &Result<(), fuel_tx::CheckError>, vs: &[V], what: &str) -> Result<(), String> {
    match got {
        Ok(()) if vs.is_empty() => Ok(()),
        Ok(()) => Err(format!("{what}: accepted although rules are violated: {vs:?}")),
        Err(e) if vs.is_empty() => Err(format!("{what}: rejected with {e:?} although every rule is obeyed")),
        Err(e) => match violation_of(e) {
            Some(v) if vs.contains(&v) => Ok(()),
            _ => Err(format!("{what}: rejected with {e:?}, but the violated rules are {vs:?}")),
        },
    }
}

//! Plain-data descriptions of every value under test, independent of the crate's own types.

use fuel_asm::{Instruction, InstructionResult, PanicReason};
use crate::fields::*;
use fuel_tx::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct H(pub [u8; 32]);
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct B(pub Vec<u8>);

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect()
}
impl std::fmt::Debug for H {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&hex(&self.0))
    }
}
impl std::fmt::Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&hex(&self.0))
    }
}
impl Serialize for H {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for H {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        unhex(&s)
            .and_then(|v| v.try_into().ok())
            .map(H)
            .ok_or_else(|| serde::de::Error::custom("bad hash"))
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        unhex(&s).map(B).ok_or_else(|| serde::de::Error::custom("bad bytes"))
    }
}

macro_rules! h_conv { ($($t:ty),*) => { $(
    impl From<H> for $t { fn from(h: H) -> Self { <$t>::from(h.0) } }
    impl From<&H> for $t { fn from(h: &H) -> Self { <$t>::from(h.0) } }
    impl From<&$t> for H { fn from(t: &$t) -> Self { H(<[u8; 32]>::from(*t)) } }
)* } }
h_conv!(Bytes32, Address, AssetId, ContractId, MessageId, Salt);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default, Serialize, Deserialize)]
pub struct MUtxo {
    pub tx: H,
    pub idx: u8,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default, Serialize, Deserialize)]
pub struct MPtr {
    pub height: u32,
    pub index: u16,
}
impl MUtxo {
    pub fn real(&self) -> UtxoId {
        UtxoId::new(self.tx.into(), self.idx)
    }
    pub fn of(u: &UtxoId) -> Self {
        MUtxo { tx: u.tx_id().into(), idx: u.output_index() }
    }
}
impl MPtr {
    pub fn real(&self) -> TxPointer {
        TxPointer::new(self.height, self.index)
    }
    pub fn of(p: &TxPointer) -> Self {
        MPtr { height: p.block_height(), index: p.tx_index() }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum MIn {
    CoinSigned { utxo: MUtxo, owner: H, amount: u64, asset: H, ptr: MPtr, wit: u8, maturity: u64 },
    CoinPred { utxo: MUtxo, owner: H, amount: u64, asset: H, ptr: MPtr, maturity: u64, pred: B, pdata: B },
    Contract { utxo: MUtxo, broot: H, sroot: H, ptr: MPtr, id: H },
    MsgSigned { mid: H, sender: H, recipient: H, amount: u64, nonce: u64, wit: u8, data: B },
    MsgPred { mid: H, sender: H, recipient: H, amount: u64, nonce: u64, data: B, pred: B, pdata: B },
}

impl MIn {
    pub fn real(&self) -> Input {
        match self.clone() {
            MIn::CoinSigned { utxo, owner, amount, asset, ptr, wit, maturity } => Input::CoinSigned {
                utxo_id: utxo.real(),
                owner: owner.into(),
                amount,
                asset_id: asset.into(),
                tx_pointer: ptr.real(),
                witness_index: wit,
                maturity,
            },
            MIn::CoinPred { utxo, owner, amount, asset, ptr, maturity, pred, pdata } => {
                Input::CoinPredicate {
                    utxo_id: utxo.real(),
                    owner: owner.into(),
                    amount,
                    asset_id: asset.into(),
                    tx_pointer: ptr.real(),
                    maturity,
                    predicate: pred.0,
                    predicate_data: pdata.0,
                }
            }
            MIn::Contract { utxo, broot, sroot, ptr, id } => Input::Contract {
                utxo_id: utxo.real(),
                balance_root: broot.into(),
                state_root: sroot.into(),
                tx_pointer: ptr.real(),
                contract_id: id.into(),
            },
            MIn::MsgSigned { mid, sender, recipient, amount, nonce, wit, data } => {
                Input::MessageSigned {
                    message_id: mid.into(),
                    sender: sender.into(),
                    recipient: recipient.into(),
                    amount,
                    nonce,
                    witness_index: wit,
                    data: data.0,
                }
            }
            MIn::MsgPred { mid, sender, recipient, amount, nonce, data, pred, pdata } => {
                Input::MessagePredicate {
                    message_id: mid.into(),
                    sender: sender.into(),
                    recipient: recipient.into(),
                    amount,
                    nonce,
                    data: data.0,
                    predicate: pred.0,
                    predicate_data: pdata.0,
                }
            }
        }
    }
    pub fn of(i: &Input) -> Self {
        match i.clone() {
            Input::CoinSigned { utxo_id, owner, amount, asset_id, tx_pointer, witness_index, maturity } => {
                MIn::CoinSigned {
                    utxo: MUtxo::of(&utxo_id),
                    owner: (&owner).into(),
                    amount,
                    asset: (&asset_id).into(),
                    ptr: MPtr::of(&tx_pointer),
                    wit: witness_index,
                    maturity,
                }
            }
            Input::CoinPredicate {
                utxo_id,
                owner,
                amount,
                asset_id,
                tx_pointer,
                maturity,
                predicate,
                predicate_data,
            } => MIn::CoinPred {
                utxo: MUtxo::of(&utxo_id),
                owner: (&owner).into(),
                amount,
                asset: (&asset_id).into(),
                ptr: MPtr::of(&tx_pointer),
                maturity,
                pred: B(predicate),
                pdata: B(predicate_data),
            },
            Input::Contract { utxo_id, balance_root, state_root, tx_pointer, contract_id } => MIn::Contract {
                utxo: MUtxo::of(&utxo_id),
                broot: (&balance_root).into(),
                sroot: (&state_root).into(),
                ptr: MPtr::of(&tx_pointer),
                id: (&contract_id).into(),
            },
            Input::MessageSigned { message_id, sender, recipient, amount, nonce, witness_index, data } => {
                MIn::MsgSigned {
                    mid: (&message_id).into(),
                    sender: (&sender).into(),
                    recipient: (&recipient).into(),
                    amount,
                    nonce,
                    wit: witness_index,
                    data: B(data),
                }
            }
            Input::MessagePredicate {
                message_id,
                sender,
                recipient,
                amount,
                nonce,
                data,
                predicate,
                predicate_data,
            } => MIn::MsgPred {
                mid: (&message_id).into(),
                sender: (&sender).into(),
                recipient: (&recipient).into(),
                amount,
                nonce,
                data: B(data),
                pred: B(predicate),
                pdata: B(predicate_data),
            },
        }
    }
    pub fn asset(&self) -> Option<H> {
        match self {
            MIn::CoinSigned { asset, .. } | MIn::CoinPred { asset, .. } => Some(*asset),
            MIn::MsgSigned { .. } | MIn::MsgPred { .. } => Some(H::default()),
            MIn::Contract { .. } => None,
        }
    }
    pub fn amount(&self) -> Option<u64> {
        match self {
            MIn::CoinSigned { amount, .. }
            | MIn::CoinPred { amount, .. }
            | MIn::MsgSigned { amount, .. }
            | MIn::MsgPred { amount, .. } => Some(*amount),
            MIn::Contract { .. } => None,
        }
    }
    /// Owner and witness index of an input that needs a signature.
    pub fn signed(&self) -> Option<(H, u8)> {
        match self {
            MIn::CoinSigned { owner, wit, .. } => Some((*owner, *wit)),
            MIn::MsgSigned { recipient, wit, .. } => Some((*recipient, *wit)),
            _ => None,
        }
    }
    /// Owner and predicate of a predicate input.
    pub fn predicate(&self) -> Option<(H, &[u8])> {
        match self {
            MIn::CoinPred { owner, pred, .. } => Some((*owner, &pred.0)),
            MIn::MsgPred { recipient, pred, .. } => Some((*recipient, &pred.0)),
            _ => None,
        }
    }
    pub fn clear_predicate(&mut self) {
        if let MIn::CoinPred { pred, .. } | MIn::MsgPred { pred, .. } = self {
            pred.0.clear();
        }
    }
    /// Whether it has a predicate that is empty.
    pub fn is_hollow(&self) -> bool {
        matches!(self.predicate(), Some((_, p)) if p.is_empty())
    }
    pub fn owner(&self) -> Option<H> {
        self.signed().map(|x| x.0).or_else(|| self.predicate().map(|x| x.0))
    }
    pub fn set_owner(&mut self, h: H) {
        match self {
            MIn::CoinSigned { owner, .. } | MIn::CoinPred { owner, .. } => *owner = h,
            MIn::MsgSigned { recipient, .. } | MIn::MsgPred { recipient, .. } => *recipient = h,
            MIn::Contract { .. } => {}
        }
    }
    pub fn set_amount(&mut self, a: u64) {
        match self {
            MIn::CoinSigned { amount, .. }
            | MIn::CoinPred { amount, .. }
            | MIn::MsgSigned { amount, .. }
            | MIn::MsgPred { amount, .. } => *amount = a,
            MIn::Contract { .. } => {}
        }
    }
    pub fn set_wit(&mut self, w: u8) {
        match self {
            MIn::CoinSigned { wit, .. } | MIn::MsgSigned { wit, .. } => *wit = w,
            _ => {}
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum MOut {
    Coin { to: H, amount: u64, asset: H },
    Contract { idx: u8, broot: H, sroot: H },
    Message { recipient: H, amount: u64 },
    Change { to: H, amount: u64, asset: H },
    Variable { to: H, amount: u64, asset: H },
    Created { id: H, sroot: H },
}
impl MOut {
    pub fn real(&self) -> Output {
        match self.clone() {
            MOut::Coin { to, amount, asset } => {
                Output::Coin { to: to.into(), amount, asset_id: asset.into() }
            }
            MOut::Contract { idx, broot, sroot } => Output::Contract {
                input_index: idx,
                balance_root: broot.into(),
                state_root: sroot.into(),
            },
            MOut::Message { recipient, amount } => {
                Output::Message { recipient: recipient.into(), amount }
            }
            MOut::Change { to, amount, asset } => {
                Output::Change { to: to.into(), amount, asset_id: asset.into() }
            }
            MOut::Variable { to, amount, asset } => {
                Output::Variable { to: to.into(), amount, asset_id: asset.into() }
            }
            MOut::Created { id, sroot } => {
                Output::ContractCreated { contract_id: id.into(), state_root: sroot.into() }
            }
        }
    }
    pub fn of(o: &Output) -> Self {
        match o {
            Output::Coin { to, amount, asset_id } => {
                MOut::Coin { to: to.into(), amount: *amount, asset: asset_id.into() }
            }
            Output::Contract { input_index, balance_root, state_root } => MOut::Contract {
                idx: *input_index,
                broot: balance_root.into(),
                sroot: state_root.into(),
            },
            Output::Message { recipient, amount } => {
                MOut::Message { recipient: recipient.into(), amount: *amount }
            }
            Output::Change { to, amount, asset_id } => {
                MOut::Change { to: to.into(), amount: *amount, asset: asset_id.into() }
            }
            Output::Variable { to, amount, asset_id } => {
                MOut::Variable { to: to.into(), amount: *amount, asset: asset_id.into() }
            }
            Output::ContractCreated { contract_id, state_root } => {
                MOut::Created { id: contract_id.into(), sroot: state_root.into() }
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default, Serialize, Deserialize)]
pub enum Kind {
    #[default]
    Script,
    Create,
    Mint,
}

/// A transaction of any kind; fields a kind does not have stay at their defaults.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct MTx {
    pub kind: Kind,
    pub price: u64,
    pub limit: u64,
    pub maturity: u64,
    pub script: B,
    pub data: B,
    pub rroot: H,
    pub blen: u64,
    pub bidx: u8,
    pub salt: H,
    pub slots: Vec<(H, H)>,
    pub ptr: MPtr,
    pub inputs: Vec<MIn>,
    pub outputs: Vec<MOut>,
    pub wits: Vec<B>,
}

impl MTx {
    pub fn real_script(&self) -> Script {
        assert!(self.kind == Kind::Script);
        let mut s = Transaction::script(
            self.price,
            self.limit,
            self.maturity,
            self.script.0.clone(),
            self.data.0.clone(),
            self.real_inputs(),
            self.real_outputs(),
            self.real_wits(),
        );
        *s.receipts_root_mut() = self.rroot.into();
        s
    }
    pub fn real_create(&self) -> Create {
        assert!(self.kind == Kind::Create);
        let mut c = Transaction::create(
            self.price,
            self.limit,
            self.maturity,
            self.bidx,
            self.salt.into(),
            self.real_slots(),
            self.real_inputs(),
            self.real_outputs(),
            self.real_wits(),
        );
        *c.bytecode_length_mut() = self.blen;
        c
    }
    pub fn real_mint(&self) -> Mint {
        assert!(self.kind == Kind::Mint);
        Transaction::mint(self.ptr.real(), self.real_outputs())
    }
    pub fn real(&self) -> Transaction {
        match self.kind {
            Kind::Script => self.real_script().into(),
            Kind::Create => self.real_create().into(),
            Kind::Mint => self.real_mint().into(),
        }
    }
    pub fn real_inputs(&self) -> Vec<Input> {
        self.inputs.iter().map(MIn::real).collect()
    }
    pub fn real_outputs(&self) -> Vec<Output> {
        self.outputs.iter().map(MOut::real).collect()
    }
    pub fn real_wits(&self) -> Vec<Witness> {
        self.wits.iter().map(|w| w.0.clone().into()).collect()
    }
    pub fn real_slots(&self) -> Vec<StorageSlot> {
        self.slots.iter().map(|(k, v)| StorageSlot::new(k.into(), v.into())).collect()
    }
    pub fn of(t: &Transaction) -> Self {
        match t {
            Transaction::Script(s) => Self::of_script(s),
            Transaction::Create(c) => Self::of_create(c),
            Transaction::Mint(m) => Self::of_mint(m),
        }
    }
    pub fn of_script(s: &Script) -> Self {
        MTx {
            kind: Kind::Script,
            price: *s.gas_price(),
            limit: *s.gas_limit(),
            maturity: *s.maturity(),
            script: B(s.script().clone()),
            data: B(s.script_data().clone()),
            rroot: s.receipts_root().into(),
            inputs: s.inputs().iter().map(MIn::of).collect(),
            outputs: s.outputs().iter().map(MOut::of).collect(),
            wits: s.witnesses().iter().map(|w| B(w.as_ref().to_vec())).collect(),
            ..Default::default()
        }
    }
    pub fn of_create(c: &Create) -> Self {
        MTx {
            kind: Kind::Create,
            price: *c.gas_price(),
            limit: *c.gas_limit(),
            maturity: *c.maturity(),
            blen: *c.bytecode_length(),
            bidx: *c.bytecode_witness_index(),
            salt: c.salt().into(),
            slots: c.storage_slots().iter().map(|s| (s.key().into(), s.value().into())).collect(),
            inputs: c.inputs().iter().map(MIn::of).collect(),
            outputs: c.outputs().iter().map(MOut::of).collect(),
            wits: c.witnesses().iter().map(|w| B(w.as_ref().to_vec())).collect(),
            ..Default::default()
        }
    }
    pub fn of_mint(m: &Mint) -> Self {
        MTx {
            kind: Kind::Mint,
            ptr: MPtr::of(m.tx_pointer()),
            outputs: m.outputs().iter().map(MOut::of).collect(),
            ..Default::default()
        }
    }
    pub fn is_mint(&self) -> bool {
        self.kind == Kind::Mint
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum MRcpt {
    Call { id: H, to: H, amount: u64, asset: H, gas: u64, p1: u64, p2: u64, pc: u64, is: u64 },
    Return { id: H, val: u64, pc: u64, is: u64 },
    ReturnData { id: H, ptr: u64, len: u64, digest: H, data: B, pc: u64, is: u64 },
    Panic { id: H, reason: u8, instr: u32, pc: u64, is: u64, contract: Option<H> },
    Revert { id: H, ra: u64, pc: u64, is: u64 },
    Log { id: H, ra: u64, rb: u64, rc: u64, rd: u64, pc: u64, is: u64 },
    LogData { id: H, ra: u64, rb: u64, ptr: u64, len: u64, digest: H, data: B, pc: u64, is: u64 },
    Transfer { id: H, to: H, amount: u64, asset: H, pc: u64, is: u64 },
    TransferOut { id: H, to: H, amount: u64, asset: H, pc: u64, is: u64 },
    /// `result` is the word form; the canonical constructor is used.
    ScriptResult { result: u64, gas: u64 },
    MessageOut { mid: H, sender: H, recipient: H, amount: u64, nonce: H, len: u64, digest: H, data: B },
}

pub fn instr_result(reason: u8, instr: u32) -> InstructionResult {
    InstructionResult::error(PanicReason::from(reason as u64), Instruction::from(instr))
}
pub fn script_result(w: u64) -> ScriptExecutionResult {
    match w {
        0 => ScriptExecutionResult::Success,
        1 => ScriptExecutionResult::Revert,
        2 => ScriptExecutionResult::Panic,
        n => ScriptExecutionResult::GenericFailure(n),
    }
}

impl MRcpt {
    pub fn real(&self) -> Receipt {
        match self.clone() {
            MRcpt::Call { id, to, amount, asset, gas, p1, p2, pc, is } => Receipt::Call {
                id: id.into(),
                to: to.into(),
                amount,
                asset_id: asset.into(),
                gas,
                param1: p1,
                param2: p2,
                pc,
                is,
            },
            MRcpt::Return { id, val, pc, is } => Receipt::Return { id: id.into(), val, pc, is },
            MRcpt::ReturnData { id, ptr, len, digest, data, pc, is } => Receipt::ReturnData {
                id: id.into(),
                ptr,
                len,
                digest: digest.into(),
                data: data.0,
                pc,
                is,
            },
            MRcpt::Panic { id, reason, instr, pc, is, contract } => Receipt::Panic {
                id: id.into(),
                reason: instr_result(reason, instr),
                pc,
                is,
                contract_id: contract.map(Into::into),
            },
            MRcpt::Revert { id, ra, pc, is } => Receipt::Revert { id: id.into(), ra, pc, is },
            MRcpt::Log { id, ra, rb, rc, rd, pc, is } => {
                Receipt::Log { id: id.into(), ra, rb, rc, rd, pc, is }
            }
            MRcpt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => Receipt::LogData {
                id: id.into(),
                ra,
                rb,
                ptr,
                len,
                digest: digest.into(),
                data: data.0,
                pc,
                is,
            },
            MRcpt::Transfer { id, to, amount, asset, pc, is } => Receipt::Transfer {
                id: id.into(),
                to: to.into(),
                amount,
                asset_id: asset.into(),
                pc,
                is,
            },
            MRcpt::TransferOut { id, to, amount, asset, pc, is } => Receipt::TransferOut {
                id: id.into(),
                to: to.into(),
                amount,
                asset_id: asset.into(),
                pc,
                is,
            },
            MRcpt::ScriptResult { result, gas } => {
                Receipt::ScriptResult { result: script_result(result), gas_used: gas }
            }
            MRcpt::MessageOut { mid, sender, recipient, amount, nonce, len, digest, data } => {
                Receipt::MessageOut {
                    message_id: mid.into(),
                    sender: sender.into(),
                    recipient: recipient.into(),
                    amount,
                    nonce: nonce.into(),
                    len,
                    digest: digest.into(),
                    data: data.0,
                }
            }
        }
    }
    pub fn of(r: &Receipt) -> Self {
        match r.clone() {
            Receipt::Call { id, to, amount, asset_id, gas, param1, param2, pc, is } => MRcpt::Call {
                id: (&id).into(),
                to: (&to).into(),
                amount,
                asset: (&asset_id).into(),
                gas,
                p1: param1,
                p2: param2,
                pc,
                is,
            },
            Receipt::Return { id, val, pc, is } => MRcpt::Return { id: (&id).into(), val, pc, is },
            Receipt::ReturnData { id, ptr, len, digest, data, pc, is } => MRcpt::ReturnData {
                id: (&id).into(),
                ptr,
                len,
                digest: (&digest).into(),
                data: B(data),
                pc,
                is,
            },
            Receipt::Panic { id, reason, pc, is, contract_id } => MRcpt::Panic {
                id: (&id).into(),
                reason: *reason.reason() as u8,
                instr: u32::from(*reason.instruction()),
                pc,
                is,
                contract: contract_id.as_ref().map(Into::into),
            },
            Receipt::Revert { id, ra, pc, is } => MRcpt::Revert { id: (&id).into(), ra, pc, is },
            Receipt::Log { id, ra, rb, rc, rd, pc, is } => {
                MRcpt::Log { id: (&id).into(), ra, rb, rc, rd, pc, is }
            }
            Receipt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => MRcpt::LogData {
                id: (&id).into(),
                ra,
                rb,
                ptr,
                len,
                digest: (&digest).into(),
                data: B(data),
                pc,
                is,
            },
            Receipt::Transfer { id, to, amount, asset_id, pc, is } => MRcpt::Transfer {
                id: (&id).into(),
                to: (&to).into(),
                amount,
                asset: (&asset_id).into(),
                pc,
                is,
            },
            Receipt::TransferOut { id, to, amount, asset_id, pc, is } => MRcpt::TransferOut {
                id: (&id).into(),
                to: (&to).into(),
                amount,
                asset: (&asset_id).into(),
                pc,
                is,
            },
            Receipt::ScriptResult { result, gas_used } => MRcpt::ScriptResult {
                result: match result {
                    ScriptExecutionResult::Success => 0,
                    ScriptExecutionResult::Revert => 1,
                    ScriptExecutionResult::Panic => 2,
                    ScriptExecutionResult::GenericFailure(n) => n,
                },
                gas: gas_used,
            },
            Receipt::MessageOut { message_id, sender, recipient, amount, nonce, len, digest, data } => {
                MRcpt::MessageOut {
                    mid: (&message_id).into(),
                    sender: (&sender).into(),
                    recipient: (&recipient).into(),
                    amount,
                    nonce: (&nonce).into(),
                    len,
                    digest: (&digest).into(),
                    data: B(data),
                }
            }
        }
    }
}

/// The thirteen consensus parameters in declaration order.
pub const PARAM_NAMES: [&str; 13] = [
    "contract_max_size",
    "max_inputs",
    "max_outputs",
    "max_witnesses",
    "max_gas_per_tx",
    "max_script_length",
    "max_script_data_length",
    "max_storage_slots",
    "max_predicate_length",
    "max_predicate_data_length",
    "gas_price_factor",
    "gas_per_byte",
    "max_message_data_length",
];
/// The published default values.
pub const PARAM_DEFAULTS: [u64; 13] = [
    16 * 1024 * 1024,
    255,
    255,
    255,
    100_000_000,
    1024 * 1024,
    1024 * 1024,
    255,
    1024 * 1024,
    1024 * 1024,
    1_000_000_000,
    4,
    1024 * 1024,
];
pub const P_CONTRACT: usize = 0;
pub const P_INPUTS: usize = 1;
pub const P_OUTPUTS: usize = 2;
pub const P_WITS: usize = 3;
pub const P_GAS: usize = 4;
pub const P_SCRIPT: usize = 5;
pub const P_DATA: usize = 6;
pub const P_SLOTS: usize = 7;
pub const P_PRED: usize = 8;
pub const P_PDATA: usize = 9;
pub const P_FACTOR: usize = 10;
pub const P_GPB: usize = 11;
pub const P_MSG: usize = 12;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct MParams(pub [u64; 13]);
impl Default for MParams {
    fn default() -> Self {
        MParams(PARAM_DEFAULTS)
    }
}
impl MParams {
    pub fn real(&self) -> ConsensusParameters {
        let p = &self.0;
        ConsensusParameters {
            contract_max_size: p[0],
            max_inputs: p[1],
            max_outputs: p[2],
            max_witnesses: p[3],
            max_gas_per_tx: p[4],
            max_script_length: p[5],
            max_script_data_length: p[6],
            max_storage_slots: p[7],
            max_predicate_length: p[8],
            max_predicate_data_length: p[9],
            gas_price_factor: p[10],
            gas_per_byte: p[11],
            max_message_data_length: p[12],
        }
    }
    #[allow(dead_code)]
    pub fn of(p: &ConsensusParameters) -> Self {
        MParams([
            p.contract_max_size,
            p.max_inputs,
            p.max_outputs,
            p.max_witnesses,
            p.max_gas_per_tx,
            p.max_script_length,
            p.max_script_data_length,
            p.max_storage_slots,
            p.max_predicate_length,
            p.max_predicate_data_length,
            p.gas_price_factor,
            p.gas_per_byte,
            p.max_message_data_length,
        ])
    }
}

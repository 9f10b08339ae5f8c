//! C13, C27, C28, C30, C32, C33, C34: the parts of transactions and receipts, and the small types.

use crate::enc::{self, sha};
use crate::engine::*;
use crate::expect::{both, meaning, signed_case};
use crate::fields::*;
use crate::gen;
use crate::keys;
use crate::model::*;
use crate::val::{self, MVal, Real};
use crate::{with_exec, with_real};
use fuel_tx::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

/// The value of any accessor.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum A {
    Nothing,
    H(H),
    W(u64),
    Bytes(Vec<u8>),
    Pair(Vec<u8>, Vec<u8>),
    Utxo(MUtxo),
    Ptr(MPtr),
    Yes(bool),
    Instr(u8, u32),
    Kind(&'static str),
}

trait Acc {
    fn a(self) -> A;
}
impl Acc for u64 {
    fn a(self) -> A {
        A::W(self)
    }
}
impl Acc for u8 {
    fn a(self) -> A {
        A::W(self as u64)
    }
}
impl Acc for usize {
    fn a(self) -> A {
        A::W(self as u64)
    }
}
impl Acc for bool {
    fn a(self) -> A {
        A::Yes(self)
    }
}
impl Acc for &[u8] {
    fn a(self) -> A {
        A::Bytes(self.to_vec())
    }
}
impl Acc for (&[u8], &[u8]) {
    fn a(self) -> A {
        A::Pair(self.0.to_vec(), self.1.to_vec())
    }
}
impl Acc for &UtxoId {
    fn a(self) -> A {
        A::Utxo(MUtxo::of(self))
    }
}
impl Acc for &TxPointer {
    fn a(self) -> A {
        A::Ptr(MPtr::of(self))
    }
}
macro_rules! hacc { ($($t:ty),*) => { $( impl Acc for &$t { fn a(self) -> A { A::H(self.into()) } } )* } }
hacc!(Bytes32, Address, AssetId, ContractId, MessageId);
impl Acc for H {
    fn a(self) -> A {
        A::H(self)
    }
}
impl Acc for &B {
    fn a(self) -> A {
        A::Bytes(self.0.clone())
    }
}
impl Acc for MUtxo {
    fn a(self) -> A {
        A::Utxo(self)
    }
}
impl Acc for MPtr {
    fn a(self) -> A {
        A::Ptr(self)
    }
}
impl Acc for InstructionResult {
    fn a(self) -> A {
        A::Instr(*self.reason() as u8, u32::from(*self.instruction()))
    }
}
impl Acc for &ScriptExecutionResult {
    fn a(self) -> A {
        A::W(match self {
            ScriptExecutionResult::Success => 0,
            ScriptExecutionResult::Revert => 1,
            ScriptExecutionResult::Panic => 2,
            ScriptExecutionResult::GenericFailure(n) => *n,
        })
    }
}
impl<T: Acc> Acc for Option<T> {
    fn a(self) -> A {
        match self {
            Some(x) => x.a(),
            None => A::Nothing,
        }
    }
}

type Table = BTreeMap<&'static str, A>;

/// Every accessor must give what the table of present fields says, and nothing where it says nothing.
fn compare(got: Vec<(&'static str, A)>, mut want: Table, what: &str) -> Res {
    for (name, a) in got {
        let w = want.remove(name).unwrap_or(A::Nothing);
        ensure_eq!(a, w, "{what}: accessor {name}");
    }
    assert!(want.is_empty(), "harness: unobserved fields {want:?}");
    Ok(())
}

fn input_table(x: &MIn) -> Table {
    let mut t = Table::new();
    for k in [
        "is_coin",
        "is_coin_signed",
        "is_coin_predicate",
        "is_message",
        "is_message_signed",
        "is_message_predicate",
        "is_contract",
    ] {
        t.insert(k, A::Yes(false));
    }
    let yes = |t: &mut Table, k: &'static str| {
        t.insert(k, A::Yes(true));
    };
    let pred_part = |t: &mut Table, at: usize, p: &B, d: &B| {
        t.insert("predicate_offset", at.a());
        t.insert("predicate_data_offset", (at + enc::pad_len(p.0.len())).a());
        t.insert("predicate_len", p.0.len().a());
        t.insert("predicate_data_len", d.0.len().a());
        t.insert("input_predicate", p.a());
        t.insert("input_predicate_data", d.a());
        t.insert("predicate", A::Pair(p.0.clone(), d.0.clone()));
    };
    let none_part = |t: &mut Table| {
        t.insert("predicate_len", A::W(0));
        t.insert("predicate_data_len", A::W(0));
    };
    match x {
        MIn::CoinSigned { utxo, owner, amount, asset, ptr, wit, maturity } => {
            t.insert("utxo_id", utxo.a());
            t.insert("input_owner", owner.a());
            t.insert("amount", amount.a());
            t.insert("asset_id", asset.a());
            t.insert("tx_pointer", ptr.a());
            t.insert("witness_index", wit.a());
            t.insert("maturity", maturity.a());
            none_part(&mut t);
            yes(&mut t, "is_coin");
            yes(&mut t, "is_coin_signed");
        }
        MIn::CoinPred { utxo, owner, amount, asset, ptr, maturity, pred, pdata } => {
            t.insert("utxo_id", utxo.a());
            t.insert("input_owner", owner.a());
            t.insert("amount", amount.a());
            t.insert("asset_id", asset.a());
            t.insert("tx_pointer", ptr.a());
            t.insert("maturity", maturity.a());
            let at = enc::input(&mut Vec::new(), x).unwrap();
            pred_part(&mut t, at, pred, pdata);
            yes(&mut t, "is_coin");
            yes(&mut t, "is_coin_predicate");
        }
        MIn::Contract { utxo, broot, sroot, ptr, id } => {
            t.insert("utxo_id", utxo.a());
            t.insert("balance_root", broot.a());
            t.insert("state_root", sroot.a());
            t.insert("tx_pointer", ptr.a());
            t.insert("contract_id", id.a());
            yes(&mut t, "is_contract");
        }
        MIn::MsgSigned { mid, sender, recipient, amount, nonce, wit, data } => {
            t.insert("message_id", mid.a());
            t.insert("sender", sender.a());
            t.insert("recipient", recipient.a());
            t.insert("amount", amount.a());
            t.insert("asset_id", H::default().a());
            t.insert("nonce", nonce.a());
            t.insert("witness_index", wit.a());
            t.insert("input_data", data.a());
            none_part(&mut t);
            yes(&mut t, "is_message");
            yes(&mut t, "is_message_signed");
        }
        MIn::MsgPred { mid, sender, recipient, amount, nonce, data, pred, pdata } => {
            t.insert("message_id", mid.a());
            t.insert("sender", sender.a());
            t.insert("recipient", recipient.a());
            t.insert("amount", amount.a());
            t.insert("asset_id", H::default().a());
            t.insert("nonce", nonce.a());
            t.insert("input_data", data.a());
            let at = enc::input(&mut Vec::new(), x).unwrap();
            pred_part(&mut t, at, pred, pdata);
            yes(&mut t, "is_message");
            yes(&mut t, "is_message_predicate");
        }
    }
    t
}

fn input_accessors(x: &Input) -> Vec<(&'static str, A)> {
    vec![
        ("utxo_id", x.utxo_id().a()),
        ("input_owner", x.input_owner().a()),
        ("asset_id", x.asset_id().a()),
        ("contract_id", x.contract_id().a()),
        ("amount", x.amount().a()),
        ("witness_index", x.witness_index().a()),
        ("maturity", x.maturity().a()),
        ("predicate_offset", x.predicate_offset().a()),
        ("predicate_data_offset", x.predicate_data_offset().a()),
        ("predicate_len", x.predicate_len().a()),
        ("predicate_data_len", x.predicate_data_len().a()),
        ("message_id", x.message_id().a()),
        ("tx_pointer", x.tx_pointer().a()),
        ("input_data", x.input_data().a()),
        ("input_predicate", x.input_predicate().a()),
        ("input_predicate_data", x.input_predicate_data().a()),
        ("predicate", x.predicate().a()),
        ("is_coin", x.is_coin().a()),
        ("is_coin_signed", x.is_coin_signed().a()),
        ("is_coin_predicate", x.is_coin_predicate().a()),
        ("is_message", x.is_message().a()),
        ("is_message_signed", x.is_message_signed().a()),
        ("is_message_predicate", x.is_message_predicate().a()),
        ("is_contract", x.is_contract().a()),
        ("balance_root", x.balance_root().a()),
        ("state_root", x.state_root().a()),
        ("sender", x.sender().a()),
        ("recipient", x.recipient().a()),
        ("nonce", x.nonce().a()),
    ]
}

/// What the crate's own bytes hold at an offset.
fn at_offset(bytes: &[u8], at: Option<usize>, len: usize) -> A {
    match at {
        None => A::Nothing,
        Some(at) => match bytes.get(at..at.saturating_add(len)) {
            Some(b) => A::Bytes(b.to_vec()),
            None => A::Kind("outside"),
        },
    }
}
fn hb(h: &H) -> A {
    A::Bytes(h.0.to_vec())
}
fn utxo_b(u: &MUtxo) -> A {
    let mut o = Vec::new();
    enc::utxo(&mut o, u);
    A::Bytes(o)
}
fn ptr_b(p: &MPtr) -> A {
    let mut o = Vec::new();
    enc::ptr(&mut o, p);
    A::Bytes(o)
}

fn input_layout(m: &MIn, x: &Input, o: &mut Obs) -> Res {
    use fuel_types::bytes::SerializableVec;
    let bytes = x.clone().to_bytes();
    let r = InputRepr::from(x);
    ensure_eq!(r, x.repr(), "kind of the input");
    ensure_eq!(r, InputRepr::from_input(x), "kind of the input");
    let name = match m {
        MIn::CoinSigned { .. } | MIn::CoinPred { .. } => InputRepr::Coin,
        MIn::Contract { .. } => InputRepr::Contract,
        _ => InputRepr::Message,
    };
    ensure_eq!(r, name, "kind of the input");
    ensure_eq!(InputRepr::try_from(r.clone() as u64).ok(), Some(r.clone()), "kind by number");
    let b = |at: Option<usize>, n: usize| at_offset(&bytes, at, n);
    let data_len = match m {
        MIn::MsgSigned { data, .. } | MIn::MsgPred { data, .. } => data.0.len(),
        _ => 0,
    };
    let pred_len = m.predicate().map_or(0, |p| p.1.len());
    let got = vec![
        ("utxo_id", b(r.utxo_id_offset(), 40)),
        ("owner", b(r.owner_offset(), 32)),
        ("asset_id", b(r.asset_id_offset(), 32)),
        ("data", b(r.data_offset(), data_len)),
        ("coin_predicate", b(r.coin_predicate_offset(), pred_len)),
        ("contract_balance_root", b(r.contract_balance_root_offset(), 32)),
        ("contract_state_root", b(r.contract_state_root_offset(), 32)),
        ("contract_id", b(r.contract_id_offset(), 32)),
        ("message_id", b(r.message_id_offset(), 32)),
        ("message_sender", b(r.message_sender_offset(), 32)),
        ("message_recipient", b(r.message_recipient_offset(), 32)),
        ("tx_pointer", b(r.tx_pointer_offset(), 16)),
        ("the predicate", b(x.predicate_offset(), pred_len)),
        (
            "the predicate data",
            b(x.predicate_data_offset(), x.input_predicate_data().map_or(0, |d| d.len())),
        ),
    ];
    let mut want = Table::new();
    match m {
        MIn::CoinSigned { utxo, owner, asset, ptr, .. } | MIn::CoinPred { utxo, owner, asset, ptr, .. } => {
            want.insert("utxo_id", utxo_b(utxo));
            want.insert("owner", hb(owner));
            want.insert("asset_id", hb(asset));
            want.insert("tx_pointer", ptr_b(ptr));
            want.insert("coin_predicate", A::Bytes(m.predicate().map_or(vec![], |p| p.1.to_vec())));
            ensure_eq!(r.coin_predicate_offset(), Some(Input::coin_predicate_offset()), "coin predicate offset");
        }
        MIn::Contract { utxo, broot, sroot, ptr, id } => {
            want.insert("utxo_id", utxo_b(utxo));
            want.insert("contract_balance_root", hb(broot));
            want.insert("contract_state_root", hb(sroot));
            want.insert("tx_pointer", ptr_b(ptr));
            want.insert("contract_id", hb(id));
        }
        MIn::MsgSigned { mid, sender, recipient, data, .. }
        | MIn::MsgPred { mid, sender, recipient, data, .. } => {
            want.insert("message_id", hb(mid));
            want.insert("message_sender", hb(sender));
            want.insert("message_recipient", hb(recipient));
            want.insert("data", data.a());
            ensure_eq!(r.data_offset(), Some(Input::message_data_offset()), "message data offset");
        }
    }
    match m {
        MIn::CoinPred { pred, pdata, .. } | MIn::MsgPred { pred, pdata, .. } => {
            o.class_if(pdata.0.len() % 8 != 0 || pred.0.len() % 8 != 0, "padded predicate");
            want.insert("the predicate", pred.a());
            want.insert("the predicate data", pdata.a());
        }
        _ => {}
    }
    compare(got, want, "layout of the input")
}

fn check_output(m: &MOut, x: &Output) -> Res {
    use fuel_types::bytes::SerializableVec;
    let mut t = Table::new();
    for k in ["is_coin", "is_message", "is_variable", "is_contract", "is_contract_created"] {
        t.insert(k, A::Yes(false));
    }
    let mut l = Table::new();
    let kind = match m {
        MOut::Coin { to, amount, asset }
        | MOut::Change { to, amount, asset }
        | MOut::Variable { to, amount, asset } => {
            t.insert("to", to.a());
            t.insert("amount", amount.a());
            t.insert("asset_id", asset.a());
            l.insert("to", hb(to));
            l.insert("asset_id", hb(asset));
            match m {
                MOut::Coin { .. } => {
                    t.insert("is_coin", A::Yes(true));
                    OutputRepr::Coin
                }
                MOut::Change { .. } => OutputRepr::Change,
                _ => {
                    t.insert("is_variable", A::Yes(true));
                    OutputRepr::Variable
                }
            }
        }
        MOut::Contract { idx, broot, sroot } => {
            t.insert("input_index", idx.a());
            t.insert("balance_root", broot.a());
            t.insert("state_root", sroot.a());
            t.insert("is_contract", A::Yes(true));
            l.insert("contract_balance_root", hb(broot));
            l.insert("contract_state_root", hb(sroot));
            OutputRepr::Contract
        }
        MOut::Message { recipient, amount } => {
            t.insert("recipient", recipient.a());
            t.insert("amount", amount.a());
            t.insert("is_message", A::Yes(true));
            l.insert("recipient", hb(recipient));
            OutputRepr::Message
        }
        MOut::Created { id, sroot } => {
            t.insert("contract_id", id.a());
            t.insert("state_root", sroot.a());
            t.insert("is_contract_created", A::Yes(true));
            l.insert("contract_id", hb(id));
            l.insert("contract_created_state_root", hb(sroot));
            OutputRepr::ContractCreated
        }
    };
    let got = vec![
        ("asset_id", x.asset_id().a()),
        ("to", x.to().a()),
        ("amount", x.amount().a()),
        ("input_index", x.input_index().a()),
        ("balance_root", x.balance_root().a()),
        ("state_root", x.state_root().a()),
        ("contract_id", x.contract_id().a()),
        ("recipient", x.recipient().a()),
        ("is_coin", x.is_coin().a()),
        ("is_message", x.is_message().a()),
        ("is_variable", x.is_variable().a()),
        ("is_contract", x.is_contract().a()),
        ("is_contract_created", x.is_contract_created().a()),
    ];
    compare(got, t, "output")?;
    let r = OutputRepr::from(x);
    ensure_eq!(r, kind, "kind of the output");
    ensure_eq!(x.repr(), kind, "kind of the output");
    ensure_eq!(OutputRepr::from_output(x), kind, "kind of the output");
    ensure_eq!(OutputRepr::from(&mut x.clone()), kind, "kind of the output");
    ensure_eq!(OutputRepr::try_from(kind.clone() as u64).ok(), Some(kind), "kind by number");
    let bytes = x.clone().to_bytes();
    let b = |at: Option<usize>| at_offset(&bytes, at, 32);
    let got = vec![
        ("to", b(r.to_offset())),
        ("asset_id", b(r.asset_id_offset())),
        ("contract_balance_root", b(r.contract_balance_root_offset())),
        ("contract_state_root", b(r.contract_state_root_offset())),
        ("contract_created_state_root", b(r.contract_created_state_root_offset())),
        ("contract_id", b(r.contract_id_offset())),
        ("recipient", b(r.recipient_offset())),
    ];
    compare(got, l, "layout of the output")
}

/// The crate's constructors, which take their arguments by position.
fn construct_input(m: &MIn) -> Input {
    match m.clone() {
        MIn::CoinSigned { utxo, owner, amount, asset, ptr, wit, maturity } => {
            Input::coin_signed(utxo.real(), owner.into(), amount, asset.into(), ptr.real(), wit, maturity)
        }
        MIn::CoinPred { utxo, owner, amount, asset, ptr, maturity, pred, pdata } => Input::coin_predicate(
            utxo.real(),
            owner.into(),
            amount,
            asset.into(),
            ptr.real(),
            maturity,
            pred.0,
            pdata.0,
        ),
        MIn::Contract { utxo, broot, sroot, ptr, id } => {
            Input::contract(utxo.real(), broot.into(), sroot.into(), ptr.real(), id.into())
        }
        MIn::MsgSigned { mid, sender, recipient, amount, nonce, wit, data } => {
            Input::message_signed(mid.into(), sender.into(), recipient.into(), amount, nonce, wit, data.0)
        }
        MIn::MsgPred { mid, sender, recipient, amount, nonce, data, pred, pdata } => Input::message_predicate(
            mid.into(),
            sender.into(),
            recipient.into(),
            amount,
            nonce,
            data.0,
            pred.0,
            pdata.0,
        ),
    }
}
fn construct_output(m: &MOut) -> Output {
    match m.clone() {
        MOut::Coin { to, amount, asset } => Output::coin(to.into(), amount, asset.into()),
        MOut::Contract { idx, broot, sroot } => Output::contract(idx, broot.into(), sroot.into()),
        MOut::Message { recipient, amount } => Output::message(recipient.into(), amount),
        MOut::Change { to, amount, asset } => Output::change(to.into(), amount, asset.into()),
        MOut::Variable { to, amount, asset } => Output::variable(to.into(), amount, asset.into()),
        MOut::Created { id, sroot } => Output::contract_created(id.into(), sroot.into()),
    }
}

pub fn c13(ctx: &mut Ctx) {
    ctx.rule(
        "inputs and outputs of every variant with unrelated field values, the positional constructors, \
         small parts and whole transactions; every accessor against a table of the variant's fields, every \
         layout offset by reading the value's own encoding there; non-trivial: at least one non-zero field",
    );
    ctx.part("input", 120000, gen::memory_input, |m: &MIn, o| {
        o.nt(MVal::In(m.clone()).bytes().iter().skip(8).any(|b| *b != 0));
        o.class(MVal::In(m.clone()).class());
        let x = m.real();
        compare(input_accessors(&x), input_table(m), "input")?;
        input_layout(m, &x, o)?;
        ensure_eq!(MIn::of(&construct_input(m)), *m, "constructed input");
        Ok(())
    });
    ctx.part("output", 120000, gen::output, |m: &MOut, o| {
        o.nt(MVal::Out(m.clone()).bytes().iter().skip(8).any(|b| *b != 0));
        o.class(MVal::Out(m.clone()).class());
        check_output(m, &m.real())?;
        ensure_eq!(MOut::of(&construct_output(m)), *m, "constructed output");
        Ok(())
    });
    ctx.part(
        "small parts",
        60000,
        |g| {
            let x = gen::h(g);
            let y = gen::h(g);
            (gen::utxo(g), gen::ptr(g), (x, y), gen::bytes(g), gen::h(g))
        },
        |(u, p, (k, v), w, h): &(MUtxo, MPtr, (H, H), B, H), o| {
            o.nt(*k != H::default());
            let mut r = UtxoId::new(u.tx.into(), u.idx);
            ensure_eq!(H::from(r.tx_id()), u.tx, "transaction id of a UTXO id");
            ensure_eq!(r.output_index(), u.idx, "output index of a UTXO id");
            r.replace_tx_id(h.into());
            ensure_eq!(MUtxo::of(&r), MUtxo { tx: *h, idx: u.idx }, "UTXO id with the transaction id replaced");
            let r = TxPointer::new(p.height, p.index);
            ensure_eq!((r.block_height(), r.tx_index()), (p.height, p.index), "transaction pointer");
            let r = StorageSlot::new(k.into(), v.into());
            ensure_eq!((H::from(r.key()), H::from(r.value())), (*k, *v), "storage slot");
            let packed = Bytes64::from(&r);
            ensure_eq!((&packed[..32], &packed[32..]), (&k.0[..], &v.0[..]), "packed storage slot");
            ensure!(StorageSlot::from(&packed) == r, "unpacked storage slot");
            let mut wit = Witness::from(w.0.clone());
            ensure_eq!(wit.as_vec(), &w.0, "witness");
            ensure_eq!(wit.as_ref(), &w.0[..], "witness");
            ensure_eq!(Witness::from(&w.0[..]), wit, "witness from a slice");
            wit.as_vec_mut().extend_from_slice(&h.0);
            let mut long = w.0.clone();
            long.extend_from_slice(&h.0);
            let mut other = wit.clone();
            ensure_eq!(wit.into_inner(), long, "extended witness");
            other.extend(k.0);
            long.extend_from_slice(&k.0);
            ensure_eq!(other.as_ref(), &long[..], "witness extended by an iterator");
            other.as_mut()[0] ^= 0x55;
            long[0] ^= 0x55;
            ensure_eq!(other.as_vec(), &long, "witness written to");
            ensure!(Witness::default().as_vec().is_empty(), "default witness");
            Ok(())
        },
    );
    ctx.part("transaction", 60000, gen::small_tx, |m: &MTx, o| {
        o.nt(true);
        let mut t = m.real();
        let k = m.kind;
        ensure_eq!(
            (t.is_script(), t.is_create(), t.is_mint()),
            (k == Kind::Script, k == Kind::Create, k == Kind::Mint),
            "kind of the transaction"
        );
        ensure_eq!(t.as_script().map(MTx::of_script), Some(m.clone()).filter(|_| k == Kind::Script), "as_script");
        ensure_eq!(t.as_create().map(MTx::of_create), Some(m.clone()).filter(|_| k == Kind::Create), "as_create");
        ensure_eq!(t.as_mint().map(MTx::of_mint), Some(m.clone()).filter(|_| k == Kind::Mint), "as_mint");
        ensure_eq!(
            t.as_script_mut().map(|x| MTx::of_script(x)),
            Some(m.clone()).filter(|_| k == Kind::Script),
            "as_script_mut"
        );
        ensure_eq!(
            t.as_create_mut().map(|x| MTx::of_create(x)),
            Some(m.clone()).filter(|_| k == Kind::Create),
            "as_create_mut"
        );
        ensure_eq!(
            t.as_mint_mut().map(|x| MTx::of_mint(x)),
            Some(m.clone()).filter(|_| k == Kind::Mint),
            "as_mint_mut"
        );
        // setters reach every field and no other
        let mut fresh = MTx { kind: k, ..Default::default() }.real();
        val::assign(&mut fresh, m);
        ensure_eq!(MTx::of(&fresh), *m, "transaction filled through setters");
        ensure!(fresh == t, "the filled transaction differs");
        if k == Kind::Create {
            let c = Transaction::create(
                m.price,
                m.limit,
                m.maturity,
                m.bidx,
                m.salt.into(),
                m.real_slots(),
                m.real_inputs(),
                m.real_outputs(),
                m.real_wits(),
            );
            let n = m.wits.get(m.bidx as usize).map_or(0, |w| w.0.len() as u64 / 4);
            ensure_eq!(*c.bytecode_length(), n, "bytecode length derived on construction");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- messages

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Msg {
    sender: H,
    recipient: H,
    nonce: u64,
    nonce32: H,
    amount: u64,
    data: B,
    txid: H,
    idx: u64,
    tx: MTx,
}

pub fn c27(ctx: &mut Ctx) {
    ctx.rule(
        "senders, recipients, nonces, amounts, data, transaction ids and output indexes below 256; ids, nonces \
         and digests against independent SHA-256 of the concatenated fields, the receipt and the appended \
         input field by field; non-trivial: the data is not empty",
    );
    ctx.part(
        "hashes",
        150000,
        |g| Msg {
            sender: gen::h(g),
            recipient: gen::h(g),
            nonce: gen::word(g),
            nonce32: gen::h(g),
            amount: gen::word(g),
            data: gen::bytes(g),
            txid: gen::h(g),
            idx: gen::byte(g) as u64,
            tx: gen::small_exec_tx(g),
        },
        |c, o| {
            o.nt(!c.data.0.is_empty());
            let (s, r): (Address, Address) = (c.sender.into(), c.recipient.into());
            let in_id = sha(&[
                &c.sender.0,
                &c.recipient.0,
                &c.nonce.to_be_bytes(),
                &c.amount.to_be_bytes(),
                &c.data.0,
            ]);
            ensure_eq!(
                H::from(&Input::compute_message_id(&s, &r, c.nonce, c.amount, &c.data.0)),
                in_id,
                "input message id"
            );
            let out = |n: &H| {
                sha(&[&c.sender.0, &c.recipient.0, &n.0, &c.amount.to_be_bytes(), &c.data.0])
            };
            ensure_eq!(
                H::from(&Output::message_id(&s, &r, &c.nonce32.into(), c.amount, &c.data.0)),
                out(&c.nonce32),
                "output message id"
            );
            let nonce = sha(&[&c.txid.0, &[c.idx as u8]]);
            ensure_eq!(H::from(&Output::message_nonce(&c.txid.into(), c.idx)), nonce, "message nonce");
            let digest = sha(&[&c.data.0]);
            ensure_eq!(H::from(&Output::message_digest(&c.data.0)), digest, "message digest");
            let rc = Receipt::message_out_from_tx_output(
                &c.txid.into(),
                c.idx,
                s,
                r,
                c.amount,
                c.data.0.clone(),
            );
            let want = MRcpt::MessageOut {
                mid: out(&nonce),
                sender: c.sender,
                recipient: c.recipient,
                amount: c.amount,
                nonce,
                len: enc::pad_len(c.data.0.len()) as u64,
                digest,
                data: c.data.clone(),
            };
            ensure_eq!(MRcpt::of(&rc), want, "message receipt");
            let mut t = c.tx.real();
            with_exec!(&mut t, t => t.add_unsigned_message_input(s, r, c.nonce, c.amount, c.data.0.clone()));
            let m = MTx::of(&t);
            match m.inputs.last() {
                Some(MIn::MsgSigned { mid, sender, recipient, amount, nonce, data, .. }) => {
                    ensure_eq!(*mid, in_id, "id of the appended input");
                    ensure_eq!(
                        (*sender, *recipient, *amount, *nonce, data),
                        (c.sender, c.recipient, c.amount, c.nonce, &c.data),
                        "appended input"
                    );
                }
                x => return Err(format!("appended {x:?}")),
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- preparation

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Prep {
    tx: MTx,
    steps: Vec<bool>,
    cached: bool,
}

pub fn c28(ctx: &mut Ctx) {
    use fuel_types::bytes::SizedBytes;
    ctx.rule(
        "script and create transactions of every element mixture, one to four preparations in any order, with \
         and without cache, and single inputs and outputs; the whole transaction against a model of the \
         blanked fields; non-trivial: the preparation changes something",
    );
    ctx.part(
        "transaction",
        80000,
        |g| {
            let tx = if g.chance(1, 6) { gen::exec_tx(g) } else { gen::small_exec_tx(g) };
            let tx = gen::hollow(g, tx);
            let n = 1 + g.below(4);
            Prep { tx, steps: (0..n).map(|_| g.chance(1, 2)).collect(), cached: g.chance(1, 3) }
        },
        |c, o| {
            let mut t = c.tx.real();
            if c.cached {
                with_exec!(&mut t, t => t.precompute());
            }
            let size = t.serialized_size();
            let id = enc::id(&c.tx);
            let mut m = c.tx.clone();
            for predicate in &c.steps {
                if *predicate {
                    with_exec!(&mut t, t => { t.prepare_init_predicate(); });
                    m.inputs.iter_mut().for_each(enc::blank_input);
                    m.outputs.iter_mut().for_each(enc::blank_output);
                } else {
                    with_exec!(&mut t, t => { t.prepare_init_script(); });
                    m.outputs.iter_mut().for_each(enc::blank_output_script);
                }
                o.nt(m != c.tx);
                o.class(if *predicate { "for predicates" } else { "for scripts" });
                ensure_eq!(MTx::of(&t), m, "prepared transaction");
                ensure_eq!(t.serialized_size(), size, "size of the prepared transaction");
                ensure_eq!(crate::expect::id_of(&t), id, "id of the prepared transaction");
            }
            with_exec!(&mut t, t => t.precompute());
            ensure_eq!(crate::expect::id_of(&t), id, "id of the prepared transaction, recomputed");
            Ok(())
        },
    );
    ctx.part(
        "parts",
        100000,
        |g| (gen::memory_input(g), gen::output(g)),
        |(i, x): &(MIn, MOut), o| {
            let mut want = i.clone();
            enc::blank_input(&mut want);
            o.nt(want != *i);
            let mut r = i.real();
            for _ in 0..2 {
                r.prepare_init_predicate();
                ensure_eq!(MIn::of(&r), want, "input prepared for predicates");
            }
            let mut want = x.clone();
            enc::blank_output_script(&mut want);
            o.nt(want != *x);
            let mut r = x.real();
            for _ in 0..2 {
                r.prepare_init_script();
                ensure_eq!(MOut::of(&r), want, "output prepared for scripts");
            }
            let mut want = x.clone();
            enc::blank_output(&mut want);
            o.nt(want != *x);
            let mut r = x.real();
            for _ in 0..2 {
                r.prepare_init_predicate();
                ensure_eq!(MOut::of(&r), want, "output prepared for predicates");
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- parameters

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Params {
    start: MParams,
    sets: Vec<(usize, u64)>,
    keep: [bool; 13],
}

fn set_param(p: ConsensusParameters, i: usize, x: u64) -> ConsensusParameters {
    match i {
        0 => p.with_contract_max_size(x),
        1 => p.with_max_inputs(x),
        2 => p.with_max_outputs(x),
        3 => p.with_max_witnesses(x),
        4 => p.with_max_gas_per_tx(x),
        5 => p.with_max_script_length(x),
        6 => p.with_max_script_data_length(x),
        7 => p.with_max_storage_slots(x),
        8 => p.with_max_predicate_length(x),
        9 => p.with_max_predicate_data_length(x),
        10 => p.with_gas_price_factor(x),
        11 => p.with_gas_per_byte(x),
        _ => p.with_max_message_data_length(x),
    }
}

pub fn c30(ctx: &mut Ctx) {
    ctx.rule(
        "arbitrary parameter sets, up to eight setters in any order, and JSON forms with any subset of the \
         parameters; all thirteen values compared after every step; non-trivial: at least one setter, or at \
         least one missing parameter",
    );
    ctx.part(
        "parameters",
        150000,
        |g| {
            let mut start = MParams::default();
            for i in 0..13 {
                if g.chance(1, 2) {
                    start.0[i] = gen::word(g);
                }
            }
            let sets = (0..g.below(9)).map(|_| (g.below(13), gen::word(g))).collect();
            let mut keep = [false; 13];
            for k in &mut keep {
                *k = g.chance(1, 2);
            }
            Params { start, sets, keep }
        },
        |c, o| {
            o.nt(!c.sets.is_empty() || c.keep.contains(&false));
            let mut p = c.start.real();
            let mut m = c.start;
            for (i, x) in &c.sets {
                p = set_param(p, *i, *x);
                m.0[*i] = *x;
                ensure_eq!(MParams::of(&p), m, "parameters after setting {}", PARAM_NAMES[*i]);
            }
            let inputs = m.0[P_INPUTS];
            if inputs <= 1 << 32 {
                ensure_eq!(p.tx_offset() as u64, 40 + 40 * inputs, "transaction offset in memory");
            }
            // partial serialized forms
            let mut j = serde_json::Map::new();
            let mut partial = MParams::default();
            for i in 0..13 {
                if c.keep[i] {
                    j.insert(PARAM_NAMES[i].into(), m.0[i].into());
                    partial.0[i] = m.0[i];
                }
            }
            let text = serde_json::Value::Object(j).to_string();
            let back: ConsensusParameters =
                serde_json::from_str(&text).map_err(|e| format!("partial parameters rejected: {e}"))?;
            ensure_eq!(MParams::of(&back), partial, "parameters from {text}");
            let text = serde_json::to_string(&p).map_err(|e| e.to_string())?;
            let back: ConsensusParameters =
                serde_json::from_str(&text).map_err(|e| format!("parameters rejected: {e}"))?;
            ensure_eq!(MParams::of(&back), m, "parameters after a round-trip");
            ensure!(back == p, "parameters after a round-trip differ");
            Ok(())
        },
    );
    ctx.part("defaults", 1, |g| g.below(1), |_: &usize, o| {
        o.nt(true);
        let want = MParams(PARAM_DEFAULTS);
        ensure_eq!(MParams::of(&ConsensusParameters::DEFAULT), want, "DEFAULT");
        ensure_eq!(MParams::of(&ConsensusParameters::default()), want, "default instance");
        #[allow(deprecated)]
        {
            use fuel_tx::default_parameters::*;
            let published = [
                CONTRACT_MAX_SIZE,
                MAX_INPUTS,
                MAX_OUTPUTS,
                MAX_WITNESSES,
                MAX_GAS_PER_TX,
                MAX_SCRIPT_LENGTH,
                MAX_SCRIPT_DATA_LENGTH,
                MAX_STORAGE_SLOTS,
                MAX_PREDICATE_LENGTH,
                MAX_PREDICATE_DATA_LENGTH,
                GAS_PRICE_FACTOR,
                GAS_PER_BYTE,
                MAX_MESSAGE_DATA_LENGTH,
            ];
            ensure_eq!(MParams(published), want, "published constants");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- listings

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Add {
    Coin { key: usize, utxo: MUtxo, amount: u64, asset: H, ptr: MPtr, maturity: u64 },
    Message { sender: H, recipient: H, nonce: u64, amount: u64, data: B },
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Listing {
    tx: MTx,
    adds: Vec<Add>,
}

fn listings(t: &Transaction, m: &MTx) -> Res {
    let assets: Vec<H> = m.inputs.iter().filter_map(MIn::asset).collect();
    let contracts: Vec<H> = m
        .inputs
        .iter()
        .filter_map(|i| match i {
            MIn::Contract { id, .. } => Some(*id),
            _ => None,
        })
        .collect();
    let set = |xs: &[H]| -> Vec<H> {
        let mut v = xs.to_vec();
        v.sort();
        v.dedup();
        v
    };
    let (a, u, c): (Vec<H>, Vec<H>, Vec<H>) = with_exec!(t, t => (
        t.input_asset_ids().map(H::from).collect(),
        t.input_asset_ids_unique().map(H::from).collect(),
        t.input_contracts().map(H::from).collect(),
    ));
    ensure_eq!(a, assets, "input assets");
    let mut su = u.clone();
    su.sort();
    ensure_eq!(su, set(&assets), "unique input assets");
    let mut sc = c.clone();
    sc.sort();
    ensure_eq!(sc, set(&contracts), "input contracts");
    Ok(())
}

pub fn c32(ctx: &mut Ctx) {
    ctx.rule(
        "script and create transactions whose assets and contracts collide, up to five additions of unsigned \
         inputs; listings against the inputs and the whole transaction against a model after each addition; \
         non-trivial: at least two inputs or one addition",
    );
    ctx.part(
        "listings",
        100000,
        |g| {
            let tx = gen::small_exec_tx(g);
            let mut tx = gen::hollow(g, tx);
            if g.chance(1, 2) {
                // collisions beyond neighbours
                let n = if g.chance(1, 100) { 200 + g.below(200) } else { g.below(9) };
                tx.inputs.clear();
                let one = gen::h(g);
                let alike = if g.chance(1, 3) { g.pick(&[0, 2, 2]) } else { &5 };
                for _ in 0..n {
                    let v = if *alike < 5 { *alike } else { g.below(5) };
                    let mut x = gen::input_of(g, v, true);
                    let h = match g.below(4) {
                        0 => one,
                        1 => gen::near_h(g, &one),
                        2 => gen::h(g),
                        _ => gen::small_h(g.below(3) as u8),
                    };
                    match &mut x {
                        MIn::CoinSigned { asset, .. } | MIn::CoinPred { asset, .. } => *asset = h,
                        MIn::Contract { id, .. } => *id = h,
                        _ => {}
                    }
                    tx.inputs.push(x);
                }
            }
            if g.chance(1, 40) {
                let n = 240 + g.below(16);
                tx.wits = (0..n).map(|_| B(vec![1])).collect();
            }
            // witness indexes end at 255
            let adds = (0..g.below(6).min(256 - tx.wits.len().min(256)))
                .map(|_| {
                    if g.chance(1, 2) {
                        Add::Coin {
                            key: g.below(gen::KEYS),
                            utxo: gen::utxo(g),
                            amount: gen::word(g),
                            asset: gen::h(g),
                            ptr: gen::ptr(g),
                            maturity: gen::word(g),
                        }
                    } else {
                        let n = gen::small_length(g);
                        Add::Message {
                            sender: gen::h(g),
                            recipient: gen::h(g),
                            nonce: gen::word(g),
                            amount: gen::word(g),
                            data: gen::filled(g, n),
                        }
                    }
                })
                .collect();
            Listing { tx, adds }
        },
        |c, o| {
            o.nt(c.tx.inputs.len() >= 2 || !c.adds.is_empty());
            let mut t = c.tx.real();
            let mut m = c.tx.clone();
            listings(&t, &m)?;
            for a in &c.adds {
                let wit = m.wits.len() as u8;
                match a.clone() {
                    Add::Coin { key, utxo, amount, asset, ptr, maturity } => {
                        o.class("coin added");
                        with_exec!(&mut t, t => t.add_unsigned_coin_input(
                            utxo.real(), &keys::public(key), amount, asset.into(), ptr.real(), maturity));
                        m.inputs.push(MIn::CoinSigned {
                            utxo,
                            owner: keys::addr(key),
                            amount,
                            asset,
                            ptr,
                            wit,
                            maturity,
                        });
                    }
                    Add::Message { sender, recipient, nonce, amount, data } => {
                        o.class("message added");
                        with_exec!(&mut t, t => t.add_unsigned_message_input(
                            sender.into(), recipient.into(), nonce, amount, data.0.clone()));
                        let mid = sha(&[
                            &sender.0,
                            &recipient.0,
                            &nonce.to_be_bytes(),
                            &amount.to_be_bytes(),
                            &data.0,
                        ]);
                        m.inputs.push(MIn::MsgSigned { mid, sender, recipient, amount, nonce, wit, data });
                    }
                }
                m.wits.push(B(vec![]));
                ensure_eq!(MTx::of(&t), m, "transaction after an addition");
                listings(&t, &m)?;
            }
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- receipts

fn receipt_table(r: &MRcpt) -> Table {
    let mut t = Table::new();
    let mut set = |k: &'static str, a: A| {
        t.insert(k, a);
    };
    match r {
        MRcpt::Call { id, to, amount, asset, gas, p1, p2, pc, is } => {
            set("id", id.a());
            set("to", to.a());
            set("amount", amount.a());
            set("asset_id", asset.a());
            set("gas", gas.a());
            set("param1", p1.a());
            set("param2", p2.a());
            set("pc", pc.a());
            set("is", is.a());
        }
        MRcpt::Return { id, val, pc, is } => {
            set("id", id.a());
            set("val", val.a());
            set("pc", pc.a());
            set("is", is.a());
        }
        MRcpt::ReturnData { id, ptr, len, digest, data, pc, is } => {
            set("id", id.a());
            set("ptr", ptr.a());
            set("len", len.a());
            set("is_empty", A::Yes(*len == 0));
            set("digest", digest.a());
            set("data", data.a());
            set("pc", pc.a());
            set("is", is.a());
        }
        MRcpt::Panic { id, reason, instr, pc, is, contract } => {
            set("id", id.a());
            set("reason", instr_result(*reason, *instr).a());
            set("pc", pc.a());
            set("is", is.a());
            if let Some(c) = contract {
                set("contract_id", c.a());
            }
        }
        MRcpt::Revert { id, ra, pc, is } => {
            set("id", id.a());
            set("ra", ra.a());
            set("pc", pc.a());
            set("is", is.a());
        }
        MRcpt::Log { id, ra, rb, rc, rd, pc, is } => {
            set("id", id.a());
            set("ra", ra.a());
            set("rb", rb.a());
            set("rc", rc.a());
            set("rd", rd.a());
            set("pc", pc.a());
            set("is", is.a());
        }
        MRcpt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => {
            set("id", id.a());
            set("ra", ra.a());
            set("rb", rb.a());
            set("ptr", ptr.a());
            set("len", len.a());
            set("is_empty", A::Yes(*len == 0));
            set("digest", digest.a());
            set("data", data.a());
            set("pc", pc.a());
            set("is", is.a());
        }
        MRcpt::Transfer { id, to, amount, asset, pc, is } => {
            set("id", id.a());
            set("to", to.a());
            set("amount", amount.a());
            set("asset_id", asset.a());
            set("pc", pc.a());
            set("is", is.a());
        }
        MRcpt::TransferOut { id, to, amount, asset, pc, is } => {
            set("id", id.a());
            set("to_address", to.a());
            set("amount", amount.a());
            set("asset_id", asset.a());
            set("pc", pc.a());
            set("is", is.a());
        }
        MRcpt::ScriptResult { result, gas } => {
            set("result", result.a());
            set("gas_used", gas.a());
        }
        MRcpt::MessageOut { mid, sender, recipient, amount, nonce, len, digest, data } => {
            set("message_id", mid.a());
            set("sender", sender.a());
            set("recipient", recipient.a());
            set("amount", amount.a());
            set("nonce", nonce.a());
            set("len", len.a());
            set("is_empty", A::Yes(*len == 0));
            set("digest", digest.a());
            set("data", data.a());
        }
    }
    t
}

fn receipt_accessors(r: &Receipt) -> Vec<(&'static str, A)> {
    vec![
        ("id", r.id().a()),
        ("pc", r.pc().a()),
        ("is", r.is().a()),
        ("to", r.to().a()),
        ("to_address", r.to_address().a()),
        ("amount", r.amount().a()),
        ("asset_id", r.asset_id().a()),
        ("gas", r.gas().a()),
        ("param1", r.param1().a()),
        ("param2", r.param2().a()),
        ("val", r.val().a()),
        ("ptr", r.ptr().a()),
        ("len", r.len().a()),
        ("is_empty", r.is_empty().a()),
        ("digest", r.digest().a()),
        ("data", r.data().a()),
        ("reason", r.reason().a()),
        ("ra", r.ra().a()),
        ("rb", r.rb().a()),
        ("rc", r.rc().a()),
        ("rd", r.rd().a()),
        ("result", r.result().a()),
        ("gas_used", r.gas_used().a()),
        ("message_id", r.message_id().a()),
        ("sender", r.sender().a()),
        ("recipient", r.recipient().a()),
        ("nonce", r.nonce().a()),
        ("contract_id", r.contract_id().a()),
    ]
}

/// The crate's constructors; `with` asks for the variant that takes the length.
fn construct(r: &MRcpt, with: bool) -> Receipt {
    match r.clone() {
        MRcpt::Call { id, to, amount, asset, gas, p1, p2, pc, is } => {
            Receipt::call(id.into(), to.into(), amount, asset.into(), gas, p1, p2, pc, is)
        }
        MRcpt::Return { id, val, pc, is } => Receipt::ret(id.into(), val, pc, is),
        MRcpt::ReturnData { id, ptr, len, digest, data, pc, is } if with => {
            Receipt::return_data_with_len(id.into(), ptr, len, digest.into(), data.0, pc, is)
        }
        MRcpt::ReturnData { id, ptr, digest, data, pc, is, .. } => {
            Receipt::return_data(id.into(), ptr, digest.into(), data.0, pc, is)
        }
        MRcpt::Panic { id, reason, instr, pc, is, contract } => {
            Receipt::panic(id.into(), instr_result(reason, instr), pc, is)
                .with_panic_contract_id(contract.map(Into::into))
        }
        MRcpt::Revert { id, ra, pc, is } => Receipt::revert(id.into(), ra, pc, is),
        MRcpt::Log { id, ra, rb, rc, rd, pc, is } => Receipt::log(id.into(), ra, rb, rc, rd, pc, is),
        MRcpt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } if with => {
            Receipt::log_data_with_len(id.into(), ra, rb, ptr, len, digest.into(), data.0, pc, is)
        }
        MRcpt::LogData { id, ra, rb, ptr, digest, data, pc, is, .. } => {
            Receipt::log_data(id.into(), ra, rb, ptr, digest.into(), data.0, pc, is)
        }
        MRcpt::Transfer { id, to, amount, asset, pc, is } => {
            Receipt::transfer(id.into(), to.into(), amount, asset.into(), pc, is)
        }
        MRcpt::TransferOut { id, to, amount, asset, pc, is } => {
            Receipt::transfer_out(id.into(), to.into(), amount, asset.into(), pc, is)
        }
        MRcpt::ScriptResult { result, gas } => Receipt::script_result(script_result(result), gas),
        MRcpt::MessageOut { mid, sender, recipient, amount, nonce, len, digest, data } if with => {
            Receipt::message_out_with_len(
                mid.into(),
                sender.into(),
                recipient.into(),
                amount,
                nonce.into(),
                len,
                digest.into(),
                data.0,
            )
        }
        MRcpt::MessageOut { mid, sender, recipient, amount, nonce, digest, data, .. } => Receipt::message_out(
            mid.into(),
            sender.into(),
            recipient.into(),
            amount,
            nonce.into(),
            digest.into(),
            data.0,
        ),
    }
}

pub fn c33(ctx: &mut Ctx) {
    ctx.rule(
        "receipts of every kind with unrelated field values built by the constructors with and without \
         length, every accessor against a table of the kind's fields, and result words of every size; \
         non-trivial: every receipt",
    );
    ctx.part(
        "receipts",
        150000,
        |g| (gen::receipt(g), gen::h(g)),
        |(m, extra): &(MRcpt, H), o| {
            o.nt(true);
            o.class(MVal::Rcpt(m.clone()).class());
            compare(receipt_accessors(&m.real()), receipt_table(m), "receipt")?;
            let r = construct(m, true);
            ensure_eq!(MRcpt::of(&r), *m, "constructed receipt");
            compare(receipt_accessors(&r), receipt_table(m), "constructed receipt")?;
            let mut short = m.clone();
            match &mut short {
                MRcpt::ReturnData { len, data, .. }
                | MRcpt::LogData { len, data, .. }
                | MRcpt::MessageOut { len, data, .. } => *len = enc::pad_len(data.0.len()) as u64,
                _ => {}
            }
            ensure_eq!(MRcpt::of(&construct(m, false)), short, "receipt constructed without length");
            let mut p = m.clone();
            if let MRcpt::Panic { contract, .. } = &mut p {
                *contract = Some(*extra);
            }
            let r = m.real().with_panic_contract_id(Some(extra.into()));
            ensure_eq!(MRcpt::of(&r), p, "receipt with a panic contract id");
            if let MRcpt::Panic { contract, .. } = &mut p {
                *contract = None;
            }
            ensure_eq!(MRcpt::of(&r.with_panic_contract_id(None)), p, "receipt with the contract id removed");
            Ok(())
        },
    );
    ctx.part("results", 60000, gen::word, |x: &u64, o| {
        o.nt(true);
        o.class(if *x < 3 { "named result" } else { "other result" });
        let r = ScriptExecutionResult::from(*x);
        let named = match x {
            0 => r == ScriptExecutionResult::Success,
            1 => r == ScriptExecutionResult::Revert,
            2 => r == ScriptExecutionResult::Panic,
            n => r == ScriptExecutionResult::GenericFailure(*n),
        };
        ensure!(named, "the result of {x} is {r:?}");
        ensure_eq!(u64::from(r), *x, "word of the result");
        ensure_eq!(u64::from(ScriptExecutionResult::GenericFailure(*x)), *x, "word of a generic failure");
        Ok(())
    });
}

// ---------------------------------------------------------------- equality

fn edit(g: &mut G, v: &MVal) -> MVal {
    match v {
        MVal::Tx(t) => {
            let mut t = t.clone();
            gen::edit_tx(g, &mut t);
            MVal::Tx(t)
        }
        MVal::Typed(t) => {
            let mut t = t.clone();
            gen::edit_tx(g, &mut t);
            MVal::Typed(t)
        }
        MVal::In(x) => {
            let mut x = x.clone();
            gen::edit_input(g, &mut x);
            MVal::In(x)
        }
        MVal::Out(x) => {
            let mut x = x.clone();
            gen::edit_output(g, &mut x);
            MVal::Out(x)
        }
        MVal::Wit(w) => {
            let mut w = w.clone();
            gen::edit_bytes(g, &mut w, false);
            MVal::Wit(w)
        }
        MVal::Slot(k, x) => match g.below(3) {
            0 => MVal::Slot(gen::h(g), *x),
            1 => MVal::Slot(*k, gen::h(g)),
            _ => MVal::Slot(*x, *k),
        },
        MVal::Utxo(u) => {
            let mut u = *u;
            if g.chance(1, 2) {
                u.idx = gen::byte(g)
            } else {
                u.tx = gen::h(g)
            }
            MVal::Utxo(u)
        }
        MVal::Ptr(p) => {
            let mut p = *p;
            if g.chance(1, 2) {
                p.index = gen::word(g) as u16
            } else {
                p.height = gen::word(g) as u32
            }
            MVal::Ptr(p)
        }
        MVal::Rcpt(r) => {
            let mut r = r.clone();
            edit_receipt(g, &mut r);
            MVal::Rcpt(r)
        }
    }
}

fn edit_receipt(g: &mut G, r: &mut MRcpt) {
    let mut words: Vec<&mut u64> = Vec::new();
    let mut hashes: Vec<&mut H> = Vec::new();
    let mut blobs: Vec<&mut B> = Vec::new();
    match r {
        MRcpt::Call { id, to, amount, asset, gas, p1, p2, pc, is } => {
            words.extend([amount, gas, p1, p2, pc, is]);
            hashes.extend([id, to, asset]);
        }
        MRcpt::Return { id, val, pc, is } => {
            words.extend([val, pc, is]);
            hashes.push(id);
        }
        MRcpt::ReturnData { id, ptr, len, digest, data, pc, is } => {
            words.extend([ptr, len, pc, is]);
            hashes.extend([id, digest]);
            blobs.push(data);
        }
        MRcpt::Panic { id, pc, is, contract, .. } => {
            words.extend([pc, is]);
            hashes.push(id);
            hashes.extend(contract.as_mut());
        }
        MRcpt::Revert { id, ra, pc, is } => {
            words.extend([ra, pc, is]);
            hashes.push(id);
        }
        MRcpt::Log { id, ra, rb, rc, rd, pc, is } => {
            words.extend([ra, rb, rc, rd, pc, is]);
            hashes.push(id);
        }
        MRcpt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => {
            words.extend([ra, rb, ptr, len, pc, is]);
            hashes.extend([id, digest]);
            blobs.push(data);
        }
        MRcpt::Transfer { id, to, amount, asset, pc, is }
        | MRcpt::TransferOut { id, to, amount, asset, pc, is } => {
            words.extend([amount, pc, is]);
            hashes.extend([id, to, asset]);
        }
        MRcpt::ScriptResult { result, gas } => words.extend([result, gas]),
        MRcpt::MessageOut { mid, sender, recipient, amount, nonce, len, digest, data } => {
            words.extend([amount, len]);
            hashes.extend([mid, sender, recipient, nonce, digest]);
            blobs.push(data);
        }
    }
    let n = g.below(words.len() + hashes.len() + blobs.len());
    if n < words.len() {
        *words[n] = gen::word(g);
    } else if n < words.len() + hashes.len() {
        *hashes[n - words.len()] = gen::h(g);
    } else {
        gen::edit_bytes(g, blobs[n - words.len() - hashes.len()], false);
    }
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Eqs {
    a: MVal,
    b: MVal,
    cached: (bool, bool),
}

fn warm(r: &mut Real) {
    match r {
        Real::Tx(t) => crate::with_tx!(t, t => t.precompute()),
        Real::Script(t) => t.precompute(),
        Real::Create(t) => t.precompute(),
        Real::Mint(t) => t.precompute(),
        _ => {}
    }
}

pub fn c34(ctx: &mut Ctx) {
    ctx.rule(
        "pairs of values of the same sort (a value and a copy of it with zero or one edit, or an unrelated \
         one), each with or without a computed cache; equality and hashing against the descriptions, and \
         triples of UTXO ids, pointers, slots and contents for ordering; pairs of checked transactions that \
         differ in content, height, parameters or recorded checks, or not at all; pairs of fees, parameters, \
         results and contracts; non-trivial: the pair is equal or one edit apart, or the components collide",
    );
    ctx.part(
        "equality",
        150000,
        |g| {
            let a = val::any_val(g);
            let b = match g.below(5) {
                0 => a.clone(),
                4 => val::same_sort(g, a.sort()),
                _ => edit(g, &a),
            };
            Eqs { a, b, cached: (g.chance(1, 2), g.chance(1, 2)) }
        },
        |c, o| {
            let (mut x, mut y) = (c.a.real(), c.b.real());
            if c.cached.0 {
                warm(&mut x);
            }
            if c.cached.1 {
                warm(&mut y);
            }
            let same = c.a.on_wire() == c.b.on_wire();
            o.nt(true);
            o.class(if same { "equal" } else { "different" });
            fn eq<T: PartialEq + Hash>(a: &T, b: &T) -> (bool, bool, bool, bool) {
                #[allow(clippy::partialeq_ne_impl)]
                (a == b, b == a, !(a != b), hash_of(a) == hash_of(b))
            }
            let (e, f, n, h) = match (&x, &y) {
                (Real::Tx(a), Real::Tx(b)) => eq(a, b),
                (Real::Script(a), Real::Script(b)) => eq(a, b),
                (Real::Create(a), Real::Create(b)) => eq(a, b),
                (Real::Mint(a), Real::Mint(b)) => eq(a, b),
                (Real::In(a), Real::In(b)) => eq(a, b),
                (Real::Out(a), Real::Out(b)) => eq(a, b),
                (Real::Wit(a), Real::Wit(b)) => eq(a, b),
                (Real::Slot(a), Real::Slot(b)) => eq(a, b),
                (Real::Utxo(a), Real::Utxo(b)) => eq(a, b),
                (Real::Ptr(a), Real::Ptr(b)) => eq(a, b),
                (Real::Rcpt(a), Real::Rcpt(b)) => eq(a, b),
                _ => panic!("harness: sorts differ"),
            };
            ensure_eq!((e, f, n), (same, same, same), "equality of {} pairs", if same { "equal" } else { "different" });
            ensure!(!same || h, "equal values hash differently");
            // different values practically always hash differently; the claim is only about equal ones
            with_real!(&x, v => {
                #[allow(clippy::clone_on_copy)]
                let w = v.clone();
                ensure!(w == *v && hash_of(&w) == hash_of(v), "a clone differs");
            });
            Ok(())
        },
    );
    ctx.part(
        "order",
        150000,
        |g| {
            let hs = || gen::small_h(0);
            let base = hs();
            let near = |g: &mut G| {
                let mut x = base;
                match g.below(4) {
                    0 => {}
                    1 => x.0[0] = gen::byte(g),
                    2 => x.0[31] = gen::byte(g),
                    _ => x = gen::h(g),
                }
                x
            };
            let v: Vec<(H, H, u8, u32, u16)> = (0..3)
                .map(|_| {
                    let a = near(g);
                    let b = near(g);
                    (a, b, gen::byte(g), gen::word(g) as u32, *g.pick(&[0, 1, 255, 256, 65535]))
                })
                .collect();
            v
        },
        |v: &Vec<(H, H, u8, u32, u16)>, o| {
            o.nt(true);
            for (ha, va, ia, ba, ta) in v {
                for (hb, vb, ib, bb, tb) in v {
                    let (u, w) = (UtxoId::new(ha.into(), *ia), UtxoId::new(hb.into(), *ib));
                    ensure_eq!(u.cmp(&w), (ha, ia).cmp(&(hb, ib)), "order of UTXO ids");
                    ensure_eq!(u.partial_cmp(&w), Some(u.cmp(&w)), "partial order of UTXO ids");
                    let (p, q) = (TxPointer::new(*ba, *ta), TxPointer::new(*bb, *tb));
                    ensure_eq!(p.cmp(&q), (ba, ta).cmp(&(bb, tb)), "order of transaction pointers");
                    ensure_eq!(p.partial_cmp(&q), Some(p.cmp(&q)), "partial order of pointers");
                    let (s, t) =
                        (StorageSlot::new(ha.into(), va.into()), StorageSlot::new(hb.into(), vb.into()));
                    if ha != hb || va == vb {
                        ensure_eq!(s.cmp(&t), (ha, va).cmp(&(hb, vb)), "order of storage slots");
                        ensure_eq!(s.partial_cmp(&t), Some(s.cmp(&t)), "partial order of storage slots");
                    }
                }
            }
            // sorting slots by the crate's order is what a create transaction needs
            let mut slots: Vec<StorageSlot> =
                v.iter().map(|x| StorageSlot::new(x.0.into(), x.1.into())).collect();
            slots.sort();
            ensure!(slots.windows(2).all(|w| H::from(w[0].key()) <= H::from(w[1].key())), "sorted slots");
            Ok(())
        },
    );
    ctx.part(
        "checked",
        6000,
        |g| {
            let a = signed_case(g);
            let mut b = a.clone();
            let full = (g.chance(1, 2), g.chance(1, 2));
            match g.below(7) {
                0 => b.height = b.height.wrapping_add(1),
                1 => b.params.0[P_GPB] = b.params.0[P_GPB].wrapping_add(1),
                2 => b.params.0[P_INPUTS] = b.params.0[P_INPUTS].wrapping_add(1),
                3 => gen::edit_malleable(g, &mut b.tx),
                4 => gen::edit_tx(g, &mut b.tx),
                _ => {}
            }
            (a, b, full)
        },
        |(a, b, full), o| {
            let forms = |c: &gen::Checked, full: bool| both(&c.tx.real(), c, full);
            let (x, y) = (forms(a, full.0), forms(b, full.1));
            for (x, y) in x.iter().zip(&y) {
                let (x, y) = match (x, y) {
                    (Ok(x), Ok(y)) => (x, y),
                    _ => {
                        o.class("rejected");
                        continue;
                    }
                };
                o.nt(true);
                let (m, n) = (meaning(x)?, meaning(y)?);
                let same = m == n;
                o.class(if same { "equal" } else { "different" });
                ensure_eq!((x == y, y == x), (same, same), "equality of checked transactions");
                ensure!(!same || hash_of(x) == hash_of(y), "equal checked transactions hash differently");
            }
            Ok(())
        },
    );
    ctx.part(
        "small values",
        40000,
        |g| {
            let a: [u64; 13] = std::array::from_fn(|_| gen::word(g));
            let mut b = a;
            if g.chance(2, 3) {
                let n = if g.chance(1, 2) { 4 } else { 13 };
                b[g.below(n)] = gen::word(g);
            }
            (a, b)
        },
        |(a, b): &([u64; 13], [u64; 13]), o| {
            o.nt(true);
            fn eq<T: PartialEq + Hash>(a: &T, b: &T, same: bool, what: &str) -> Res {
                ensure_eq!((a == b, b == a), (same, same), "equality of {what}");
                ensure!(!same || hash_of(a) == hash_of(b), "equal {what} hash differently");
                Ok(())
            }
            let (p, q) = (MParams(*a).real(), MParams(*b).real());
            eq(&p, &q, a == b, "parameters")?;
            let fee = |x: &[u64; 13]| TransactionFee::new(x[0], x[1], x[2], x[3]);
            eq(&fee(a), &fee(b), a[..4] == b[..4], "fees")?;
            let result = |x: u64| ScriptExecutionResult::from(x);
            eq(&result(a[0]), &result(b[0]), a[0] == b[0], "results")?;
            let code = |x: &[u64; 13]| Contract::from(x[..2].iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>());
            eq(&code(a), &code(b), a[..2] == b[..2], "contracts")?;
            Ok(())
        },
    );
    ctx.part(
        "sets",
        10000,
        |g| {
            let n = 2 + g.below(7);
            let first = val::small_tx_val(g);
            let mut v = vec![first];
            for _ in 1..n {
                let x = v[g.below(v.len())].clone();
                v.push(if g.chance(1, 2) { x } else { edit(g, &x) });
            }
            v
        },
        |v: &Vec<MVal>, o| {
            o.nt(true);
            let txs: Vec<Transaction> = v
                .iter()
                .enumerate()
                .map(|(i, x)| match x {
                    MVal::Tx(t) | MVal::Typed(t) => {
                        let mut r = t.real();
                        if i % 2 == 1 {
                            crate::with_tx!(&mut r, r => r.precompute());
                        }
                        r
                    }
                    _ => panic!("harness: not a transaction"),
                })
                .collect();
            let models: HashSet<MTx> = txs.iter().map(MTx::of).collect();
            let reals: HashSet<Transaction> = txs.into_iter().collect();
            ensure_eq!(reals.len(), models.len(), "distinct transactions");
            Ok(())
        },
    );
}

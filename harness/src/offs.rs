//! Every offset the crate reports, and the same from the reference layout.

use crate::enc;
use crate::engine::Res;
use crate::fields::*;
use crate::model::*;
use fuel_tx::*;

pub type Offsets = Vec<(String, Option<(usize, usize)>)>;

fn past(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    v.extend([n, n + 1, n + 255, usize::MAX / 2, usize::MAX]);
    v
}

/// Every offset the crate reports.
pub fn offsets(t: &Transaction) -> Offsets {
    let mut v: Offsets = Vec::new();
    fn exec<T>(t: &T, v: &mut Offsets)
    where
        T: field::GasPrice
            + field::GasLimit
            + field::Maturity
            + field::Inputs
            + field::Outputs
            + field::Witnesses,
    {
        let mut p = |k: &str, x: usize| v.push((k.into(), Some((x, 0))));
        p("gas_price", t.gas_price_offset());
        p("gas_price static", T::gas_price_offset_static());
        p("gas_limit", t.gas_limit_offset());
        p("gas_limit static", T::gas_limit_offset_static());
        p("maturity", t.maturity_offset());
        p("maturity static", T::maturity_offset_static());
        p("inputs", t.inputs_offset());
        p("outputs", t.outputs_offset());
        p("witnesses", t.witnesses_offset());
        for i in past(t.inputs().len()) {
            v.push((format!("input {i}"), t.inputs_offset_at(i).map(|x| (x, 0))));
            v.push((format!("predicate {i}"), t.inputs_predicate_offset_at(i)));
        }
        for i in past(t.outputs().len()) {
            v.push((format!("output {i}"), t.outputs_offset_at(i).map(|x| (x, 0))));
        }
        for i in past(t.witnesses().len()) {
            v.push((format!("witness {i}"), t.witnesses_offset_at(i).map(|x| (x, 0))));
        }
    }
    match t {
        Transaction::Script(s) => {
            exec(s, &mut v);
            let mut p = |k: &str, x: usize| v.push((k.into(), Some((x, 0))));
            p("receipts_root", s.receipts_root_offset());
            p("receipts_root static", <Script as field::ReceiptsRoot>::receipts_root_offset_static());
            p("script", s.script_offset());
            p("script static", <Script as field::Script>::script_offset_static());
            p("script_data", s.script_data_offset());
        }
        Transaction::Create(c) => {
            exec(c, &mut v);
            let mut p = |k: &str, x: usize| v.push((k.into(), Some((x, 0))));
            p("bytecode_length", c.bytecode_length_offset());
            p("bytecode_length static", <Create as field::BytecodeLength>::bytecode_length_offset_static());
            p("bytecode_witness_index", c.bytecode_witness_index_offset());
            p(
                "bytecode_witness_index static",
                <Create as field::BytecodeWitnessIndex>::bytecode_witness_index_offset_static(),
            );
            p("salt", c.salt_offset());
            p("salt static", <Create as field::Salt>::salt_offset_static());
            p("storage_slots", c.storage_slots_offset());
            p("storage_slots static", <Create as field::StorageSlots>::storage_slots_offset_static());
            for i in past(c.storage_slots().len()) {
                v.push((format!("slot {i}"), c.storage_slots_offset_at(i).map(|x| (x, 0))));
            }
        }
        Transaction::Mint(m) => {
            let mut p = |k: &str, x: usize| v.push((k.into(), Some((x, 0))));
            p("tx_pointer", m.tx_pointer_offset());
            p("tx_pointer static", <Mint as field::TxPointer>::tx_pointer_static());
            p("outputs", m.outputs_offset());
            for i in past(m.outputs().len()) {
                v.push((format!("output {i}"), m.outputs_offset_at(i).map(|x| (x, 0))));
            }
        }
    }
    v
}

/// The same from the reference layout.
pub fn want_offsets(t: &MTx) -> Offsets {
    let l = enc::layout(t);
    let mut v: Offsets = Vec::new();
    let mut p = |k: &str, x: usize| v.push((k.into(), Some((x, 0))));
    if t.is_mint() {
        p("tx_pointer", l.ptr);
        p("tx_pointer static", l.ptr);
        p("outputs", l.outputs_at);
    } else {
        for (k, x) in [("gas_price", l.price), ("gas_limit", l.limit), ("maturity", l.maturity)] {
            p(k, x);
            p(&format!("{k} static"), x);
        }
        p("inputs", l.inputs_at);
        p("outputs", l.outputs_at);
        p("witnesses", l.wits_at);
        for i in past(t.inputs.len()) {
            v.push((format!("input {i}"), l.inputs.get(i).map(|x| (*x, 0))));
            v.push((format!("predicate {i}"), l.preds.get(i).copied().flatten()));
        }
    }
    for i in past(t.outputs.len()) {
        v.push((format!("output {i}"), l.outputs.get(i).map(|x| (*x, 0))));
    }
    if !t.is_mint() {
        for i in past(t.wits.len()) {
            v.push((format!("witness {i}"), l.wits.get(i).map(|x| (*x, 0))));
        }
    }
    let mut p = |k: &str, x: usize| v.push((k.into(), Some((x, 0))));
    match t.kind {
        Kind::Script => {
            p("receipts_root", l.rroot);
            p("receipts_root static", l.rroot);
            p("script", l.script);
            p("script static", l.script);
            p("script_data", l.data);
        }
        Kind::Create => {
            for (k, x) in [
                ("bytecode_length", l.blen),
                ("bytecode_witness_index", l.bidx),
                ("salt", l.salt),
                ("storage_slots", l.slots_at),
            ] {
                p(k, x);
                p(&format!("{k} static"), x);
            }
            for i in past(t.slots.len()) {
                v.push((format!("slot {i}"), l.slots.get(i).map(|x| (*x, 0))));
            }
        }
        Kind::Mint => {}
    }
    v
}

pub fn compare_offsets(got: &Offsets, want: &Offsets, what: &str) -> Res {
    ensure_eq!(got.len(), want.len(), "{what}: number of offsets");
    for (a, b) in got.iter().zip(want) {
        ensure_eq!(a, b, "{what}");
    }
    Ok(())
}


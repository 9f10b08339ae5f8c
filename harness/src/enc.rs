//! Independent reference encoder of the Fuel transaction format, and the reference transaction id.

use crate::model::*;
use sha2::{Digest, Sha256};

pub fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    H(h.finalize().into())
}

fn w(o: &mut Vec<u8>, x: u64) {
    o.extend_from_slice(&x.to_be_bytes());
}
fn h(o: &mut Vec<u8>, x: &H) {
    o.extend_from_slice(&x.0);
}
pub fn pad_len(n: usize) -> usize {
    n.div_ceil(8) * 8
}
fn pad(o: &mut Vec<u8>, b: &[u8]) {
    o.extend_from_slice(b);
    o.resize(o.len() + pad_len(b.len()) - b.len(), 0);
}

pub fn utxo(o: &mut Vec<u8>, u: &MUtxo) {
    h(o, &u.tx);
    w(o, u.idx as u64);
}
pub fn ptr(o: &mut Vec<u8>, p: &MPtr) {
    w(o, p.height as u64);
    w(o, p.index as u64);
}

/// Encodes an input; returns the offset of the predicate within it, if it has one.
pub fn input(o: &mut Vec<u8>, i: &MIn) -> Option<usize> {
    let start = o.len();
    match i {
        MIn::CoinSigned { utxo: u, owner, amount, asset, ptr: p, wit, maturity } => {
            w(o, 0);
            utxo(o, u);
            h(o, owner);
            w(o, *amount);
            h(o, asset);
            ptr(o, p);
            w(o, *wit as u64);
            w(o, *maturity);
            w(o, 0);
            w(o, 0);
            None
        }
        MIn::CoinPred { utxo: u, owner, amount, asset, ptr: p, maturity, pred, pdata } => {
            w(o, 0);
            utxo(o, u);
            h(o, owner);
            w(o, *amount);
            h(o, asset);
            ptr(o, p);
            w(o, 0);
            w(o, *maturity);
            w(o, pred.0.len() as u64);
            w(o, pdata.0.len() as u64);
            let at = o.len() - start;
            pad(o, &pred.0);
            pad(o, &pdata.0);
            Some(at)
        }
        MIn::Contract { utxo: u, broot, sroot, ptr: p, id } => {
            w(o, 1);
            utxo(o, u);
            h(o, broot);
            h(o, sroot);
            ptr(o, p);
            h(o, id);
            None
        }
        MIn::MsgSigned { mid, sender, recipient, amount, nonce, wit, data } => {
            w(o, 2);
            h(o, mid);
            h(o, sender);
            h(o, recipient);
            w(o, *amount);
            w(o, *nonce);
            w(o, *wit as u64);
            w(o, data.0.len() as u64);
            w(o, 0);
            w(o, 0);
            pad(o, &data.0);
            None
        }
        MIn::MsgPred { mid, sender, recipient, amount, nonce, data, pred, pdata } => {
            w(o, 2);
            h(o, mid);
            h(o, sender);
            h(o, recipient);
            w(o, *amount);
            w(o, *nonce);
            w(o, 0);
            w(o, data.0.len() as u64);
            w(o, pred.0.len() as u64);
            w(o, pdata.0.len() as u64);
            pad(o, &data.0);
            let at = o.len() - start;
            pad(o, &pred.0);
            pad(o, &pdata.0);
            Some(at)
        }
    }
}

pub fn output(o: &mut Vec<u8>, x: &MOut) {
    match x {
        MOut::Coin { to, amount, asset } => {
            w(o, 0);
            h(o, to);
            w(o, *amount);
            h(o, asset);
        }
        MOut::Contract { idx, broot, sroot } => {
            w(o, 1);
            w(o, *idx as u64);
            h(o, broot);
            h(o, sroot);
        }
        MOut::Message { recipient, amount } => {
            w(o, 2);
            h(o, recipient);
            w(o, *amount);
        }
        MOut::Change { to, amount, asset } => {
            w(o, 3);
            h(o, to);
            w(o, *amount);
            h(o, asset);
        }
        MOut::Variable { to, amount, asset } => {
            w(o, 4);
            h(o, to);
            w(o, *amount);
            h(o, asset);
        }
        MOut::Created { id, sroot } => {
            w(o, 5);
            h(o, id);
            h(o, sroot);
        }
    }
}

pub fn witness(o: &mut Vec<u8>, x: &B) {
    w(o, x.0.len() as u64);
    pad(o, &x.0);
}

pub fn slot(o: &mut Vec<u8>, s: &(H, H)) {
    h(o, &s.0);
    h(o, &s.1);
}

/// The encoding of a transaction together with where everything is in it.
#[derive(Default, Clone, Debug, PartialEq)]
#[allow(dead_code)]
pub struct Layout {
    pub bytes: Vec<u8>,
    pub price: usize,
    pub limit: usize,
    pub maturity: usize,
    pub script: usize,
    pub data: usize,
    pub rroot: usize,
    pub blen: usize,
    pub bidx: usize,
    pub salt: usize,
    pub ptr: usize,
    pub slots: Vec<usize>,
    pub slots_at: usize,
    pub inputs: Vec<usize>,
    pub inputs_at: usize,
    pub preds: Vec<Option<(usize, usize)>>,
    pub outputs: Vec<usize>,
    pub outputs_at: usize,
    pub wits: Vec<usize>,
    pub wits_at: usize,
    /// Offsets of length, count and identifier words.
    pub control: Vec<usize>,
}

pub fn layout(t: &MTx) -> Layout {
    let mut l = Layout::default();
    let mut o = Vec::new();
    match t.kind {
        Kind::Script => {
            l.control.extend([0, 32, 40, 48, 56, 64]);
            w(&mut o, 0);
            l.price = o.len();
            w(&mut o, t.price);
            l.limit = o.len();
            w(&mut o, t.limit);
            l.maturity = o.len();
            w(&mut o, t.maturity);
            w(&mut o, t.script.0.len() as u64);
            w(&mut o, t.data.0.len() as u64);
            w(&mut o, t.inputs.len() as u64);
            w(&mut o, t.outputs.len() as u64);
            w(&mut o, t.wits.len() as u64);
            l.rroot = o.len();
            h(&mut o, &t.rroot);
            l.script = o.len();
            pad(&mut o, &t.script.0);
            l.data = o.len();
            pad(&mut o, &t.data.0);
        }
        Kind::Create => {
            l.control.extend([0, 40, 48, 56, 64, 72]);
            w(&mut o, 1);
            l.price = o.len();
            w(&mut o, t.price);
            l.limit = o.len();
            w(&mut o, t.limit);
            l.maturity = o.len();
            w(&mut o, t.maturity);
            l.blen = o.len();
            w(&mut o, t.blen);
            l.bidx = o.len();
            w(&mut o, t.bidx as u64);
            w(&mut o, t.slots.len() as u64);
            w(&mut o, t.inputs.len() as u64);
            w(&mut o, t.outputs.len() as u64);
            w(&mut o, t.wits.len() as u64);
            l.salt = o.len();
            h(&mut o, &t.salt);
            l.slots_at = o.len();
            for s in &t.slots {
                l.slots.push(o.len());
                slot(&mut o, s);
            }
        }
        Kind::Mint => {
            l.control.extend([0, 24]);
            w(&mut o, 2);
            l.ptr = o.len();
            ptr(&mut o, &t.ptr);
            w(&mut o, t.outputs.len() as u64);
        }
    }
    l.inputs_at = o.len();
    for i in &t.inputs {
        let at = o.len();
        l.inputs.push(at);
        l.control.push(at);
        let p = input(&mut o, i);
        match i {
            MIn::CoinSigned { .. } | MIn::CoinPred { .. } => l.control.extend([at + 136, at + 152, at + 160]),
            MIn::MsgSigned { .. } | MIn::MsgPred { .. } => {
                l.control.extend([at + 120, at + 128, at + 136, at + 144])
            }
            MIn::Contract { .. } => {}
        }
        l.preds.push(p.map(|p| (at + p, pad_len(i.predicate().unwrap().1.len()))));
    }
    l.outputs_at = o.len();
    for x in &t.outputs {
        l.outputs.push(o.len());
        l.control.push(o.len());
        output(&mut o, x);
    }
    l.wits_at = o.len();
    for x in &t.wits {
        l.wits.push(o.len());
        l.control.push(o.len());
        witness(&mut o, x);
    }
    l.bytes = o;
    l
}

pub fn tx(t: &MTx) -> Vec<u8> {
    layout(t).bytes
}

pub fn blank_input(i: &mut MIn) {
    match i {
        MIn::CoinSigned { ptr, .. } | MIn::CoinPred { ptr, .. } => *ptr = MPtr::default(),
        MIn::Contract { utxo, broot, sroot, ptr, .. } => {
            *utxo = MUtxo::default();
            *broot = H::default();
            *sroot = H::default();
            *ptr = MPtr::default();
        }
        _ => {}
    }
}

/// What may change while a script executes.
pub fn blank_output_script(o: &mut MOut) {
    match o {
        MOut::Message { recipient, amount } => {
            *recipient = H::default();
            *amount = 0;
        }
        MOut::Change { amount, .. } => *amount = 0,
        MOut::Variable { to, amount, asset } => {
            *to = H::default();
            *amount = 0;
            *asset = H::default();
        }
        _ => {}
    }
}
pub fn blank_output(o: &mut MOut) {
    blank_output_script(o);
    if let MOut::Contract { broot, sroot, .. } = o {
        *broot = H::default();
        *sroot = H::default();
    }
}

/// The transaction with everything blanked that the id does not cover.
pub fn signed_part(t: &MTx) -> MTx {
    let mut t = t.clone();
    if t.kind != Kind::Mint {
        t.rroot = H::default();
        t.inputs.iter_mut().for_each(blank_input);
        t.outputs.iter_mut().for_each(blank_output);
        t.wits.clear();
    }
    t
}

/// Reference transaction id.
pub fn id(t: &MTx) -> H {
    sha(&[&tx(&signed_part(t))])
}

pub fn receipt(r: &MRcpt) -> Vec<u8> {
    let o = &mut Vec::new();
    match r {
        MRcpt::Call { id, to, amount, asset, gas, p1, p2, pc, is } => {
            w(o, 0);
            h(o, id);
            h(o, to);
            w(o, *amount);
            h(o, asset);
            for x in [gas, p1, p2, pc, is] {
                w(o, *x);
            }
        }
        MRcpt::Return { id, val, pc, is } => {
            w(o, 1);
            h(o, id);
            for x in [val, pc, is] {
                w(o, *x);
            }
        }
        MRcpt::ReturnData { id, ptr, len, digest, data, pc, is } => {
            w(o, 2);
            h(o, id);
            w(o, *ptr);
            w(o, *len);
            h(o, digest);
            witness(o, data);
            w(o, *pc);
            w(o, *is);
        }
        MRcpt::Panic { id, reason, instr, pc, is, .. } => {
            w(o, 3);
            h(o, id);
            let instr = if *reason == 0 { 0 } else { *instr };
            w(o, (*reason as u64) << 56 | (instr as u64) << 24);
            w(o, *pc);
            w(o, *is);
        }
        MRcpt::Revert { id, ra, pc, is } => {
            w(o, 4);
            h(o, id);
            for x in [ra, pc, is] {
                w(o, *x);
            }
        }
        MRcpt::Log { id, ra, rb, rc, rd, pc, is } => {
            w(o, 5);
            h(o, id);
            for x in [ra, rb, rc, rd, pc, is] {
                w(o, *x);
            }
        }
        MRcpt::LogData { id, ra, rb, ptr, len, digest, data, pc, is } => {
            w(o, 6);
            h(o, id);
            for x in [ra, rb, ptr, len] {
                w(o, *x);
            }
            h(o, digest);
            witness(o, data);
            w(o, *pc);
            w(o, *is);
        }
        MRcpt::Transfer { id, to, amount, asset, pc, is } => {
            w(o, 7);
            h(o, id);
            h(o, to);
            w(o, *amount);
            h(o, asset);
            w(o, *pc);
            w(o, *is);
        }
        MRcpt::TransferOut { id, to, amount, asset, pc, is } => {
            w(o, 8);
            h(o, id);
            h(o, to);
            w(o, *amount);
            h(o, asset);
            w(o, *pc);
            w(o, *is);
        }
        MRcpt::ScriptResult { result, gas } => {
            w(o, 9);
            w(o, *result);
            w(o, *gas);
            o.resize(o.len() + 48, 0);
        }
        MRcpt::MessageOut { mid, sender, recipient, amount, nonce, len, digest, data } => {
            w(o, 10);
            h(o, mid);
            h(o, sender);
            h(o, recipient);
            w(o, *amount);
            h(o, nonce);
            w(o, *len);
            h(o, digest);
            witness(o, data);
            o.resize(o.len() + 48, 0);
        }
    }
    std::mem::take(o)
}

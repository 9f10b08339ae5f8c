//! C17 to C20: structural validity.

use crate::engine::*;
use crate::enc;
use crate::gen::{self, Checked};
use crate::keys;
use crate::model::*;
use crate::expect::*;
use crate::refs::{self, V};
use crate::{with_exec, with_tx};
use fuel_tx::*;
use serde::{Deserialize, Serialize};

/// The result of each form of the structural check; they must agree.
pub fn structural(t: &Transaction, c: &Checked) -> Result<Result<(), CheckError>, String> {
    let p = c.params.real();
    let r = with_tx!(t, t => t.check_without_signatures(c.height, &p));
    let g = t.check_without_signatures(c.height, &p);
    ensure_eq!(g, r, "structural check of the generic transaction");
    Ok(r)
}

fn rule_name(v: &V) -> &'static str {
    match v {
        V::GasLimit => "gas limit",
        V::Maturity => "maturity",
        V::InputsMax => "inputs max",
        V::OutputsMax => "outputs max",
        V::WitsMax => "witnesses max",
        V::ChangeDup(_) => "change duplicated",
        V::DupUtxo(..) => "utxo duplicated",
        V::DupContract(_) => "contract duplicated",
        V::DupMessage(_) => "message duplicated",
        V::PredEmpty(_) => "predicate empty",
        V::PredLen(_) => "predicate length",
        V::PredDataLen(_) => "predicate data length",
        V::WitBounds(_) => "witness bounds",
        V::ContractOutput(_) => "contract input without single output",
        V::MsgData(_) => "message data length",
        V::OutContractIndex(_) => "contract output index",
        V::ChangeAsset(_) => "change asset",
        V::CoinAsset(_) => "coin asset",
        V::ScriptLen => "script length",
        V::ScriptDataLen => "script data length",
        V::ScriptCreated(_) => "script creates contract",
        V::CreateWitIndex => "bytecode witness index",
        V::CreateLen => "bytecode length",
        V::SlotMax => "slots max",
        V::SlotOrder => "slot order",
        V::CreateInContract(_) => "create with contract input",
        V::CreateOutContract(_) => "create with contract output",
        V::CreateOutVariable(_) => "create with variable output",
        V::CreateChange(_) => "create change asset",
        V::CreateTwice(_) => "created twice",
        V::MintHeight => "mint height",
        V::MintNotCoin => "mint not coin",
        V::MintDup(_) => "mint asset duplicated",
    }
}

fn check_rules(c: &Checked, o: &mut Obs) -> Res {
    let vs = refs::violations(&c.tx, c.height, &c.params);
    o.nt(c.tx.inputs.len() + c.tx.outputs.len() + c.tx.slots.len() >= 1);
    match &vs[..] {
        [] => o.class("valid"),
        [v] => o.class(rule_name(v)),
        _ => o.class("several rules violated"),
    }
    let mut t = c.tx.real();
    let r = structural(&t, c)?;
    refs::judge(&r, &vs, "structural check")?;
    with_tx!(&mut t, t => t.precompute());
    let warm = structural(&t, c)?;
    refs::judge(&warm, &vs, "structural check of the cached transaction")?;
    // the full check adds signatures only
    let full = with_tx!(&t, t => t.check(c.height, &c.params.real()));
    if !vs.is_empty() {
        refs::judge(&full, &vs, "full check")?;
    } else if c.tx.is_mint() {
        ensure_eq!(full, Ok(()), "full check of a valid mint");
    } else {
        let f = faults(&c.tx, &enc::id(&c.tx));
        judge_faults(&full, &f, "full check")?;
    }
    Ok(())
}

const RULE: &str = "a rule-abiding transaction with parameters at or just above what it needs, then up to \
     three disturbances (limits off by one, duplicated identities, moved indexes, foreign assets, dropped, \
     duplicated or reordered elements, arbitrary insertions), and transactions with every field arbitrary; \
     ones with a payload of the published maximum length, one less or one more (up to 16 MiB of code), and \
     ones with a list of up to 70000 elements under a limit near its length, some with two elements sharing \
     an identity or out of order; \
     the verdict must equal an independent rule set's and an error must name a rule that is violated at the \
     element it names; non-trivial: at least one input, output or slot";

pub fn c17(ctx: &mut Ctx) {
    ctx.rule(RULE);
    ctx.part("near", 600000, |g| gen::near_valid(g, Kind::Script), check_rules);
    ctx.part("arbitrary", 200000, |g| arbitrary(g, Kind::Script), check_rules);
    ctx.part("published limits", 400, |g| at_limits(g, Kind::Script), |c, o| check_rules(&c.case(), o));
    ctx.part("long lists", 1000, |g| gen::many_of(g, Kind::Script), |c, o| check_rules(&c.case(), o));
}
pub fn c18(ctx: &mut Ctx) {
    ctx.rule(RULE);
    ctx.part("near", 600000, |g| gen::near_valid(g, Kind::Create), check_rules);
    ctx.part("arbitrary", 200000, |g| arbitrary(g, Kind::Create), check_rules);
    ctx.part("published limits", 250, |g| at_limits(g, Kind::Create), |c, o| check_rules(&c.case(), o));
    ctx.part("long lists", 1000, |g| gen::many_of(g, Kind::Create), |c, o| check_rules(&c.case(), o));
}
pub fn c19(ctx: &mut Ctx) {
    ctx.rule(RULE);
    ctx.part("near", 600000, |g| gen::near_valid(g, Kind::Mint), check_rules);
    ctx.part("arbitrary", 200000, |g| arbitrary(g, Kind::Mint), check_rules);
    ctx.part("long lists", 100, |g| gen::many_of(g, Kind::Mint), |c, o| check_rules(&c.case(), o));
}

/// A rule-abiding transaction and one payload near its published limit, described compactly.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct AtLimit {
    base: Checked,
    what: usize,
    len: usize,
    owned: bool,
}

fn at_limits(g: &mut G, kind: Kind) -> AtLimit {
    let mut base = gen::valid(g, kind);
    let own = base.params;
    base.params = MParams::default();
    for i in [P_INPUTS, P_OUTPUTS, P_WITS, P_SLOTS, P_GAS] {
        base.params.0[i] = base.params.0[i].max(own.0[i]);
    }
    let what = match kind {
        Kind::Create => *g.pick(&[P_CONTRACT, P_CONTRACT, P_PRED, P_PDATA, P_MSG]),
        _ => *g.pick(&[P_SCRIPT, P_DATA, P_PRED, P_PDATA, P_MSG]),
    };
    let limit = base.params.0[what] as usize;
    let len = if what == P_CONTRACT {
        limit + 4 - g.below(9)
    } else {
        limit + 1 - g.below(3)
    };
    AtLimit { base, what, len, owned: g.chance(1, 2) }
}

impl AtLimit {
    fn case(&self) -> Checked {
        let mut c = self.base.clone();
        let p = B(expand(self.len as u64, self.len));
        let mut g = G::seeded(7);
        let input = match self.what {
            P_SCRIPT => {
                c.tx.script = p;
                return c;
            }
            P_DATA => {
                c.tx.data = p;
                return c;
            }
            P_CONTRACT => {
                let i = c.tx.bidx as usize;
                c.tx.blen = p.0.len() as u64 / 4;
                c.tx.wits[i] = p;
                return c;
            }
            P_PRED => {
                let owner = if self.owned { refs::code_root(&p.0) } else { H::default() };
                let mut x = gen::input_of(&mut g, 1 + 3 * (self.len % 2), true);
                match &mut x {
                    MIn::CoinPred { pred, .. } | MIn::MsgPred { pred, .. } => *pred = p,
                    _ => {}
                }
                x.set_owner(owner);
                x
            }
            P_PDATA => {
                let mut x = gen::input_of(&mut g, 1 + 3 * (self.len % 2), true);
                match &mut x {
                    MIn::CoinPred { pdata, pred, .. } | MIn::MsgPred { pdata, pred, .. } => {
                        *pdata = p;
                        *pred = B(vec![1]);
                    }
                    _ => {}
                }
                x
            }
            _ => {
                let mut x = gen::input_of(&mut g, if self.owned { 4 } else { 3 }, true);
                match &mut x {
                    MIn::MsgSigned { data, wit, .. } => {
                        *data = p;
                        *wit = 0
                    }
                    MIn::MsgPred { data, pred, .. } => {
                        *data = p;
                        *pred = B(vec![1]);
                    }
                    _ => {}
                }
                x
            }
        };
        c.tx.inputs.push(input);
        c.params.0[P_INPUTS] = c.params.0[P_INPUTS].max(c.tx.inputs.len() as u64);
        c
    }
}

fn arbitrary(g: &mut G, kind: Kind) -> Checked {
    let small = g.chance(2, 3);
    let tx = gen::tx_of(g, kind, small);
    let mut params = MParams::default();
    if g.chance(1, 2) {
        for i in 0..13 {
            if g.chance(1, 4) {
                params.0[i] = gen::word(g);
            }
        }
        params.0[P_FACTOR] = params.0[P_FACTOR].max(1);
    }
    Checked { tx, height: gen::word(g), params }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct One {
    input: MIn,
    output: MOut,
    index: usize,
    inputs: Vec<MIn>,
    outputs: Vec<MOut>,
    wits: Vec<B>,
    id: H,
    params: MParams,
}

pub fn c20(ctx: &mut Ctx) {
    ctx.rule(
        "one input and one output at a given position among arbitrary inputs, outputs (contract outputs \
         pointing at and near the position) and witnesses (some holding valid signatures of the given id), \
         with length limits at and around the payloads; structural, signature and full checks against \
         independent rules; non-trivial: every case",
    );
    ctx.part(
        "one",
        60000,
        |g| {
            let variant = *g.pick(&[0, 1, 2, 2, 3, 4]);
            let small = g.chance(3, 4);
            let mut input = gen::input_of(g, variant, small);
            let index = match g.below(8) {
                0..=5 => g.below(4),
                6 => *g.pick(&[255, 256, 257, 511, 512]),
                _ => gen::word(g) as usize,
            };
            // positions beyond what an index byte counts, now and then
            let wide = g.chance(1, 100);
            let n_out = if wide { 250 + g.below(20) } else { gen::count(g, 6) };
            let matching = g.below(n_out.max(1));
            let outputs = (0..n_out)
                .map(|i| {
                    if wide && i == matching {
                        MOut::Contract { idx: index as u8, broot: gen::h(g), sroot: gen::h(g) }
                    } else if wide && g.chance(250, 251) {
                        MOut::Message { recipient: gen::h(g), amount: 0 }
                    } else if g.chance(1, 2) {
                        let idx = if g.chance(2, 3) { index as u8 } else { g.below(4) as u8 };
                        MOut::Contract { idx, broot: gen::h(g), sroot: gen::h(g) }
                    } else {
                        gen::output(g)
                    }
                })
                .collect();
            let n_in = if wide { 250 + g.below(10) } else { gen::count(g, 5) };
            let inputs: Vec<MIn> = (0..n_in)
                .map(|_| {
                    let v = *g.pick(&[2, 2, 0, 1, 3, 4]);
                    gen::input_of(g, v, true)
                })
                .collect();
            let output = if g.chance(1, 2) {
                MOut::Contract { idx: g.below(inputs.len() + 2) as u8, broot: gen::h(g), sroot: gen::h(g) }
            } else {
                gen::output(g)
            };
            let id = gen::h(g);
            let mut wits: Vec<B> = Vec::new();
            for _ in 0..g.below(4) {
                wits.push(match g.below(3) {
                    0 => gen::bytes(g),
                    1 => B(vec![0; 64]),
                    _ => B(vec![g.below(gen::KEYS) as u8]),
                });
            }
            // a marker byte stands for that key's signature
            if g.chance(3, 4) {
                let k = g.below(gen::KEYS);
                if input.signed().is_some() {
                    input.set_owner(gen::key_addr(k));
                    if !wits.is_empty() {
                        let w = g.below(wits.len());
                        input.set_wit(w as u8);
                        wits[w] = B(vec![k as u8]);
                    }
                } else if let Some((_, p)) = input.predicate() {
                    let root = refs::code_root(p);
                    input.set_owner(root);
                }
            }
            if g.chance(1, 6) {
                input.set_wit(*g.pick(&[wits.len() as u8, wits.len() as u8 + 1, 255]));
            }
            if g.chance(1, 10) {
                match &mut input {
                    MIn::CoinPred { pred, .. } | MIn::MsgPred { pred, .. } => pred.0.clear(),
                    _ => {}
                }
            }
            let mut params = MParams::default();
            let t = MTx { inputs: vec![input.clone()], ..Default::default() };
            let q = gen::quantities(&t);
            for i in [P_PRED, P_PDATA, P_MSG] {
                let n = q[i].unwrap();
                params.0[i] = match g.below(6) {
                    0 => n,
                    1 => n.saturating_sub(1),
                    2 => n + 1,
                    3 => gen::generous(g, n),
                    _ => params.0[i],
                };
            }
            One { input, output, index, inputs, outputs, wits, id, params }
        },
        |c, o| {
            o.nt(true);
            // markers become signatures
            let wits: Vec<B> = c
                .wits
                .iter()
                .map(|w| match &w.0[..] {
                    [k] if (*k as usize) < gen::KEYS => keys::sign(*k as usize, &c.id),
                    _ => w.clone(),
                })
                .collect();
            let real_wits: Vec<Witness> = wits.iter().map(|w| w.0.clone().into()).collect();
            let outs: Vec<Output> = c.outputs.iter().map(MOut::real).collect();
            let ins: Vec<Input> = c.inputs.iter().map(MIn::real).collect();
            let p = c.params.real();
            let x = c.input.real();
            let mut vs = Vec::new();
            refs::input_rules(c.index, &c.input, &c.outputs, wits.len(), &c.params, &mut vs);
            o.class(if vs.is_empty() { "input obeys the rules" } else { rule_name(&vs[0]) });
            let s = x.check_without_signature(c.index, &outs, &real_wits, &p);
            refs::judge(&s, &vs, "structural check of the input")?;
            let id: Bytes32 = c.id.into();
            let f: Vec<Fault> = fault(c.index, &c.input, &c.id, &wits).into_iter().collect();
            o.class_if(vs.is_empty() && f.is_empty(), "input passes in full");
            let g = x.check_signature(c.index, &id, &real_wits);
            judge_faults(&g, &f, "signature check of the input")?;
            let full = x.check(c.index, &id, &outs, &real_wits, &p);
            if !vs.is_empty() {
                refs::judge(&full, &vs, "full check of the input")?;
            } else {
                judge_faults(&full, &f, "full check of the input")?;
            }
            let mut vs = Vec::new();
            refs::output_rules(c.index, &c.output, &c.inputs, &mut vs);
            o.class(if vs.is_empty() { "output obeys the rules" } else { "output breaks them" });
            refs::judge(&c.output.real().check(c.index, &ins), &vs, "check of the output")
        },
    );
    // the whole-transaction check is made of the element checks
    ctx.part(
        "composed",
        15000,
        |g| {
            let kind = if g.chance(1, 2) { Kind::Script } else { Kind::Create };
            gen::near_valid(g, kind)
        },
        |c, o| {
            o.nt(!c.tx.inputs.is_empty());
            let t = c.tx.real();
            let p = c.params.real();
            let whole = structural(&t, c)?;
            let (ins, outs, wits) = (c.tx.real_inputs(), c.tx.real_outputs(), c.tx.real_wits());
            let mut any = false;
            for (i, x) in ins.iter().enumerate() {
                any |= x.check_without_signature(i, &outs, &wits, &p).is_err();
            }
            for (i, x) in outs.iter().enumerate() {
                any |= x.check(i, &ins).is_err();
            }
            ensure!(!any || whole.is_err(), "an element is rejected but the transaction passes");
            let sig = with_exec!(&t, t => t.check_signatures());
            let id: Bytes32 = enc::id(&c.tx).into();
            let each: Result<(), CheckError> =
                ins.iter().enumerate().try_for_each(|(i, x)| x.check_signature(i, &id, &wits));
            ensure_eq!(sig.is_ok(), each.is_ok(), "signature check against that of each input");
            Ok(())
        },
    );
}

//! C21 to C24: fees, metering, free balances, checked transactions.

use crate::engine::*;
use crate::enc;
use crate::gen::{self, Checked as Case};
use crate::model::*;
use crate::expect::*;
use crate::refs::{self, BalErr, Fee};
use crate::val::assign;
use crate::{with_exec, with_tx};
use fuel_tx::*;
use serde::{Deserialize, Serialize};
use std::borrow::Borrow;


// ---------------------------------------------------------------- C21

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct FeeCase {
    gpb: u64,
    factor: u64,
    bytes: u64,
    limit: u64,
    price: u64,
    gas: u64,
    balance: u64,
}

/// A word near the largest x with x * y <= target.
fn quotient(g: &mut G, y: u64, target: u128) -> u64 {
    let q = (target / (y.max(1) as u128)).min(u64::MAX as u128) as u64;
    match g.below(4) {
        0 => q.saturating_add(1),
        1 => q.saturating_sub(1),
        _ => q,
    }
}

fn fee_case(g: &mut G) -> FeeCase {
    let small = |g: &mut G| g.below(1000) as u64;
    let any = |g: &mut G| match g.below(4) {
        0 => small(g),
        1 => gen::word(g),
        _ => {
            let s = g.below(64);
            g.u64() >> s
        }
    };
    let mut c = FeeCase {
        gpb: any(g),
        factor: any(g).max(1),
        bytes: any(g),
        limit: any(g),
        price: any(g),
        gas: any(g),
        balance: any(g),
    };
    let top = u64::MAX as u128;
    match g.below(10) {
        0 => c.bytes = quotient(g, c.gpb, top),
        1 | 2 => {
            // byte gas plus limit at the border
            let b = (c.gpb as u128 * c.bytes as u128).min(top) as u64;
            c.limit = match g.below(3) {
                0 => (u64::MAX - b).saturating_add(1),
                1 => u64::MAX - b,
                _ => (u64::MAX - b).saturating_sub(1),
            };
        }
        3 | 4 => {
            // the total product at the border
            let m = (c.gpb as u128 * c.bytes as u128 + c.limit as u128).min(top) as u64;
            c.price = quotient(g, m, top);
        }
        5 => {
            // the product a multiple of the factor, or one off
            let m = (c.gpb as u128 * c.bytes as u128 + c.limit as u128).min(top) as u64;
            let x = (m as u128 * c.price as u128).min(top) as u64;
            c.factor = match g.below(5) {
                0 => x.max(1),
                1 => x.saturating_add(1),
                2 => x.saturating_sub(1).max(1),
                3 => m.max(1),
                _ => c.price.max(1),
            };
        }
        6 | 7 => {
            // everything small, so that all roundings appear
            c.gpb = g.below(8) as u64;
            c.bytes = g.below(40) as u64;
            c.limit = g.below(40) as u64;
            c.price = g.below(20) as u64;
            c.factor = 1 + g.below(20) as u64;
            c.gas = g.below(50) as u64;
            c.balance = g.below(200) as u64;
        }
        _ => {}
    }
    match g.below(4) {
        0 => {
            // a refund at the border of the word, or with an exact quotient
            let target = top * c.factor as u128 + *g.pick(&[0u128, 1, 2]) * c.factor as u128;
            c.gas = quotient(g, c.price, target);
        }
        1 => c.gas = quotient(g, c.price, c.factor as u128),
        _ => {}
    }
    if g.chance(1, 2) {
        let mut p = MParams::default();
        p.0[P_GPB] = c.gpb;
        p.0[P_FACTOR] = c.factor;
        if let Some(f) = refs::fee(&p, c.bytes, c.limit, c.price) {
            c.balance = match g.below(3) {
                0 => f.total.saturating_sub(1),
                1 => f.total.saturating_add(1),
                _ => f.total,
            };
        }
    }
    c
}

pub fn c21(ctx: &mut Ctx) {
    ctx.rule(
        "gas rate, factor, byte count, limit, price and refund gas as arbitrary words, small words, and \
         words placed at the last value whose product or sum still fits and one to either side; against \
         128-bit arithmetic; also through transactions of these words; non-trivial: price and some gas are \
         positive",
    );
    ctx.part("fees", 6_000_000, fee_case, |c: &FeeCase, o| {
        let mut m = MParams::default();
        m.0[P_GPB] = c.gpb;
        m.0[P_FACTOR] = c.factor;
        let p = m.real();
        let want = refs::fee(&m, c.bytes, c.limit, c.price);
        let got = TransactionFee::checked_from_values(&p, c.bytes, c.limit, c.price);
        ensure_eq!(got.as_ref().map(fee_of), want, "fee");
        o.nt(c.price > 0 && (c.limit > 0 || c.bytes > 0 && c.gpb > 0 || c.gas > 0));
        match (&got, &want) {
            (Some(f), Some(w)) => {
                o.class(if w.total as u128 * c.factor as u128 == w.max_gas as u128 * c.price as u128 {
                    "exact quotient"
                } else {
                    "rounded up"
                });
                ensure!(f.total() >= f.min(), "the total {} is below the minimum {}", f.total(), f.min());
                ensure_eq!(f.into_inner(), (w.min, w.total), "into_inner");
                ensure_eq!(Word::from(*f), w.total, "word form");
                let n = TransactionFee::new(w.min, w.total, w.min_gas, w.max_gas);
                ensure_eq!(n, *f, "a fee made of the same words");
                ensure_eq!(
                    f.checked_deduct_total(c.balance),
                    (c.balance >= w.total).then(|| c.balance.wrapping_sub(w.total)),
                    "deduction from {}",
                    c.balance
                );
            }
            _ => o.class("does not fit"),
        }
        // arbitrary words, in order
        let n = TransactionFee::new(c.gpb, c.bytes, c.limit, c.price);
        ensure_eq!(
            fee_of(&n),
            Fee { min: c.gpb, total: c.bytes, min_gas: c.limit, max_gas: c.price },
            "fee made of words"
        );
        ensure_eq!(
            n.checked_deduct_total(c.balance),
            (c.balance >= c.bytes).then(|| c.balance.wrapping_sub(c.bytes)),
            "deduction of {} from {}",
            c.bytes,
            c.balance
        );
        let r = refs::refund(c.factor, c.gas, c.price);
        o.class(if r.is_some() { "refund fits" } else { "refund does not fit" });
        ensure_eq!(TransactionFee::gas_refund_value(&p, c.gas, c.price), r, "refund");
        Ok(())
    });
    ctx.part(
        "of transactions",
        600_000,
        |g| {
            let kind = *g.pick(&[Kind::Script, Kind::Create]);
            (kind, gen::length(g), fee_case(g))
        },
        |(kind, len, c): &(Kind, usize, FeeCase), o| {
            let mut m = MParams::default();
            m.0[P_GPB] = c.gpb;
            m.0[P_FACTOR] = c.factor;
            let p = m.real();
            let len = (*len).min(1 << 12);
            let tx = match kind {
                Kind::Script => {
                    Transaction::script(c.price, c.limit, 0, vec![0; len], vec![], vec![], vec![], vec![]).into()
                }
                _ => Transaction::create(
                    c.price, c.limit, 0, 0, Default::default(), vec![], vec![], vec![], vec![vec![1; len].into()],
                )
                .into(),
            };
            let t: Transaction = tx;
            let want = refs::fee(&m, refs::metered(&MTx::of(&t)), c.limit, c.price);
            o.nt(c.price > 0 && (c.limit > 0 || c.gpb > 0));
            o.class(if want.is_some() { "fits" } else { "does not fit" });
            let got = with_exec!(&t, t => TransactionFee::checked_from_tx(&p, t));
            ensure_eq!(got.as_ref().map(fee_of), want, "fee of the transaction");
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- C22

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct MeterCase {
    tx: MTx,
    wits: Vec<B>,
    cached: bool,
    gpb: u64,
    factor: u64,
    price: u64,
    limit: u64,
}

pub fn c22(ctx: &mut Ctx) {
    ctx.rule(
        "script and create transactions, cached or not, whose witnesses are then replaced by other ones \
         (any number and size, or signatures); metered bytes against the encoding without witnesses, and \
         the fee of the transaction against that of its words; non-trivial: the witnesses changed",
    );
    let check = |c: &MeterCase, o: &mut Obs| -> Res {
        o.nt(c.wits != c.tx.wits);
        let want = refs::metered(&c.tx);
        let mut m = MParams::default();
        m.0[P_GPB] = c.gpb;
        m.0[P_FACTOR] = c.factor;
        let mut t = c.tx.real();
        if c.cached {
            with_exec!(&mut t, t => t.precompute());
        }
        let look = |t: &Transaction, price: u64, limit: u64, what: &str| -> Res {
            with_exec!(t, t => {
                ensure_eq!(t.metered_bytes_size() as u64, want, "metered bytes {what}");
                ensure_eq!(Chargeable::price(t), price, "price {what}");
                ensure_eq!(Chargeable::limit(t), limit, "limit {what}");
                for p in [MParams::default(), m] {
                    let f = TransactionFee::checked_from_tx(&p.real(), t);
                    ensure_eq!(
                        f.as_ref().map(fee_of),
                        refs::fee(&p, want, limit, price),
                        "fee of the transaction {what}"
                    );
                }
                Ok(())
            })
        };
        look(&t, c.tx.price, c.tx.limit, "at first")?;
        // witnesses are free of charge, whatever is cached
        with_exec!(&mut t, t => {
            *field::Witnesses::witnesses_mut(t) = c.wits.iter().map(|w| w.0.clone().into()).collect()
        });
        look(&t, c.tx.price, c.tx.limit, "with other witnesses")?;
        with_exec!(&mut t, t => {
            *field::GasPrice::gas_price_mut(t) = c.price;
            *field::GasLimit::gas_limit_mut(t) = c.limit;
        });
        look(&t, c.price, c.limit, "with another price and limit")?;
        with_exec!(&mut t, t => t.precompute());
        look(&t, c.price, c.limit, "with a fresh cache")
    };
    ctx.part(
        "metered",
        800000,
        |g| {
            let tx = if g.chance(3, 4) { gen::small_exec_tx(g) } else { gen::exec_tx(g) };
            let tx = gen::hollow(g, tx);
            let wits = (0..gen::count(g, 5)).map(|_| gen::bytes(g)).collect();
            MeterCase {
                tx,
                wits,
                cached: g.chance(1, 2),
                gpb: gen::word(g),
                factor: gen::word(g).max(1),
                price: gen::word(g),
                limit: gen::word(g),
            }
        },
        check,
    );
    // hundreds or thousands of elements, described compactly
    ctx.part(
        "wide",
        100,
        |g| {
            let mut w = gen::wider(g);
            if w.kind == Kind::Mint {
                w.kind = Kind::Script;
            }
            // the cache of very many predicates takes quadratic time
            w.inputs = w.inputs.min(2000);
            (w, g.chance(1, 2), g.below(60))
        },
        |(w, cached, gpb), o| {
            let tx = w.tx();
            let (price, limit) = (tx.price >> 40, tx.limit >> 40);
            check(
                &MeterCase { tx, wits: vec![], cached: *cached, gpb: *gpb as u64, factor: 1, price, limit },
                o,
            )
        },
    );
}

// ---------------------------------------------------------------- C23

pub fn c23(ctx: &mut Ctx) {
    ctx.rule(
        "rule-abiding script and create transactions over few assets, with amounts, fee rates and outputs \
         set so that each asset is spent exactly, one short, one over or sums overflow, plus disturbed ones; \
         the free balances and errors of both forms of the basic check against 128-bit sums; non-trivial: \
         the transaction has an amount and a positive fee or a coin output",
    );
    fn check(c: &Case, o: &mut Obs) -> Res {
        let e = Expect::of(c);
        let spends = c.tx.outputs.iter().any(|x| matches!(x, MOut::Coin { .. }));
        o.nt(c.tx.inputs.iter().any(|i| i.amount().unwrap_or(0) > 0) && (spends || c.tx.price > 0));
        match (&e.vs[..], &e.bal) {
            ([], Ok(_)) => {
                o.class("balanced");
                o.class_if(spends, "balanced with coin outputs");
                o.class_if(
                    c.tx.outputs.iter().skip(255).any(|x| matches!(x, MOut::Coin { amount, .. } if *amount > 0)),
                    "balanced with coin outputs beyond the 255th",
                );
            }
            ([], Err(b)) => o.class(match b[0] {
                BalErr::Overflow => "overflow",
                BalErr::Fee { .. } => "fee not covered",
                BalErr::Asset { .. } => "overspent",
                BalErr::NotFound(_) => "unknown asset",
            }),
            _ => o.class("rules violated"),
        }
        let t = c.tx.real();
        for (r, what) in both(&t, c, false).iter().zip(["typed check", "generic check"]) {
            e.judge(r, false, what)?;
            if let Ok(f) = r {
                ensure_eq!(Ok(meaning(f)?.3), e.bal, "metadata of the {what}");
            }
        }
        Ok(())
    }
    ctx.part(
        "balances",
        400000,
        |g| {
            let kind = if g.chance(1, 3) { Kind::Create } else { Kind::Script };
            let mut c = gen::valid(g, kind);
            fund(g, &mut c);
            if g.chance(1, 12) {
                gen::disturb(g, &mut c);
            }
            c
        },
        check,
    );
    ctx.part(
        "long lists",
        400,
        |g| {
            let kind = if g.chance(1, 3) { Kind::Create } else { Kind::Script };
            let what = *g.pick(&[P_INPUTS, P_OUTPUTS]);
            let mut c = gen::many(g, kind, what);
            c.same = None;
            c.odd = None;
            c.limit = u64::MAX;
            (c, g.below(3))
        },
        |(m, price), o| {
            let mut c = m.case();
            c.tx.price = *price as u64;
            c.tx.limit = c.tx.limit.min(1000);
            c.params.0[P_FACTOR] = 1 << 20;
            check(&c, o)
        },
    );
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Op {
    Generic,
    Enum,
    Signatures,
    Clone,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Life {
    case: Case,
    /// 0: no cache, 1: a current cache, 2: a cache of `before`
    cache: u8,
    before: Option<MTx>,
    start_generic: bool,
    start_full: bool,
    ops: Vec<Op>,
}

fn life(g: &mut G) -> Life {
    let case = signed_case(g);
    let kind = case.tx.kind;
    let cache = g.below(3) as u8;
    let before = (cache == 2).then(|| gen::tx_of(g, kind, true));
    let n = g.below(6);
    let ops = (0..n).map(|_| *g.pick(&[Op::Generic, Op::Enum, Op::Signatures, Op::Signatures, Op::Clone])).collect();
    Life { case, cache, before, start_generic: g.chance(1, 2), start_full: g.chance(1, 2), ops }
}

fn check_life(c: &Life, o: &mut Obs) -> Res {
    let case = &c.case;
    let e = Expect::of(case);
    let t = match (c.cache, &c.before) {
        (2, Some(b)) => {
            let mut t = b.real();
            with_tx!(&mut t, t => t.precompute());
            assign(&mut t, &case.tx);
            t
        }
        (1, _) => {
            let mut t = case.tx.real();
            with_tx!(&mut t, t => t.precompute());
            t
        }
        _ => case.tx.real(),
    };
    let id = enc::id(&case.tx);
    // fields the kind does not have are not kept
    let held = MTx::of(&case.tx.real());
    let expect = |bits: u32, f: &Form, what: &str| -> Res {
        let (tx, b, computed, meta, got) = meaning(f)?;
        ensure_eq!(tx, held, "transaction of the {what}");
        ensure_eq!(b, bits, "checks recorded by the {what}");
        ensure!(computed, "the {what} has no cache");
        ensure_eq!(got, id, "id of the {what}");
        ensure_eq!(Ok(meta), e.bal, "metadata of the {what}");
        Ok(())
    };
    let basic = both(&t, case, false);
    for (r, what) in basic.iter().zip(["basic check", "generic basic check"]) {
        e.judge(r, false, what)?;
        if let Ok(f) = r {
            expect(1, f, what)?;
        }
    }
    let full = both(&t, case, true);
    for (r, what) in full.iter().zip(["full check", "generic full check"]) {
        e.judge(r, true, what)?;
        if let Ok(f) = r {
            expect(3, f, what)?;
        }
    }
    ensure_eq!(full[0].as_ref().err(), full[1].as_ref().err(), "errors of the typed and generic full check");
    // a history of conversions and checks
    let start = if c.start_full { full } else { basic };
    let [typed, generic] = start;
    let mut f = match if c.start_generic { generic } else { typed } {
        Ok(f) => f,
        Err(_) => {
            o.class("rejected");
            return Ok(());
        }
    };
    o.nt(!c.ops.is_empty());
    o.class(if e.faults.is_empty() { "signed" } else { "unsigned" });
    let mut bits: u32 = if c.start_full { 3 } else { 1 };
    for (n, op) in c.ops.iter().enumerate() {
        let what = format!("form after step {n} ({op:?})");
        f = match (op, f) {
            (Op::Clone, f) => {
                let g = f.clone();
                ensure!(g == f, "a clone of {what} differs");
                g
            }
            (Op::Enum, Form::Script(x)) => Form::Enum(x.into()),
            (Op::Enum, Form::Create(x)) => Form::Enum(x.into()),
            (Op::Enum, Form::Mint(x)) => Form::Enum(x.into()),
            (Op::Enum, Form::Generic(x)) => Form::Enum(x.into()),
            (Op::Enum, Form::Enum(CheckedTransaction::Script(x))) => Form::Script(x),
            (Op::Enum, Form::Enum(CheckedTransaction::Create(x))) => Form::Create(x),
            (Op::Enum, Form::Enum(CheckedTransaction::Mint(x))) => Form::Mint(x),
            (Op::Generic, Form::Enum(x)) => Form::Generic(x.into()),
            (Op::Generic, Form::Script(x)) => Form::Generic(CheckedTransaction::from(x).into()),
            (Op::Generic, Form::Create(x)) => Form::Generic(CheckedTransaction::from(x).into()),
            (Op::Generic, Form::Mint(x)) => Form::Generic(CheckedTransaction::from(x).into()),
            (Op::Generic, x @ Form::Generic(_)) => x,
            (Op::Signatures, f) => {
                let keep = f.clone();
                let r = match f {
                    Form::Script(x) => x.check_signatures().map(Form::Script),
                    Form::Create(x) => x.check_signatures().map(Form::Create),
                    Form::Mint(x) => x.check_signatures().map(Form::Mint),
                    Form::Generic(x) => x.check_signatures().map(Form::Generic),
                    Form::Enum(CheckedTransaction::Script(x)) => x.check_signatures().map(|x| Form::Enum(x.into())),
                    Form::Enum(CheckedTransaction::Create(x)) => x.check_signatures().map(|x| Form::Enum(x.into())),
                    Form::Enum(CheckedTransaction::Mint(x)) => x.check_signatures().map(|x| Form::Enum(x.into())),
                };
                e.judge(&r, true, &what)?;
                match r {
                    Ok(f) => {
                        ensure!(bits != 3 || f == keep, "checking again changed the {what}");
                        bits = 3;
                        f
                    }
                    Err(_) => keep,
                }
            }
        };
        expect(bits, &f, &what)?;
    }
    // the bitmask in words, the views and the parts
    fn view<T: IntoChecked>(c: &fuel_tx::Checked<T>) -> &T {
        c.borrow()
    }
    macro_rules! parts {
        ($c:expr) => {{
            ensure_eq!(format!("{}", $c.checks()), format!("{bits:032b}"), "checks in words");
            let m = $c.metadata().clone();
            let t = $c.transaction().clone();
            ensure!($c.as_ref() == &t && view(&$c) == &t, "the views differ from the transaction");
            let mut c = $c;
            ensure!(c.as_mut() == &t, "the mutable view differs from the transaction");
            let (a, b) = c.into();
            ensure!(a == t && b == m, "the parts differ from the whole");
        }};
    }
    match f {
        Form::Script(x) => parts!(x),
        Form::Create(x) => parts!(x),
        Form::Mint(x) => parts!(x),
        Form::Generic(x) => parts!(x),
        Form::Enum(CheckedTransaction::Script(x)) => parts!(x),
        Form::Enum(CheckedTransaction::Create(x)) => parts!(x),
        Form::Enum(CheckedTransaction::Mint(x)) => parts!(x),
    }
    Ok(())
}

pub fn c24(ctx: &mut Ctx) {
    ctx.rule(
        "script, create and mint transactions that are valid, funded and signed, or fail in one respect, \
         without a cache, with a current or with an outdated one; basic and full checks of both forms \
         against independent rules, balances and signature recovery, then up to five conversions, signature \
         checks and clones with the recorded checks tracked by a model; non-trivial: the basic check passes \
         and at least one step follows",
    );
    ctx.part("life", 80000, life, check_life);
    // default values are fully checked (a default create transaction has no bytecode and is not valid)
    ctx.part(
        "default",
        1,
        |_| 0u8,
        |_, o| {
            o.nt(true);
            fn ok<T: IntoChecked + Default + PartialEq + Cacheable>(what: &str) -> Res {
                let c = Checked::<T>::default();
                ensure_eq!(c.checks().bits(), 3, "checks of the default {what}");
                ensure!(c.transaction().is_computed(), "the default {what} has no cache");
                let r = c.transaction().check(0, &ConsensusParameters::default());
                ensure_eq!(r, Ok(()), "check of the default {what}");
                Ok(())
            }
            ok::<Script>("script")?;
            ok::<Mint>("mint")?;
            ok::<Transaction>("transaction")
        },
    );
}

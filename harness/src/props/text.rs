//! C07, C08: serde forms and text forms.

use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::val::*;
use crate::{with_real, with_sort, with_tx};
use fuel_tx::*;
use serde::{Deserialize, Serialize};

/// A cached copy of a transaction value; other values unchanged.
fn cached(r: &Real) -> Real {
    let mut r = r.clone();
    match &mut r {
        Real::Tx(t) => with_tx!(t, t => t.precompute()),
        Real::Script(t) => t.precompute(),
        Real::Create(t) => t.precompute(),
        Real::Mint(t) => t.precompute(),
        _ => {}
    }
    r
}
fn is_cached(r: &Real) -> bool {
    match r {
        Real::Tx(t) => with_tx!(t, t => t.is_computed()),
        Real::Script(t) => t.is_computed(),
        Real::Create(t) => t.is_computed(),
        Real::Mint(t) => t.is_computed(),
        _ => false,
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Small {
    fee: [u64; 4],
    params: [u64; 13],
    result: u64,
}

fn both<T>(x: &T, what: &str) -> Res
where
    T: Serialize + for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug,
{
    let j = serde_json::to_string(x).map_err(|e| format!("{what} to JSON: {e}"))?;
    let y: T = serde_json::from_str(&j).map_err(|e| format!("{what} from JSON {j}: {e}"))?;
    ensure_eq!(y, *x, "{what} through JSON {j}");
    let j = serde_json::to_value(x).map_err(|e| format!("{what} to a JSON value: {e}"))?;
    let y: T = serde_json::from_value(j).map_err(|e| format!("{what} from a JSON value: {e}"))?;
    ensure_eq!(y, *x, "{what} through a JSON value");
    let b = bincode::serialize(x).map_err(|e| format!("{what} to binary: {e}"))?;
    let y: T = bincode::deserialize(&b).map_err(|e| format!("{what} from binary: {e}"))?;
    ensure_eq!(y, *x, "{what} through binary");
    Ok(())
}

fn check_error(k: usize, index: usize, n: u64, h: &H, utxo: &MUtxo) -> CheckError {
    use CheckError::*;
    match k {
        0 => InputWitnessIndexBounds { index },
        1 => InputPredicateEmpty { index },
        2 => InputPredicateLength { index },
        3 => InputPredicateDataLength { index },
        4 => InputPredicateOwner { index },
        5 => InputInvalidSignature { index },
        6 => InputContractAssociatedOutputContract { index },
        7 => InputMessageDataLength { index },
        8 => DuplicateInputUtxoId { utxo_id: utxo.real() },
        9 => DuplicateMessageInputId { message_id: h.into() },
        10 => DuplicateInputContractId { contract_id: h.into() },
        11 => OutputContractInputIndex { index },
        12 => TransactionCreateInputContract { index },
        13 => TransactionCreateOutputContract { index },
        14 => TransactionCreateOutputVariable { index },
        15 => TransactionCreateOutputChangeNotBaseAsset { index },
        16 => TransactionCreateOutputContractCreatedMultiple { index },
        17 => TransactionCreateBytecodeLen,
        18 => TransactionCreateBytecodeWitnessIndex,
        19 => TransactionCreateStorageSlotMax,
        20 => TransactionCreateStorageSlotOrder,
        21 => TransactionScriptLength,
        22 => TransactionScriptDataLength,
        23 => TransactionScriptOutputContractCreated { index },
        24 => TransactionMintOutputIsNotCoin,
        25 => TransactionMintIncorrectBlockHeight,
        26 => TransactionGasLimit,
        27 => TransactionMaturity,
        28 => TransactionInputsMax,
        29 => TransactionOutputsMax,
        30 => TransactionWitnessesMax,
        31 => TransactionOutputCoinAssetIdDuplicated(h.into()),
        32 => TransactionOutputChangeAssetIdDuplicated(h.into()),
        33 => TransactionOutputChangeAssetIdNotFound(h.into()),
        34 => TransactionOutputCoinAssetIdNotFound(h.into()),
        35 => InsufficientFeeAmount { expected: n, provided: !n },
        36 => InsufficientInputAmount { asset: h.into(), expected: n, provided: !n },
        _ => ArithmeticOverflow,
    }
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule(
        "transactions, parts and receipts with every field arbitrary, with and without computed cache, \
         fees, parameter sets, execution results, contracts and check errors, through JSON text, bincode and the \
         transaction's own JSON helpers; non-trivial: values with content beyond a bare header",
    );
    let check = |v: &MVal, o: &mut Obs| {
        o.nt(v.rich());
        o.class(v.class());
        let real = v.real();
        let warm = cached(&real);
        let is_tx = matches!(v, MVal::Tx(_) | MVal::Typed(_));
        ensure_eq!(is_cached(&warm), is_tx, "cache computed");
        let json = |r: &Real| with_real!(r, x => serde_json::to_string(x)).map_err(|e| format!("to JSON: {e}"));
        let bin = |r: &Real| with_real!(r, x => bincode::serialize(x)).map_err(|e| format!("to bincode: {e}"));
        let (j, b) = (json(&real)?, bin(&real)?);
        ensure_eq!(json(&warm)?, j, "JSON of the cached value");
        ensure!(bin(&warm)? == b, "binary form of the cached value differs");
        let from_j = with_sort!(v.sort(), T, c => serde_json::from_str::<T>(&j).map(c))
            .map_err(|e| format!("from JSON {j}: {e}"))?;
        let from_b = with_sort!(v.sort(), T, c => bincode::deserialize::<T>(&b).map(c))
            .map_err(|e| format!("from bincode: {e}"))?;
        for (r, what) in [(&from_j, "JSON"), (&from_b, "bincode")] {
            ensure_eq!(r.model(), *v, "value through {what}");
            ensure!(*r == real, "the value through {what} does not compare equal");
            ensure!(!is_cached(r), "the value deserialized from {what} carries a cache");
        }
        if let Real::Tx(t) = &real {
            let Real::Tx(w) = &warm else { unreachable!() };
            let own = t.to_json();
            ensure_eq!(w.to_json(), own, "to_json of the cached transaction");
            let back = Transaction::from_json(&own).ok_or_else(|| format!("from_json rejects {own}"))?;
            ensure_eq!(MTx::of(&back), MTx::of(t), "transaction through to_json and from_json");
            ensure!(&back == t, "the transaction through its own JSON does not compare equal");
            ensure!(!is_cached(&Real::Tx(back)), "from_json gives a cache");
            // cutting the text must not be read as a transaction
            let half = &own[..own.len() - 1];
            ensure!(Transaction::from_json(half).is_none(), "from_json accepts a cut text");
        }
        Ok(())
    };
    ctx.part("tx", 20000, small_tx_val, check);
    ctx.part("large", 1500, tx_val, check);
    ctx.part("part", 40000, part_val, check);
    ctx.part("receipt", 40000, rcpt_val, check);
    ctx.part(
        "small",
        20000,
        |g| Small {
            fee: std::array::from_fn(|_| gen::word(g)),
            params: std::array::from_fn(|_| gen::word(g)),
            result: gen::word(g),
        },
        |c, o| {
            o.nt(true);
            let [a, b, t, m] = c.fee;
            both(&TransactionFee::new(a, b, t, m), "fee")?;
            both(&MParams(c.params).real(), "parameters")?;
            both(&script_result(c.result), "execution result")
        },
    );
    ctx.part(
        "rest",
        20000,
        |g| (g.below(43), g.u64(), gen::word(g), gen::h(g), gen::bytes(g), gen::utxo(g)),
        |(k, i, n, h, code, utxo): &(usize, u64, u64, H, B, MUtxo), o| {
            o.nt(!code.0.is_empty());
            let e = check_error(*k, *i as usize, *n, h, utxo);
            // hashes of fuel-types are not read from a JSON value
            let j = serde_json::to_string(&e).map_err(|x| format!("{e:?} to JSON: {x}"))?;
            let y: CheckError = serde_json::from_str(&j).map_err(|x| format!("{e:?} from JSON {j}: {x}"))?;
            ensure_eq!(y, e, "check error through JSON {j}");
            let b = bincode::serialize(&e).map_err(|x| format!("{e:?} to binary: {x}"))?;
            let y: CheckError = bincode::deserialize(&b).map_err(|x| format!("{e:?} from binary: {x}"))?;
            ensure_eq!(y, e, "check error through binary");
            for r in [TransactionRepr::Script, TransactionRepr::Create, TransactionRepr::Mint] {
                both(&r, "transaction kind")?;
            }
            let c = Contract::from(code.0.clone());
            both(&c, "contract")?;
            ensure_eq!(Vec::<u8>::from(c), code.0, "contract code");
            Ok(())
        },
    );
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Text {
    utxo: MUtxo,
    ptr: MPtr,
    /// Case mask applied to the digits.
    mask: u64,
}

fn mixed(s: &str, mask: u64) -> String {
    s.chars()
        .enumerate()
        .map(|(i, c)| if mask >> (i % 64) & 1 == 1 { c.to_ascii_uppercase() } else { c })
        .collect()
}

const ALPHABET: [&str; 40] = [
    "0", "1", "7", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F", "g", "G", "x", "X", "+", "-",
    " ", "_", "é", "ß", "日", "𝟘", "٣", "\u{0}", "0x", "0X", ".", "z", "/", ":", "@", "`", "\n", "ﬀ",
];

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum TextEdit {
    Insert(usize, String),
    Replace(usize, String),
    Cut(usize),
    DropFront(usize),
}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule(
        "ids and pointers with arbitrary components formatted and parsed in lower, upper and mixed case, \
         with and without prefix, and texts made from them by inserting, replacing or cutting characters \
         (ASCII and multi-byte) or assembled at random, parsed as both types; non-trivial: formatted \
         values with non-zero content, or texts that are not a value's own form",
    );
    ctx.part(
        "format",
        60000,
        |g| Text { utxo: gen::utxo(g), ptr: gen::ptr(g), mask: g.u64() },
        |c, o| {
            o.nt(c.utxo.tx != H::default() || c.ptr.height != 0);
            let u = c.utxo.real();
            let low = format!("{}{:02x}", hex(&c.utxo.tx.0), c.utxo.idx);
            ensure_eq!(format!("{u:x}"), low, "lower-case text");
            ensure_eq!(format!("{u:X}"), low.to_uppercase(), "upper-case text");
            ensure_eq!(format!("{u:#x}"), format!("0x{low}"), "prefixed lower-case text");
            ensure_eq!(format!("{u:#X}"), format!("0x{}", low.to_uppercase()), "prefixed upper-case text");
            let p = c.ptr.real();
            let plow = format!("{:08x}{:04x}", c.ptr.height, c.ptr.index);
            ensure_eq!(format!("{p:x}"), plow, "lower-case pointer text");
            ensure_eq!(format!("{p:X}"), plow.to_uppercase(), "upper-case pointer text");
            for s in [
                format!("{u:x}"),
                format!("{u:X}"),
                format!("{u:#x}"),
                format!("{u:#X}"),
                mixed(&low, c.mask),
                format!("0x{}", mixed(&low, c.mask)),
                format!("0x{}", low.to_uppercase()),
            ] {
                let back: UtxoId = s.parse().map_err(|e| format!("{s:?} is rejected: {e}"))?;
                ensure_eq!(MUtxo::of(&back), c.utxo, "id parsed from {s:?}");
                ensure!(back == u, "the id parsed from {s:?} does not compare equal");
            }
            for s in [format!("{p:x}"), format!("{p:X}"), mixed(&plow, c.mask)] {
                let back: TxPointer = s.parse().map_err(|e| format!("{s:?} is rejected: {e}"))?;
                ensure_eq!(MPtr::of(&back), c.ptr, "pointer parsed from {s:?}");
            }
            // every cut within the transaction id, and every cut of the pointer
            for n in 3..66 {
                for s in [&low[..n], &format!("0x{}", &low[66 - n..])] {
                    // a cut may uncover a prefix of its own
                    if s.trim_start_matches("0x").len() > 2 {
                        ensure!(s.parse::<UtxoId>().is_err(), "the cut text {s:?} is accepted");
                    }
                }
            }
            for n in 0..12 {
                ensure!(plow[..n].parse::<TxPointer>().is_err(), "the cut text {:?} is accepted", &plow[..n]);
            }
            ensure!(format!("{plow}0").parse::<TxPointer>().is_err(), "a longer text is accepted");
            ensure!(format!("0{plow}").parse::<TxPointer>().is_err(), "a longer text is accepted");
            Ok(())
        },
    );
    ctx.part(
        "arbitrary",
        120000,
        |g| {
            let mut s = match g.below(4) {
                0 => format!("{:x}", gen::utxo(g).real()),
                1 => format!("{:#x}", gen::utxo(g).real()),
                2 => format!("{:x}", gen::ptr(g).real()),
                _ => {
                    let n = *g.pick(&[0, 1, 2, 3, 4, 11, 12, 13, 24, 33, 64, 65, 66, 67, 68]);
                    let hexish = g.chance(1, 2);
                    (0..n).map(|_| if hexish { ALPHABET[g.below(16)] } else { *g.pick(&ALPHABET) }).collect()
                }
            };
            for _ in 0..g.below(3) {
                let chars: Vec<char> = s.chars().collect();
                let at = g.below(chars.len() + 1);
                let e = match g.below(6) {
                    0 | 1 => TextEdit::Insert(at, g.pick(&ALPHABET).to_string()),
                    2..=4 => TextEdit::Replace(at, g.pick(&ALPHABET).to_string()),
                    _ if g.chance(1, 2) => TextEdit::Cut(at),
                    _ => TextEdit::DropFront(at),
                };
                let part = |a: usize, b: usize| chars[a.min(chars.len())..b.min(chars.len())].iter().collect();
                s = match e {
                    TextEdit::Insert(i, x) => {
                        let (a, b): (String, String) = (part(0, i), part(i, chars.len()));
                        a + &x + &b
                    }
                    TextEdit::Replace(i, x) => {
                        let (a, b): (String, String) = (part(0, i), part(i + x.chars().count(), chars.len()));
                        // keep the byte length when a wider character goes in
                        let extra = x.len() - x.chars().count();
                        a + &x + &b.chars().skip(extra).collect::<String>()
                    }
                    TextEdit::Cut(i) => part(0, i),
                    TextEdit::DropFront(i) => part(i, chars.len()),
                };
            }
            s
        },
        |s: &String, o| {
            let u = no_panic(|| s.parse::<UtxoId>()).map_err(|e| format!("parsing {s:?} as an id {e}"))?;
            let p = no_panic(|| s.parse::<TxPointer>()).map_err(|e| format!("parsing {s:?} as a pointer {e}"))?;
            let body = s.trim_start_matches("0x");
            let hexa = |t: &str| t.bytes().all(|b| b.is_ascii_hexdigit());
            o.nt(true);
            if !hexa(body) {
                o.class("not hexadecimal");
                ensure!(u.is_err(), "{s:?} is accepted as an id");
            } else if body.len() > 2 && body.len() < 66 {
                o.class("cut short");
                ensure!(u.is_err(), "{s:?} is accepted as an id");
            } else if body.len() <= 2 && s.len() <= 4 {
                o.class("an index");
                let want = MUtxo { tx: H::default(), idx: u8::from_str_radix(body, 16).unwrap_or(0) };
                ensure_eq!(u.ok().map(|u| MUtxo::of(&u)), Some(want), "{s:?} parsed");
            } else if body.len() == 66 && s.len() <= 68 {
                o.class("an id");
                let raw = unhex(&body.to_lowercase()).unwrap();
                let want = MUtxo { tx: H(raw[..32].try_into().unwrap()), idx: raw[32] };
                ensure_eq!(u.ok().map(|u| MUtxo::of(&u)), Some(want), "{s:?} parsed");
            }
            if hexa(s) && s.len() == 12 {
                o.class("a pointer");
                let n = u64::from_str_radix(s, 16).unwrap();
                let want = MPtr { height: (n >> 16) as u32, index: n as u16 };
                ensure_eq!(p.ok().map(|p| MPtr::of(&p)), Some(want), "{s:?} parsed");
            } else {
                ensure!(p.is_err(), "{s:?} is accepted as a pointer");
            }
            Ok(())
        },
    );
}

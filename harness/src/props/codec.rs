//! C01 to C06: the binary form.

use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::val::*;
use crate::{enc, with_real, with_sort};
use fuel_tx::*;
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};

pub fn size(r: &Real) -> usize {
    with_real!(r, v => v.serialized_size())
}
pub fn to_bytes(r: &Real) -> Vec<u8> {
    with_real!(r.clone(), mut_v => { let mut v = mut_v; v.to_bytes() })
}
pub fn read_into(r: &Real, buf: &mut [u8]) -> std::io::Result<usize> {
    with_real!(r.clone(), mut_v => { let mut v = mut_v; v.read(buf) })
}
pub fn from_bytes(s: Sort, b: &[u8]) -> std::io::Result<Real> {
    with_sort!(s, T, c => T::from_bytes(b).map(c))
}
/// Decodes into the given value.
pub fn write_over(r: &mut Real, b: &[u8]) -> std::io::Result<usize> {
    with_real!(r, v => v.write(b))
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Trip {
    val: MVal,
    prior: MVal,
    tail: B,
}

fn trip(g: &mut G, val: MVal) -> Trip {
    let prior = same_sort(g, val.sort());
    let tail = if g.chance(1, 2) { gen::bytes(g) } else { B(vec![]) };
    Trip { val, prior, tail }
}

fn check_trip(c: &Trip, o: &mut Obs) -> Res {
    o.nt(c.val.padded() || c.val.rich());
    o.class(c.val.class());
    o.class_if(c.val.padded(), "with padding");
    o.class_if(!c.tail.0.is_empty(), "with trailing bytes");
    let sort = c.val.sort();
    let real = c.val.real();
    ensure_eq!(real.model(), c.val, "building the value");
    let n = size(&real);
    let bytes = to_bytes(&real);
    ensure_eq!(bytes.len(), n, "length of the encoding against serialized_size");
    let mut buf = vec![0; n];
    let m = read_into(&real, &mut buf).map_err(|e| format!("encoding failed: {e}"))?;
    ensure_eq!(m, n, "bytes reported as written");
    ensure!(buf == bytes, "reading into a buffer and to_bytes differ");
    let mut long = bytes.clone();
    long.extend_from_slice(&c.tail.0);
    let want = c.val.on_wire();
    for b in [&bytes, &long] {
        let back = from_bytes(sort, b).map_err(|e| format!("decoding failed: {e}"))?;
        ensure_eq!(back.model(), want, "decoded value");
        ensure!(back == real, "the decoded value does not compare equal");
        ensure_eq!(size(&back), n, "serialized_size of the decoded value");
        let mut prior = c.prior.real();
        let used = write_over(&mut prior, b).map_err(|e| format!("decoding in place failed: {e}"))?;
        ensure_eq!(used, n, "bytes reported as consumed");
        let mut got = prior.model();
        if let (MVal::Rcpt(MRcpt::Panic { contract, .. }), MVal::Rcpt(MRcpt::Panic { .. })) =
            (&mut got, &c.prior)
        {
            *contract = None;
        }
        ensure_eq!(got, want, "value decoded over another one");
        with_real!(&mut prior, v => v.flush()).map_err(|e| format!("flushing failed: {e}"))?;
        ensure!(to_bytes(&prior) == bytes, "flushing changed the decoded value");
        ensure!(to_bytes(&back) == bytes, "the decoded value encodes differently");
    }
    if let Real::Tx(t) = &real {
        for b in [&bytes, &long] {
            let (used, back) =
                Transaction::try_from_bytes(b).map_err(|e| format!("try_from_bytes failed: {e}"))?;
            ensure_eq!(used, n, "bytes try_from_bytes reports as consumed");
            ensure!(&back == t, "try_from_bytes gives another transaction");
        }
        ensure_eq!(t.is_script(), matches!(back_kind(&bytes), Some(Kind::Script)), "kind written");
        // the typed and the generic form are the same bytes
        let typed = match &c.val {
            MVal::Tx(t) => MVal::Typed(t.clone()).real(),
            _ => unreachable!(),
        };
        ensure!(to_bytes(&typed) == bytes, "typed and generic encodings differ");
        ensure_eq!(size(&typed), n, "serialized_size of the typed transaction");
    }
    Ok(())
}

fn back_kind(b: &[u8]) -> Option<Kind> {
    match u64::from_be_bytes(b.get(..8)?.try_into().ok()?) {
        0 => Some(Kind::Script),
        1 => Some(Kind::Create),
        2 => Some(Kind::Mint),
        _ => None,
    }
}


pub fn c01(ctx: &mut Ctx) {
    ctx.rule(
        "transactions of every kind with every field arbitrary (boundary-heavy words, pooled and random \
         hashes, payloads of every padding residue, sometimes hundreds of elements), typed or generic, \
         followed by arbitrary bytes, decoded fresh, in place over another value and through \
         try_from_bytes; non-trivial: at least two elements or a payload that needs padding",
    );
    ctx.part(
        "tx",
        6000,
        |g| {
            let v = tx_val(g);
            trip(g, v)
        },
        check_trip,
    );
    ctx.part(
        "wide",
        40,
        |g| (gen::wider(g), g.chance(1, 2)),
        |(w, typed), o| {
            o.class_if(w.slots > 255, "more than 255 slots");
            let t = w.tx();
            let val = if *typed { MVal::Typed(t) } else { MVal::Tx(t) };
            let prior = same_sort(&mut G::seeded(w.seed), val.sort());
            check_trip(&Trip { val, prior, tail: B(vec![7; 9]) }, o)
        },
    );
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule(
        "one input, output, witness, storage slot, UTXO id or transaction pointer with every field \
         arbitrary, followed by arbitrary bytes, decoded fresh and over another arbitrary value of the \
         type; non-trivial: any input or output, otherwise a value with non-zero content",
    );
    ctx.part(
        "part",
        30000,
        |g| {
            let v = part_val(g);
            trip(g, v)
        },
        check_trip,
    );
    ctx.part(
        "long",
        60,
        |g| (g.below(6) as u8, *g.pick(&[65536, 100_001, 1 << 20, (1 << 20) + 1, 3_000_001, 16 << 20]), g.u64()),
        |(what, len, seed): &(u8, usize, u64), o| {
            let p = B(expand(*seed | 1, *len));
            let g = &mut G::seeded(*seed);
            let val = if *what == 0 {
                MVal::Wit(p)
            } else {
                let mut x = gen::input_of(g, [1, 1, 3, 4, 4][*what as usize - 1], true);
                match (&mut x, what) {
                    (MIn::CoinPred { pred, .. }, 1) => *pred = p,
                    (MIn::CoinPred { pdata, .. }, _) => *pdata = p,
                    (MIn::MsgSigned { data, .. }, _) => *data = p,
                    (MIn::MsgPred { pred, .. }, 4) => *pred = p,
                    (MIn::MsgPred { pdata, .. }, _) => *pdata = p,
                    _ => {}
                }
                MVal::In(x)
            };
            let prior = same_sort(g, val.sort());
            check_trip(&Trip { val, prior, tail: B(vec![7; 9]) }, o)
        },
    );
}

pub fn c03(ctx: &mut Ctx) {
    ctx.rule(
        "transactions and parts with every field arbitrary, their encoding compared byte for byte with \
         an independent encoder written from the format; non-trivial: at least two elements, or a payload \
         that needs padding, or a part with content",
    );
    let check = |v: &MVal, o: &mut Obs| {
        o.nt(v.padded() || v.rich());
        o.class(v.class());
        let got = to_bytes(&v.real());
        let want = v.bytes();
        if got != want {
            let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return Err(format!(
                "{} encodes to {} bytes, the format says {}; first difference at byte {at}",
                v.class(),
                got.len(),
                want.len()
            ));
        }
        ensure_eq!(size(&v.real()), want.len(), "serialized_size");
        // and the format's bytes decode to the value
        let back = from_bytes(v.sort(), &want).map_err(|e| format!("decoding failed: {e}"))?;
        ensure_eq!(back.model(), *v, "value decoded from the format's bytes");
        // published sizes of the fixed parts
        let fixed = match v {
            MVal::Tx(t) | MVal::Typed(t) => {
                let l = enc::layout(t);
                let (c, first) = match t.kind {
                    Kind::Script => (consts::TRANSACTION_SCRIPT_FIXED_SIZE, l.script),
                    Kind::Create => (consts::TRANSACTION_CREATE_FIXED_SIZE, l.slots_at),
                    Kind::Mint => (consts::TRANSACTION_MINT_FIXED_SIZE, l.outputs_at),
                };
                Some((c, first))
            }
            MVal::Slot(..) => Some((StorageSlot::SLOT_SIZE, want.len())),
            MVal::Utxo(_) => Some((UtxoId::LEN, want.len())),
            MVal::Ptr(_) => Some((TxPointer::LEN, want.len())),
            _ => None,
        };
        if let Some((a, b)) = fixed {
            ensure_eq!(a, b, "published fixed size of {}", v.class());
        }
        let kind = match v {
            MVal::In(i) => Some(InputRepr::from(&i.real()) as u64),
            MVal::Out(x) => Some(OutputRepr::from(&x.real()) as u64),
            MVal::Tx(t) => Some(TransactionRepr::from(&t.real()) as u64),
            _ => None,
        };
        if let Some(k) = kind {
            ensure_eq!(k.to_be_bytes(), want[..8], "identifier of {}", v.class());
        }
        Ok(())
    };
    ctx.part("tx", 6000, tx_val, check);
    ctx.part("part", 20000, part_val, check);
    let encoded = |v: MVal, o: &mut Obs| -> Res {
        o.nt(true);
        ensure!(to_bytes(&v.real()) == v.bytes(), "the encoding differs from the format");
        ensure_eq!(size(&v.real()), v.bytes().len(), "serialized_size");
        Ok(())
    };
    ctx.part("wide", 60, gen::wider, |w, o| encoded(MVal::Tx(w.tx()), o));
    // predicates that are empty, which are encoded like signed inputs
    ctx.part(
        "hollow",
        4000,
        |g| {
            let t = gen::small_tx(g);
            gen::hollow(g, t)
        },
        |t, o| {
            o.class_if(t.inputs.iter().any(MIn::is_hollow), "with an empty predicate");
            encoded(MVal::Tx(t.clone()), o)
        },
    );
}

pub fn c04(ctx: &mut Ctx) {
    ctx.rule(
        "receipts of all eleven kinds with every field arbitrary and payloads of every padding residue, \
         compared with an independent encoder, encoded into buffers with arbitrary prior content, decoded \
         with trailing bytes and over other receipts; non-trivial: every receipt",
    );
    ctx.part(
        "trip",
        20000,
        |g| {
            let v = rcpt_val(g);
            trip(g, v)
        },
        check_trip,
    );
    ctx.part(
        "layout",
        20000,
        |g| (rcpt_val(g), g.u64(), g.below(40)),
        |(v, fill, extra), o| {
            o.nt(true);
            o.class(v.class());
            let real = v.real();
            let want = v.bytes();
            ensure_eq!(B(to_bytes(&real)), B(want.clone()), "encoding of {}", v.class());
            ensure_eq!(size(&real), want.len(), "serialized_size of {}", v.class());
            let mut buf = expand(*fill | 1, want.len() + extra);
            let before = buf.clone();
            let n = read_into(&real, &mut buf).map_err(|e| format!("encoding failed: {e}"))?;
            ensure_eq!(n, want.len(), "bytes reported as written");
            ensure_eq!(
                B(buf[..n].to_vec()),
                B(want.clone()),
                "encoding of {} into a used buffer",
                v.class()
            );
            ensure!(buf[n..] == before[n..], "bytes after the receipt were changed");
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- hostile bytes

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
enum Edit {
    Word(usize, u64),
    Flip(usize, u8),
    Cut(usize),
    Append(B),
    /// Copy a range over another place.
    Splice(usize, usize, usize),
    Drop(usize, usize),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Hostile {
    base: Option<MVal>,
    raw: B,
    edits: Vec<Edit>,
    sort: Sort,
}

fn nasty(g: &mut G) -> u64 {
    match g.below(8) {
        0 => g.below(12) as u64,
        1 => g.below(4000) as u64,
        2 => 1 << g.below(64),
        3 => u64::MAX - g.below(17) as u64,
        4 => (1u64 << g.below(64)).wrapping_sub(1 + g.below(9) as u64),
        5 => *g.pick(&[
            0x1000_0000,
            0x4000_0000,
            0x7fff_ffff,
            0x8000_0000,
            0xffff_ffff,
            0x1_0000_0000,
            0x7fff_ffff_ffff_ffff,
            0x7fff_ffff_ffff_fff8,
            0x8000_0000_0000_0000,
        ]),
        6 => (1u64 << 32) | g.below(12) as u64,
        _ => g.u64(),
    }
}

fn hostile(g: &mut G) -> Hostile {
    if g.chance(1, 12) {
        let n = gen::length(g);
        let mut raw = gen::filled(g, n);
        if g.chance(3, 4) && n >= 8 {
            raw.0[..8].copy_from_slice(&(g.below(12) as u64).to_be_bytes());
        }
        return Hostile { base: None, raw, edits: vec![], sort: *g.pick(&SORTS) };
    }
    let base = any_val(g);
    let len = base.bytes().len();
    let control = base.control();
    let mut edits = Vec::new();
    for _ in 0..1 + g.below(3) {
        edits.push(match g.below(10) {
            0..=4 if !control.is_empty() => Edit::Word(*g.pick(&control), nasty(g)),
            5 => Edit::Word(8 * g.below(len / 8 + 1), nasty(g)),
            6 => Edit::Flip(g.below(len), 1 << g.below(8)),
            7 => Edit::Cut(g.below(len + 1)),
            8 => Edit::Append(gen::bytes(g)),
            9 => Edit::Splice(8 * g.below(len / 8 + 1), 8 * g.below(len / 8 + 1), g.below(200)),
            _ => Edit::Drop(8 * g.below(len / 8 + 1), 8 * (1 + g.below(6))),
        });
    }
    let sort = if g.chance(1, 8) { *g.pick(&SORTS) } else { base.sort() };
    Hostile { base: Some(base), raw: B(vec![]), edits, sort }
}

fn mangle(c: &Hostile) -> Vec<u8> {
    let mut b = match &c.base {
        Some(v) => v.bytes(),
        None => c.raw.0.clone(),
    };
    for e in &c.edits {
        match e {
            Edit::Word(at, w) => {
                if at + 8 <= b.len() {
                    b[*at..at + 8].copy_from_slice(&w.to_be_bytes());
                }
            }
            Edit::Flip(at, m) => {
                if let Some(x) = b.get_mut(*at) {
                    *x ^= m;
                }
            }
            Edit::Cut(at) => b.truncate(*at),
            Edit::Append(t) => b.extend_from_slice(&t.0),
            Edit::Splice(from, to, n) => {
                for i in 0..*n {
                    if from + i < b.len() && to + i < b.len() {
                        b[to + i] = b[from + i];
                    }
                }
            }
            Edit::Drop(at, n) => {
                let a = (*at).min(b.len());
                let z = (at + n).min(b.len());
                b.drain(a..z);
            }
        }
    }
    b
}

/// What decoding `n` bytes may ask the allocator for in total.
fn allowance(n: usize) -> usize {
    64 * 1024 + 64 * n
}

fn judge_decode(sort: Sort, b: &[u8], o: &mut Obs) -> Res {
    let mut dst = with_sort!(sort, T, c => {
        // a default destination, except for receipts, which have none
        T::from_bytes(&blank(sort)).map(c).map_err(|e| format!("blank value: {e}"))?
    });
    let (r, asked) = alloc_meter::measure(|| no_panic(|| write_over(&mut dst, b)));
    let r = r.map_err(|e| format!("decoding {} bytes as {sort:?} {e}", b.len()))?;
    ensure!(
        asked <= allowance(b.len()),
        "decoding {} bytes as {sort:?} requested {asked} bytes of memory",
        b.len()
    );
    let (again, asked) = alloc_meter::measure(|| no_panic(|| from_bytes(sort, b)));
    let again = again.map_err(|e| format!("decoding {} bytes as {sort:?} {e}", b.len()))?;
    ensure!(asked <= allowance(b.len()), "decoding {} bytes requested {asked} bytes of memory", b.len());
    ensure_eq!(again.is_ok(), r.is_ok(), "from_bytes succeeds");
    let n = match r {
        Err(_) => {
            o.class("rejected");
            return Ok(());
        }
        Ok(n) => n,
    };
    o.class("accepted");
    ensure!(n <= b.len(), "decoding {} bytes claims to have consumed {n}", b.len());
    let fresh = again.expect("checked above");
    ensure!(fresh == dst, "decoding in place and decoding fresh give different values");
    let bytes = no_panic(|| to_bytes(&fresh)).map_err(|e| format!("encoding the decoded value {e}"))?;
    ensure_eq!(bytes.len(), size(&fresh), "size of the decoded value");
    let back = from_bytes(sort, &bytes).map_err(|e| format!("decoding the decoded value's encoding: {e}"))?;
    // a decoded panic instruction may have bits its opcode ignores, which encoding drops
    let panic = matches!(fresh, Real::Rcpt(Receipt::Panic { .. }));
    ensure!(panic || back == fresh, "the decoded value does not survive a round-trip: {:?}", fresh.model());
    ensure_eq!(back.model(), fresh.model(), "round-trip of the decoded value");
    if sort == Sort::Tx {
        let (used, t) = Transaction::try_from_bytes(b).map_err(|e| format!("try_from_bytes: {e}"))?;
        ensure_eq!(used, n, "bytes consumed by try_from_bytes");
        ensure!(Real::Tx(t) == fresh, "try_from_bytes gives another value");
    }
    Ok(())
}

fn blank(s: Sort) -> Vec<u8> {
    let t = |kind| MVal::Typed(MTx { kind, ..Default::default() }).bytes();
    match s {
        Sort::Tx | Sort::Script => t(Kind::Script),
        Sort::Create => t(Kind::Create),
        Sort::Mint => t(Kind::Mint),
        Sort::In => {
            let h = H::default();
            MVal::In(MIn::Contract {
                utxo: Default::default(),
                broot: h,
                sroot: h,
                ptr: Default::default(),
                id: h,
            })
            .bytes()
        }
        Sort::Out => MVal::Out(MOut::Message { recipient: H::default(), amount: 0 }).bytes(),
        Sort::Wit => vec![0; 8],
        Sort::Slot => vec![0; 64],
        Sort::Utxo => vec![0; 40],
        Sort::Ptr => vec![0; 16],
        Sort::Rcpt => MVal::Rcpt(MRcpt::Return { id: H::default(), val: 0, pc: 0, is: 0 }).bytes(),
    }
}

pub fn c05(ctx: &mut Ctx) {
    ctx.rule(
        "valid encodings of every type with up to three corruptions (extreme words at length, count and \
         identifier positions, arbitrary words, bit flips, cuts, splices, drops, appended bytes) and raw \
         byte strings, decoded as the right or another type under an allocation meter; non-trivial: bytes \
         that differ from the valid encoding they came from",
    );
    ctx.part("hostile", 60000, hostile, |c, o| {
        let b = mangle(c);
        let changed = c.base.as_ref().map_or(true, |v| v.bytes() != b || v.sort() != c.sort);
        o.nt(changed);
        judge_decode(c.sort, &b, o)
    });
    // every control word of a value driven through extreme values, one at a time
    ctx.part("control", 700, any_val, |v, o| {
        let base = v.bytes();
        o.nt(true);
        for at in v.control() {
            for w in [
                0,
                1,
                2,
                3,
                7,
                9,
                255,
                256,
                1 << 16,
                1 << 24,
                1 << 31,
                (1 << 32) - 1,
                1 << 32,
                1 << 40,
                1 << 56,
                (1 << 61) + 1,
                1 << 62,
                u64::MAX >> 1,
                1 << 63,
                u64::MAX - 15,
                u64::MAX - 8,
                u64::MAX - 7,
                u64::MAX - 6,
                u64::MAX,
            ] {
                let mut b = base.clone();
                b[at..at + 8].copy_from_slice(&w.to_be_bytes());
                judge_decode(v.sort(), &b, o).map_err(|e| format!("word {at} set to {w:#x}: {e}"))?;
            }
        }
        Ok(())
    });
}

pub fn c06(ctx: &mut Ctx) {
    ctx.rule(
        "valid encodings of every type cut at every byte (up to 700 bytes; otherwise at every element \
         boundary and 200 other places), with every identifier word replaced by words that name no \
         variant, with words in tx pointers that exceed its fields, decoded as another transaction kind, and encoded into buffers of every shorter and some \
         longer lengths; non-trivial: values with at least 16 bytes",
    );
    ctx.part(
        "cuts",
        1500,
        |g| (any_val(g), g.u64()),
        |(v, seed), o| {
            let real = v.real();
            let b = to_bytes(&real);
            o.nt(b.len() >= 16);
            o.class(v.class());
            let mut cuts: Vec<usize> = if b.len() <= 700 {
                (0..b.len()).collect()
            } else {
                let mut g = G::seeded(*seed);
                let mut c: Vec<usize> = (0..200).map(|_| g.below(b.len())).collect();
                for at in v.control() {
                    c.extend([at.saturating_sub(1), at, at + 1, at + 7, at + 8]);
                }
                c.extend((b.len() - 20)..b.len());
                c
            };
            cuts.retain(|c| *c < b.len());
            for cut in cuts {
                let r = no_panic(|| from_bytes(v.sort(), &b[..cut]))
                    .map_err(|e| format!("decoding the first {cut} of {} bytes {e}", b.len()))?;
                ensure!(
                    r.is_err(),
                    "decoding the first {cut} of {} bytes as {:?} succeeds",
                    b.len(),
                    v.sort()
                );
                if v.sort() == Sort::Tx {
                    ensure!(
                        Transaction::try_from_bytes(&b[..cut]).is_err(),
                        "try_from_bytes accepts the first {cut} of {} bytes",
                        b.len()
                    );
                }
                let mut buf = vec![0x5a; cut];
                let r = no_panic(|| read_into(&real, &mut buf))
                    .map_err(|e| format!("encoding {} bytes into {cut} {e}", b.len()))?;
                ensure!(r.is_err(), "encoding {} bytes into a buffer of {cut} succeeds", b.len());
            }
            for extra in [1, 7, 8, 100] {
                let before = expand(*seed | 1, b.len() + extra);
                let mut buf = before.clone();
                let n = read_into(&real, &mut buf).map_err(|e| format!("encoding: {e}"))?;
                ensure_eq!(n, b.len(), "bytes reported as written into a longer buffer");
                ensure!(buf[..n] == b[..], "encoding into a longer buffer differs");
                ensure!(buf[n..] == before[n..], "encoding changed bytes after the encoding");
            }
            Ok(())
        },
    );
    ctx.part(
        "identifiers",
        4000,
        |g| {
            let v = any_val(g);
            let n = g.below(40);
            let w = match g.below(4) {
                0 => 11 + g.below(250) as u64,
                1 => (1 << (8 + g.below(56))) | g.below(11) as u64,
                2 => u64::MAX - g.below(16) as u64,
                _ => g.u64() | (1 << 63),
            };
            (v, n, w)
        },
        |(v, n, w), o| {
            o.class(v.class());
            let b = v.bytes();
            // identifier positions and how many variants there are
            let mut ids: Vec<(usize, u64)> = match v {
                MVal::Tx(_) | MVal::Typed(_) => vec![(0, 3)],
                MVal::In(_) => vec![(0, 3)],
                MVal::Out(_) => vec![(0, 6)],
                MVal::Rcpt(_) => vec![(0, 11)],
                _ => vec![],
            };
            // the words of a tx pointer are narrower than they look
            for (at, bits) in v.pointers() {
                for shift in [bits, bits + 1, bits + *n as u32 % (64 - bits), 63] {
                    let mut x = b.clone();
                    let w = u64::from_be_bytes(x[at..at + 8].try_into().unwrap()) | 1 << shift;
                    x[at..at + 8].copy_from_slice(&w.to_be_bytes());
                    let r = no_panic(|| from_bytes(v.sort(), &x))
                        .map_err(|e| format!("decoding with {w:#x} in a tx pointer at {at} {e}"))?;
                    ensure!(r.is_err(), "{w:#x} is accepted in a tx pointer at byte {at}");
                }
                o.nt(true);
            }
            if let MVal::Tx(t) | MVal::Typed(t) = v {
                let l = enc::layout(t);
                ids.extend(l.inputs.iter().map(|a| (*a, 3)));
                ids.extend(l.outputs.iter().map(|a| (*a, 6)));
            }
            if ids.is_empty() {
                return Ok(());
            }
            o.nt(true);
            let (at, variants) = ids[n % ids.len()];
            for w in [variants, variants + 1, *w] {
                let mut x = b.clone();
                x[at..at + 8].copy_from_slice(&w.to_be_bytes());
                let r = no_panic(|| from_bytes(v.sort(), &x))
                    .map_err(|e| format!("decoding with identifier {w:#x} at {at} {e}"))?;
                ensure!(r.is_err(), "identifier {w:#x} at byte {at} is accepted decoding {:?}", v.sort());
                if v.sort() == Sort::Tx {
                    ensure!(
                        Transaction::try_from_bytes(&x).is_err(),
                        "try_from_bytes accepts identifier {w:#x} at byte {at}"
                    );
                }
            }
            // the wrong transaction kind
            if let MVal::Tx(t) | MVal::Typed(t) = v {
                for (s, k) in
                    [(Sort::Script, Kind::Script), (Sort::Create, Kind::Create), (Sort::Mint, Kind::Mint)]
                {
                    let r = no_panic(|| from_bytes(s, &b))
                        .map_err(|e| format!("decoding a {:?} as {s:?} {e}", t.kind))?;
                    ensure_eq!(r.is_ok(), k == t.kind, "decoding a {:?} transaction as {s:?} succeeds", t.kind);
                }
            }
            Ok(())
        },
    );
}

//! Generators: boundary-heavy values, small pools so that things collide, transactions of every shape.

use crate::engine::G;
use crate::model::*;
use crate::refs;

pub fn word(g: &mut G) -> u64 {
    let w = match g.below(9) {
        0 => g.below(4) as u64,
        1 => g.below(300) as u64,
        2 => *g.pick(&[
            0,
            1,
            7,
            8,
            0x7f,
            0x80,
            0xff,
            0x100,
            0xffff,
            0x10000,
            0x7fff_ffff,
            0xffff_ffff,
            0x1_0000_0000,
            0x7fff_ffff_ffff_ffff,
            0x8000_0000_0000_0000,
            u64::MAX - 7,
            u64::MAX - 1,
            u64::MAX,
        ]),
        3 => 1u64 << g.below(64),
        4 => u64::MAX - g.below(300) as u64,
        5 => g.u64() >> g.below(64),
        6 => g.hint(u64::MAX).unwrap_or(0),
        7 => match g.repeat() {
            Some(w) => w,
            None => g.u64(),
        },
        _ => g.u64(),
    };
    g.keep(w)
}

pub fn small_h(k: u8) -> H {
    H([k; 32])
}

pub fn h(g: &mut G) -> H {
    match g.below(6) {
        0 | 1 => small_h(g.below(5) as u8),
        2 => {
            // differs from a pool value in a single bit
            let mut x = small_h(g.below(3) as u8);
            let bit = g.below(256);
            x.0[bit / 8] ^= 1 << (bit % 8);
            x
        }
        3 => small_h(0xff),
        _ => H(g.blob(32).try_into().unwrap()),
    }
}

/// A value that differs from the given one in a single bit, anywhere.
pub fn near_h(g: &mut G, x: &H) -> H {
    let mut x = *x;
    let bit = g.below(256);
    x.0[bit / 8] ^= 1 << (bit % 8);
    x
}

/// Another value, as often as not one bit away.
pub fn other_h(g: &mut G, x: &H) -> H {
    if g.chance(1, 2) {
        near_h(g, x)
    } else {
        h(g)
    }
}

pub fn length(g: &mut G) -> usize {
    match g.below(10) {
        0 => 0,
        1..=3 => g.below(10),
        4..=6 => {
            let base = 8 * g.below(9);
            (base + g.below(3)).saturating_sub(1)
        }
        7 => *g.pick(&[3, 4, 5, 12, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
        8 => {
            if g.chance(1, 6) {
                // long ones now and then
                let max = if g.chance(1, 12) { 1 << 18 } else { 6000 };
                g.hint(max).unwrap_or(0) as usize
            } else {
                g.below(120)
            }
        }
        _ => {
            if g.chance(1, 8) {
                // beyond what sixteen bits count, now and then
                if g.chance(1, 40) {
                    65530 + g.below(5000)
                } else {
                    g.below(5000)
                }
            } else {
                g.below(400)
            }
        }
    }
}
/// Mostly short, rarely more than a few hundred.
pub fn small_length(g: &mut G) -> usize {
    if g.chance(1, 8) {
        let cap = if g.chance(1, 12) { usize::MAX } else { 300 };
        length(g).min(cap)
    } else {
        g.below(20)
    }
}
pub fn bytes(g: &mut G) -> B {
    let n = length(g);
    filled(g, n)
}
pub fn filled(g: &mut G, n: usize) -> B {
    if n == 0 {
        return B(vec![]);
    }
    match g.below(4) {
        // trailing zero bytes: what padding is confused with
        0 => {
            let mut b = g.blob(n);
            let z = g.below(n.min(9) + 1);
            let l = b.len();
            b[l - z..].fill(0);
            B(b)
        }
        1 => B(vec![0xff; n]),
        _ => B(g.blob(n)),
    }
}
pub fn nonempty(g: &mut G) -> B {
    let n = length(g).max(1);
    filled(g, n)
}

pub fn utxo(g: &mut G) -> MUtxo {
    MUtxo { tx: h(g), idx: byte(g) }
}
pub fn byte(g: &mut G) -> u8 {
    match g.below(4) {
        0 => g.below(4) as u8,
        1 => *g.pick(&[0u8, 1, 127, 128, 254, 255]),
        _ => g.below(256) as u8,
    }
}
pub fn ptr(g: &mut G) -> MPtr {
    MPtr { height: word(g) as u32, index: word(g) as u16 }
}

pub fn input_of(g: &mut G, variant: usize, small: bool) -> MIn {
    let by = |g: &mut G, ne: bool| {
        if small {
            let n = small_length(g).max(ne as usize);
            filled(g, n)
        } else if ne {
            nonempty(g)
        } else {
            bytes(g)
        }
    };
    match variant {
        0 => MIn::CoinSigned {
            utxo: utxo(g),
            owner: h(g),
            amount: word(g),
            asset: h(g),
            ptr: ptr(g),
            wit: byte(g),
            maturity: word(g),
        },
        1 => MIn::CoinPred {
            utxo: utxo(g),
            owner: h(g),
            amount: word(g),
            asset: h(g),
            ptr: ptr(g),
            maturity: word(g),
            pred: by(g, true),
            pdata: by(g, false),
        },
        2 => MIn::Contract { utxo: utxo(g), broot: h(g), sroot: h(g), ptr: ptr(g), id: h(g) },
        3 => MIn::MsgSigned {
            mid: h(g),
            sender: h(g),
            recipient: h(g),
            amount: word(g),
            nonce: word(g),
            wit: byte(g),
            data: by(g, false),
        },
        _ => MIn::MsgPred {
            mid: h(g),
            sender: h(g),
            recipient: h(g),
            amount: word(g),
            nonce: word(g),
            data: by(g, false),
            pred: by(g, true),
            pdata: by(g, false),
        },
    }
}
pub fn input(g: &mut G) -> MIn {
    let v = g.below(5);
    input_of(g, v, false)
}
/// An input as it can exist in memory: its predicate may be empty, which no encoding can express.
pub fn memory_input(g: &mut G) -> MIn {
    let mut x = input(g);
    if g.chance(1, 6) {
        x.clear_predicate();
    }
    x
}
/// Empties some of the predicates of a transaction, for what doesn't pass through the binary form.
pub fn hollow(g: &mut G, mut t: MTx) -> MTx {
    if g.chance(1, 4) {
        for x in &mut t.inputs {
            if g.chance(1, 2) {
                x.clear_predicate();
            }
        }
    }
    t
}
pub fn output(g: &mut G) -> MOut {
    match g.below(6) {
        0 => MOut::Coin { to: h(g), amount: word(g), asset: h(g) },
        1 => MOut::Contract { idx: byte(g), broot: h(g), sroot: h(g) },
        2 => MOut::Message { recipient: h(g), amount: word(g) },
        3 => MOut::Change { to: h(g), amount: word(g), asset: h(g) },
        4 => MOut::Variable { to: h(g), amount: word(g), asset: h(g) },
        _ => MOut::Created { id: h(g), sroot: h(g) },
    }
}
pub fn slot(g: &mut G) -> (H, H) {
    (h(g), h(g))
}

pub fn count(g: &mut G, max: usize) -> usize {
    match g.below(4) {
        0 => g.below(2),
        1 | 2 => g.below(5),
        _ if g.chance(1, 64) => g.hint(400).unwrap_or(0) as usize,
        _ => g.below(max + 1),
    }
}

pub fn kind(g: &mut G) -> Kind {
    match g.below(7) {
        0..=2 => Kind::Script,
        3..=5 => Kind::Create,
        _ => Kind::Mint,
    }
}

/// Any transaction of the given kind: every field arbitrary and unrelated.
pub fn tx_of(g: &mut G, kind: Kind, small: bool) -> MTx {
    let mut t = MTx { kind, ..Default::default() };
    let by = |g: &mut G| {
        if small {
            let n = small_length(g);
            filled(g, n)
        } else {
            bytes(g)
        }
    };
    let (mi, mo, mw, ms) = if small { (4, 4, 4, 4) } else { (9, 9, 9, 9) };
    // one list is sometimes long, because indexes are bytes
    let long = if g.chance(1, if small { 400 } else { 60 }) { 1 + g.below(4) } else { 0 };
    let cnt = |g: &mut G, max: usize, k: usize| {
        if long == k {
            *g.pick(&[16, 17, 32, 33, 64, 65, 128, 129, 254, 255, 256, 257, 300])
        } else {
            count(g, max)
        }
    };
    if kind == Kind::Mint {
        t.ptr = ptr(g);
    } else {
        t.price = word(g);
        t.limit = word(g);
        t.maturity = word(g);
        for _ in 0..cnt(g, mi, 1) {
            let v = g.below(5);
            t.inputs.push(input_of(g, v, small || long != 0));
        }
        for _ in 0..cnt(g, mw, 2) {
            let w = if long != 0 {
                let n = g.below(10);
                filled(g, n)
            } else {
                by(g)
            };
            t.wits.push(w);
        }
    }
    for _ in 0..cnt(g, mo, 3) {
        t.outputs.push(output(g));
    }
    match kind {
        Kind::Script => {
            t.script = by(g);
            t.data = by(g);
            t.rroot = h(g);
        }
        Kind::Create => {
            t.blen = word(g);
            t.bidx = byte(g);
            t.salt = h(g);
            for _ in 0..cnt(g, ms, 4) {
                t.slots.push(slot(g));
            }
        }
        Kind::Mint => {}
    }
    if g.chance(1, 12) {
        echo(g, &mut t.inputs, |g, x| {
            if x.signed().is_some() && g.chance(1, 4) {
                let w = byte(g);
                x.set_wit(w);
            }
            if (x.signed().is_some() || x.predicate().is_some()) && g.chance(1, 4) {
                let o = h(g);
                x.set_owner(o);
            }
        });
        echo(g, &mut t.outputs, |_, _| ());
        echo(g, &mut t.wits, |_, _| ());
        echo(g, &mut t.slots, |_, _| ());
    }
    t
}

/// Repeats an element of a list elsewhere in the list: next to itself, at the end, or in place of another.
fn echo<T: Clone>(g: &mut G, list: &mut Vec<T>, vary: impl Fn(&mut G, &mut T)) {
    if list.is_empty() || g.chance(1, 2) {
        return;
    }
    let i = g.below(list.len());
    let mut x = list[i].clone();
    vary(g, &mut x);
    match g.below(4) {
        0 => list.insert(i + 1, x),
        1 => list.push(x),
        2 => {
            // first and last alike
            list.push(list[0].clone());
        }
        _ => {
            let j = g.below(list.len());
            list[j] = x;
        }
    }
}

pub fn tx(g: &mut G) -> MTx {
    let k = kind(g);
    tx_of(g, k, false)
}
pub fn small_tx(g: &mut G) -> MTx {
    let k = kind(g);
    tx_of(g, k, true)
}
/// A script or create transaction.
pub fn exec_tx(g: &mut G) -> MTx {
    let k = if g.chance(1, 2) { Kind::Create } else { Kind::Script };
    tx_of(g, k, false)
}
pub fn small_exec_tx(g: &mut G) -> MTx {
    let k = if g.chance(1, 2) { Kind::Create } else { Kind::Script };
    tx_of(g, k, true)
}

/// An instruction word without bits its opcode ignores.
fn canonical_instr(raw: u32) -> u32 {
    u32::from(fuel_asm::Instruction::from(raw))
}

pub fn receipt(g: &mut G) -> MRcpt {
    let len = |g: &mut G, d: &B| if g.chance(1, 2) { crate::enc::pad_len(d.0.len()) as u64 } else { word(g) };
    match g.below(11) {
        0 => MRcpt::Call {
            id: h(g),
            to: h(g),
            amount: word(g),
            asset: h(g),
            gas: word(g),
            p1: word(g),
            p2: word(g),
            pc: word(g),
            is: word(g),
        },
        1 => MRcpt::Return { id: h(g), val: word(g), pc: word(g), is: word(g) },
        2 => {
            let data = bytes(g);
            MRcpt::ReturnData {
                id: h(g),
                ptr: word(g),
                len: len(g, &data),
                digest: h(g),
                data,
                pc: word(g),
                is: word(g),
            }
        }
        3 => {
            let reason = byte(g);
            MRcpt::Panic {
                id: h(g),
                reason,
                instr: if reason == 0 { 0 } else { canonical_instr(g.u64() as u32) },
                pc: word(g),
                is: word(g),
                contract: if g.chance(1, 2) { Some(h(g)) } else { None },
            }
        }
        4 => MRcpt::Revert { id: h(g), ra: word(g), pc: word(g), is: word(g) },
        5 => MRcpt::Log {
            id: h(g),
            ra: word(g),
            rb: word(g),
            rc: word(g),
            rd: word(g),
            pc: word(g),
            is: word(g),
        },
        6 => {
            let data = bytes(g);
            MRcpt::LogData {
                id: h(g),
                ra: word(g),
                rb: word(g),
                ptr: word(g),
                len: len(g, &data),
                digest: h(g),
                data,
                pc: word(g),
                is: word(g),
            }
        }
        7 => MRcpt::Transfer {
            id: h(g),
            to: h(g),
            amount: word(g),
            asset: h(g),
            pc: word(g),
            is: word(g),
        },
        8 => MRcpt::TransferOut {
            id: h(g),
            to: h(g),
            amount: word(g),
            asset: h(g),
            pc: word(g),
            is: word(g),
        },
        9 => MRcpt::ScriptResult { result: word(g), gas: word(g) },
        _ => {
            let data = bytes(g);
            MRcpt::MessageOut {
                mid: h(g),
                sender: h(g),
                recipient: h(g),
                amount: word(g),
                nonce: h(g),
                len: len(g, &data),
                digest: h(g),
                data,
            }
        }
    }
}

// ---------------------------------------------------------------- rule-abiding transactions

/// Addresses of the signing keys (index = key); see `keys`.
pub fn key_addr(k: usize) -> H {
    #[cfg(feature = "full")]
    return crate::keys::addr(k);
    #[cfg(not(feature = "full"))]
    return small_h(0x40 + k as u8);
}
pub const KEYS: usize = 6;

/// A transaction, the height and the parameters it is checked with.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Checked {
    pub tx: MTx,
    pub height: u64,
    pub params: MParams,
}

/// A transaction that obeys every structural rule under its parameters (predicate owners included;
/// signatures and balances are left to the caller).
pub fn valid(g: &mut G, kind: Kind) -> Checked {
    let mut t = MTx { kind, ..Default::default() };
    let mut p = MParams::default();
    let height = word(g);
    let height = if kind == Kind::Mint && g.chance(3, 4) { height as u32 as u64 } else { height };
    if kind == Kind::Mint {
        t.ptr = MPtr { height: height as u32, index: word(g) as u16 };
        let n = count(g, 6).min(256);
        let n = if g.chance(1, 60) { 250 + g.below(7) } else { n };
        let (at, base) = (g.below(32), h(g));
        let alike = g.chance(1, 2);
        for i in 0..n {
            // distinct assets by construction, often different in one byte only
            let mut asset = if alike { base } else { h(g) };
            asset.0[at] = i as u8;
            t.outputs.push(MOut::Coin { to: h(g), amount: word(g), asset });
        }
        params_around(g, &t, &mut p);
        return Checked { tx: t, height, params: p };
    }
    t.maturity = match g.below(4) {
        0 => height,
        1 => height.saturating_sub(1),
        _ => {
            if height == 0 {
                0
            } else {
                (word(g)) % height.max(1)
            }
        }
    };
    t.price = match g.below(5) {
        0 => 0,
        1 => g.below(10) as u64,
        2 => g.hint(u64::MAX >> 20).unwrap_or(1),
        _ => g.u64() >> (20 + g.below(44)),
    };
    t.limit = match g.below(5) {
        0 => 0,
        1 => PARAM_DEFAULTS[P_GAS],
        2 => g.hint(PARAM_DEFAULTS[P_GAS]).unwrap_or(1),
        _ => g.below(PARAM_DEFAULTS[P_GAS] as usize + 1) as u64,
    };
    // inputs
    let n_wit = match kind {
        Kind::Create => 1 + g.below(4),
        _ => g.below(5),
    };
    let n_wit = if g.chance(1, 150) { 250 + g.below(7) } else { n_wit };
    for _ in 0..n_wit {
        let b = if n_wit > 20 {
            B(vec![0; 64 * g.below(2)])
        } else if g.chance(1, 3) { B(vec![0; 64]) } else { bytes(g) };
        t.wits.push(b);
    }
    let amounts = g.below(4);
    let amount = |g: &mut G| match amounts {
        0 => g.below(1000) as u64,
        3 if g.chance(1, 3) => g.hint(u64::MAX >> 8).unwrap_or(0),
        1 => (1 << 40) + g.below(1 << 20) as u64,
        _ => g.u64() >> (8 + g.below(50)),
    };
    let n_in = match g.below(160) {
        0 => 255,
        1 => 200 + g.below(56),
        2 => 256 + g.below(100),
        _ => count(g, 8),
    };
    // few assets: plain ones, or ones that differ from each other in a single bit
    let mut palette = [0u8, 1, 2, 3].map(small_h);
    if g.chance(1, 2) {
        if g.chance(1, 2) {
            palette[1] = h(g);
        }
        palette[2] = near_h(g, &palette[1].clone());
        palette[3] = near_h(g, &palette[0].clone());
    }
    // identities are unique by construction, often different in one byte only
    let at = g.below(31);
    let (alike, base) = (g.chance(1, 2), h(g));
    let one_tx = n_in < 256 && g.chance(1, 4);
    let mut contracts = Vec::new();
    for i in 0..n_in {
        let mut uid = if alike { base } else { h(g) };
        uid.0[at] = i as u8;
        uid.0[at + 1] ^= (i >> 8) as u8;
        if !alike {
            uid.0[at + 1] = (i >> 8) as u8;
        }
        let u = if one_tx { MUtxo { tx: base, idx: i as u8 } } else { MUtxo { tx: uid, idx: byte(g) } };
        let asset = *g.pick(&palette);
        let small = n_in > 20;
        let payload = |g: &mut G| {
            if small {
                let n = g.below(9);
                filled(g, n)
            } else {
                bytes(g)
            }
        };
        let v = match g.below(10) {
            0..=2 if n_wit > 0 => 0,
            3 | 4 => 1,
            5 if kind == Kind::Script && i < 256 => 2,
            6 | 7 if n_wit > 0 => 3,
            8 | 9 => 4,
            _ => 1,
        };
        t.inputs.push(match v {
            0 => {
                let k = g.below(KEYS);
                MIn::CoinSigned {
                    utxo: u,
                    owner: key_addr(k),
                    amount: amount(g),
                    asset,
                    ptr: ptr(g),
                    wit: g.below(n_wit) as u8,
                    maturity: word(g),
                }
            }
            1 => {
                let pred = if small { B(vec![(i % 255) as u8 + 1]) } else { nonempty(g) };
                MIn::CoinPred {
                    utxo: u,
                    owner: refs::code_root(&pred.0),
                    amount: amount(g),
                    asset,
                    ptr: ptr(g),
                    maturity: word(g),
                    pred,
                    pdata: payload(g),
                }
            }
            2 => {
                contracts.push(i);
                MIn::Contract { utxo: utxo(g), broot: h(g), sroot: h(g), ptr: ptr(g), id: uid }
            }
            3 => {
                let k = g.below(KEYS);
                MIn::MsgSigned {
                    mid: uid,
                    sender: h(g),
                    recipient: key_addr(k),
                    amount: amount(g),
                    nonce: word(g),
                    wit: g.below(n_wit) as u8,
                    data: payload(g),
                }
            }
            _ => {
                let pred = if small { B(vec![(i % 255) as u8 + 1]) } else { nonempty(g) };
                MIn::MsgPred {
                    mid: uid,
                    sender: h(g),
                    recipient: refs::code_root(&pred.0),
                    amount: amount(g),
                    nonce: word(g),
                    data: payload(g),
                    pred,
                    pdata: payload(g),
                }
            }
        });
    }
    let mut assets: Vec<H> = t.inputs.iter().filter_map(|i| i.asset()).collect();
    assets.sort();
    assets.dedup();
    // outputs
    let mut outs: Vec<MOut> = contracts
        .iter()
        .map(|i| MOut::Contract { idx: *i as u8, broot: h(g), sroot: h(g) })
        .collect();
    let mut changed: Vec<H> = Vec::new();
    let mut created = false;
    let n_out = if g.chance(1, 100) { 240 + g.below(40) } else { count(g, 6) };
    for _ in 0..n_out {
        match g.below(7) {
            0 | 1 if !assets.is_empty() => {
                let asset = *g.pick(&assets);
                let amount = if g.chance(1, 2) { g.below(50) as u64 } else { g.u64() >> (20 + g.below(44)) };
                outs.push(MOut::Coin { to: h(g), amount, asset });
            }
            2 => outs.push(MOut::Message { recipient: h(g), amount: word(g) }),
            3 | 4 if !assets.is_empty() => {
                let asset = *g.pick(&assets);
                if !changed.contains(&asset) && (kind == Kind::Script || asset == H::default()) {
                    changed.push(asset);
                    outs.push(MOut::Change { to: h(g), amount: word(g), asset });
                } else if n_out > 20 {
                    outs.push(MOut::Message { recipient: h(g), amount: word(g) });
                }
            }
            5 if kind == Kind::Script => {
                outs.push(MOut::Variable { to: h(g), amount: word(g), asset: h(g) })
            }
            _ if kind == Kind::Create && !created => {
                created = true;
                outs.push(MOut::Created { id: h(g), sroot: h(g) });
            }
            _ if n_out > 20 => outs.push(MOut::Message { recipient: h(g), amount: word(g) }),
            _ => {}
        }
    }
    // shuffle
    while !outs.is_empty() {
        let i = g.below(outs.len());
        let o = outs.remove(i);
        t.outputs.push(o);
    }
    match kind {
        Kind::Script => {
            t.script = bytes(g);
            t.data = bytes(g);
            t.rroot = h(g);
        }
        Kind::Create => {
            t.bidx = g.below(n_wit) as u8;
            t.blen = t.wits[t.bidx as usize].0.len() as u64 / 4;
            t.salt = h(g);
            let n = match g.below(120) {
                0 | 1 => 255,
                2 => 256 + g.below(200),
                _ => count(g, 8),
            };
            let (alike, base) = (g.chance(1, 3), h(g));
            for _ in 0..n {
                let s = slot(g);
                t.slots.push(if alike { (near_h(g, &base), s.1) } else { s });
            }
            t.slots.sort_by_key(|s| s.0);
        }
        Kind::Mint => {}
    }
    params_around(g, &t, &mut p);
    Checked { tx: t, height, params: p }
}

/// A limit far above `q`, often a bare power of two.
pub fn generous(g: &mut G, q: u64) -> u64 {
    let bits = 64 - q.leading_zeros() as usize;
    if bits > 62 || g.chance(1, 3) {
        return u64::MAX;
    }
    let up = bits + g.below(64 - bits);
    (1 << up) | if g.chance(1, 3) { g.below(q as usize + 1) as u64 } else { 0 }
}

/// The quantities the limits are compared with, in parameter order (None: not a limit).
pub fn quantities(t: &MTx) -> [Option<u64>; 13] {
    let mut q = [None; 13];
    q[P_INPUTS] = Some(t.inputs.len() as u64);
    q[P_OUTPUTS] = Some(t.outputs.len() as u64);
    q[P_WITS] = Some(t.wits.len() as u64);
    q[P_GAS] = Some(t.limit);
    match t.kind {
        Kind::Script => {
            q[P_SCRIPT] = Some(t.script.0.len() as u64);
            q[P_DATA] = Some(t.data.0.len() as u64);
        }
        Kind::Create => {
            q[P_SLOTS] = Some(t.slots.len() as u64);
            q[P_CONTRACT] = Some(t.wits.get(t.bidx as usize).map(|w| w.0.len() as u64).unwrap_or(0));
        }
        Kind::Mint => {}
    }
    let mut pred = 0;
    let mut pdata = 0;
    let mut msg = 0;
    for i in &t.inputs {
        match i {
            MIn::CoinPred { pred: p, pdata: d, .. } => {
                pred = pred.max(p.0.len());
                pdata = pdata.max(d.0.len());
            }
            MIn::MsgPred { pred: p, pdata: d, data, .. } => {
                pred = pred.max(p.0.len());
                pdata = pdata.max(d.0.len());
                msg = msg.max(data.0.len());
            }
            MIn::MsgSigned { data, .. } => msg = msg.max(data.0.len()),
            _ => {}
        }
    }
    q[P_PRED] = Some(pred as u64);
    q[P_PDATA] = Some(pdata as u64);
    q[P_MSG] = Some(msg as u64);
    q
}

/// Moves limits so that the transaction sits at or slightly below them.
pub fn params_around(g: &mut G, t: &MTx, p: &mut MParams) {
    let q = quantities(t);
    for i in 0..13 {
        if let Some(q) = q[i] {
            match g.below(6) {
                0 => p.0[i] = q,
                1 => p.0[i] = q.saturating_add(1),
                2 => p.0[i] = generous(g, q),
                3 if q <= p.0[i] => {}
                3 => p.0[i] = q,
                _ => p.0[i] = p.0[i].max(q),
            }
        }
    }
    match g.below(5) {
        0 => p.0[P_FACTOR] = 1,
        1 => p.0[P_FACTOR] = 1 + g.below(100) as u64,
        2 => p.0[P_FACTOR] = word(g).max(1),
        _ => {}
    }
    match g.below(5) {
        0 => p.0[P_GPB] = 0,
        1 => p.0[P_GPB] = 1 + g.below(10) as u64,
        _ => {}
    }
}

/// A small change that may break one rule (or none).
pub fn disturb(g: &mut G, c: &mut Checked) {
    let t = &mut c.tx;
    let sort = g.below(27);
    match sort {
        0 | 1 => {
            // a limit just below what the transaction needs
            let q = quantities(t);
            let with: Vec<usize> = (0..13).filter(|i| matches!(q[*i], Some(n) if n > 0)).collect();
            if !with.is_empty() {
                let i = *g.pick(&with);
                c.params.0[i] = q[i].unwrap() - 1;
            }
        }
        2 => {
            if t.kind == Kind::Mint {
                c.height = if g.chance(1, 2) {
                    c.height.wrapping_add(1)
                } else {
                    c.height ^ (1 << (32 + g.below(32)))
                }
            } else {
                t.maturity = c.height.saturating_add(1 + g.below(2) as u64);
            }
        }
        3 => {
            // duplicate an input's identity or the input itself
            if t.inputs.len() >= 2 {
                let a = place(g, t.inputs.len());
                let mut b = place(g, t.inputs.len());
                // mostly one with the same sort of identity
                let same: Vec<usize> = (0..t.inputs.len())
                    .filter(|i| *i != a && id_sort(&t.inputs[*i]) == id_sort(&t.inputs[a]))
                    .collect();
                if !same.is_empty() && g.chance(3, 4) {
                    b = *g.pick(&same);
                }
                dup_identity(&mut t.inputs, a, b);
            }
        }
        24 | 25 => {
            // a contract input with its output, possibly of a contract that already is an input
            if t.kind != Kind::Mint && t.inputs.len() < 256 {
                let mut x = input_of(g, 2, true);
                let n = t.inputs.len();
                let have: Vec<usize> = (0..n).filter(|i| id_sort(&t.inputs[*i]) == 2).collect();
                if let MIn::Contract { id, utxo: u, .. } = &mut x {
                    if n > 0 && g.chance(1, 2) {
                        let a = if have.is_empty() { g.below(n) } else { *g.pick(&have) };
                        match &t.inputs[a] {
                            MIn::Contract { id: i, .. } => *id = *i,
                            MIn::CoinSigned { utxo: v, .. } | MIn::CoinPred { utxo: v, .. } => *u = *v,
                            _ => {}
                        }
                    }
                }
                t.inputs.push(x);
                let o = MOut::Contract { idx: n as u8, broot: h(g), sroot: h(g) };
                let at = place(g, t.outputs.len() + 1);
                t.outputs.insert(at, o);
            }
        }
        26 => {
            // another message or coin input with one field of an existing one
            if !t.inputs.is_empty() {
                let a = place(g, t.inputs.len());
                let mut x = t.inputs[a].clone();
                let fresh = h(g);
                match &mut x {
                    MIn::CoinSigned { utxo: u, .. } | MIn::CoinPred { utxo: u, .. } => {
                        if g.chance(1, 2) {
                            u.tx = fresh
                        } else {
                            u.idx = u.idx.wrapping_add(1)
                        }
                    }
                    MIn::MsgSigned { mid, .. } | MIn::MsgPred { mid, .. } => *mid = fresh,
                    MIn::Contract { id, .. } => *id = fresh,
                }
                t.inputs.push(x);
            }
        }
        4 => {
            if !t.inputs.is_empty() {
                let a = place(g, t.inputs.len());
                let x = t.inputs[a].clone();
                let at = place(g, t.inputs.len() + 1);
                t.inputs.insert(at, x);
            }
        }
        5 => {
            if !t.inputs.is_empty() {
                let a = place(g, t.inputs.len());
                t.inputs.remove(a);
            }
        }
        6 => {
            if !t.outputs.is_empty() {
                let a = place(g, t.outputs.len());
                t.outputs.remove(a);
            }
        }
        7 => {
            if !t.outputs.is_empty() {
                let a = place(g, t.outputs.len());
                let x = t.outputs[a].clone();
                let at = place(g, t.outputs.len() + 1);
                t.outputs.insert(at, x);
            }
        }
        8 | 9 => {
            let x = output(g);
            let at = place(g, t.outputs.len() + 1);
            t.outputs.insert(at, x);
        }
        10 => {
            if !t.wits.is_empty() {
                t.wits.pop();
            }
        }
        11 => {
            // predicate emptied
            let ix: Vec<usize> = (0..t.inputs.len()).filter(|i| t.inputs[*i].predicate().is_some()).collect();
            if !ix.is_empty() {
                match &mut t.inputs[*g.pick(&ix)] {
                    MIn::CoinPred { pred, .. } | MIn::MsgPred { pred, .. } => pred.0.clear(),
                    _ => {}
                }
            }
        }
        12 => {
            let ix: Vec<usize> = (0..t.inputs.len()).filter(|i| t.inputs[*i].signed().is_some()).collect();
            if !ix.is_empty() {
                let n = t.wits.len();
                let w = *g.pick(&[n, n + 1, 255, n.saturating_sub(1)]);
                let i = *g.pick(&ix);
                t.inputs[i].set_wit(w.min(255) as u8);
            }
        }
        13 => {
            // contract output index moved
            let n_in = t.inputs.len();
            let ix: Vec<usize> =
                (0..t.outputs.len()).filter(|i| matches!(t.outputs[*i], MOut::Contract { .. })).collect();
            if !ix.is_empty() {
                let i = *g.pick(&ix);
                let v = if g.chance(1, 2) { g.below(n_in + 2) } else { g.below(256) };
                if let MOut::Contract { idx, .. } = &mut t.outputs[i] {
                    *idx = v as u8;
                }
            }
        }
        14 => {
            if t.kind == Kind::Create {
                match g.below(4) {
                    0 => t.blen = t.blen.wrapping_add(1),
                    1 => t.blen = t.blen.wrapping_sub(1),
                    2 => t.bidx = t.bidx.wrapping_add(1),
                    _ => t.bidx = t.wits.len() as u8,
                }
            } else {
                t.limit = c.params.0[P_GAS].saturating_add(1);
            }
        }
        15 => {
            if t.slots.len() >= 2 {
                let a = place(g, t.slots.len());
                let b = place(g, t.slots.len());
                t.slots.swap(a, b);
            }
        }
        16 => {
            if t.slots.len() >= 2 {
                let a = place(g, t.slots.len() - 1);
                t.slots[a + 1].0 = t.slots[a].0;
            }
        }
        17 => {
            let asset = foreign(g, t);
            let x = if g.chance(1, 2) {
                MOut::Change { to: h(g), amount: word(g), asset }
            } else {
                MOut::Coin { to: h(g), amount: word(g), asset }
            };
            let at = place(g, t.outputs.len() + 1);
            t.outputs.insert(at, x);
        }
        18 => {
            if t.kind != Kind::Mint {
                let x = input(g);
                let at = place(g, t.inputs.len() + 1);
                t.inputs.insert(at, x);
            }
        }
        19 => {
            // one asset changed
            let a = foreign(g, t);
            if !t.outputs.is_empty() {
                let i = place(g, t.outputs.len());
                match &mut t.outputs[i] {
                    MOut::Coin { asset, .. } | MOut::Change { asset, .. } => *asset = a,
                    _ => {}
                }
            }
        }
        20 => {
            if !t.inputs.is_empty() {
                let i = place(g, t.inputs.len());
                let x = match t.inputs[i].owner() {
                    Some(x) => other_h(g, &x),
                    None => h(g),
                };
                t.inputs[i].set_owner(x);
            }
        }
        21 => {
            if !t.inputs.is_empty() {
                let i = place(g, t.inputs.len());
                let a = word(g);
                t.inputs[i].set_amount(a);
            }
        }
        22 => {
            if t.kind != Kind::Mint {
                match g.below(3) {
                    0 => t.price = word(g),
                    1 => t.limit = word(g),
                    _ => t.maturity = word(g),
                }
            } else {
                t.ptr.height = t.ptr.height.wrapping_add(1);
            }
        }
        _ => {
            if t.inputs.len() >= 2 {
                let a = place(g, t.inputs.len());
                let b = place(g, t.inputs.len());
                t.inputs.swap(a, b);
            }
        }
    }
    // an item too many would hide what else is wrong
    if sort > 1 && g.chance(3, 4) {
        let q = quantities(&c.tx);
        for i in [P_INPUTS, P_OUTPUTS, P_WITS, P_SLOTS] {
            if let Some(q) = q[i] {
                c.params.0[i] = c.params.0[i].max(q);
            }
        }
    }
}

/// A place in a list of `n`; in a long list, often one of the last.
fn place(g: &mut G, n: usize) -> usize {
    if n > 100 && g.chance(1, 2) {
        let far = g.below(4);
        n - 1 - far
    } else {
        g.below(n)
    }
}

/// An asset that is, nearly is, or is not one of the inputs'.
fn foreign(g: &mut G, t: &MTx) -> H {
    let have: Vec<H> = t.inputs.iter().filter_map(|i| i.asset()).collect();
    match g.below(4) {
        0 => small_h(g.below(5) as u8),
        1 => h(g),
        _ if have.is_empty() => H::default(),
        2 => *g.pick(&have),
        _ => {
            let a = *g.pick(&have);
            near_h(g, &a)
        }
    }
}

fn id_sort(x: &MIn) -> u8 {
    match x {
        MIn::CoinSigned { .. } | MIn::CoinPred { .. } => 0,
        MIn::MsgSigned { .. } | MIn::MsgPred { .. } => 1,
        MIn::Contract { .. } => 2,
    }
}

/// Makes input `b` share the identity of input `a` when both have one of the same sort.
pub fn dup_identity(ins: &mut [MIn], a: usize, b: usize) {
    enum Id {
        Utxo(MUtxo),
        Msg(H),
        Con(H, MUtxo),
    }
    let id = match &ins[a] {
        MIn::CoinSigned { utxo, .. } | MIn::CoinPred { utxo, .. } => Id::Utxo(*utxo),
        MIn::MsgSigned { mid, .. } | MIn::MsgPred { mid, .. } => Id::Msg(*mid),
        MIn::Contract { id, utxo, .. } => Id::Con(*id, *utxo),
    };
    match (&mut ins[b], id) {
        (MIn::CoinSigned { utxo, .. } | MIn::CoinPred { utxo, .. }, Id::Utxo(u) | Id::Con(_, u)) => *utxo = u,
        (MIn::Contract { utxo, .. }, Id::Utxo(u)) => *utxo = u,
        (MIn::MsgSigned { mid, .. } | MIn::MsgPred { mid, .. }, Id::Msg(m)) => *mid = m,
        (MIn::Contract { id, .. }, Id::Con(c, _)) => *id = c,
        _ => {}
    }
}

/// A rule-abiding transaction with zero to three disturbances.
pub fn near_valid(g: &mut G, kind: Kind) -> Checked {
    let mut c = valid(g, kind);
    let n = *g.pick(&[0, 0, 1, 1, 1, 1, 2, 3]);
    for _ in 0..n {
        disturb(g, &mut c);
    }
    c
}

// ---------------------------------------------------------------- single edits

/// Changes one field of an input (the drawn value may equal the old one).
pub fn edit_input(g: &mut G, x: &mut MIn) {
    let n = g.below(9);
    match x {
        MIn::CoinSigned { utxo: u, owner, amount, asset, ptr: p, wit, maturity } => match n {
            0 => u.tx = other_h(g, &u.tx.clone()),
            1 => u.idx = byte(g),
            2 => *owner = other_h(g, owner),
            3 => *amount = word(g),
            4 => *asset = other_h(g, asset),
            5 => p.height = word(g) as u32,
            6 => p.index = word(g) as u16,
            7 => *wit = byte(g),
            _ => *maturity = word(g),
        },
        MIn::CoinPred { utxo: u, owner, amount, asset, ptr: p, maturity, pred, pdata } => match n {
            0 => u.tx = other_h(g, &u.tx.clone()),
            1 => u.idx = byte(g),
            2 => *owner = other_h(g, owner),
            3 => *amount = word(g),
            4 => *asset = other_h(g, asset),
            5 => *p = ptr(g),
            6 => *maturity = word(g),
            7 => edit_bytes(g, pred, true),
            _ => edit_bytes(g, pdata, false),
        },
        MIn::Contract { utxo: u, broot, sroot, ptr: p, id } => match n {
            0 => u.tx = other_h(g, &u.tx.clone()),
            1 => u.idx = byte(g),
            2 | 3 => *broot = other_h(g, broot),
            4 | 5 => *sroot = other_h(g, sroot),
            6 => *p = ptr(g),
            _ => *id = other_h(g, id),
        },
        MIn::MsgSigned { mid, sender, recipient, amount, nonce, wit, data } => match n {
            0 => *mid = other_h(g, mid),
            1 => *sender = other_h(g, sender),
            2 => *recipient = other_h(g, recipient),
            3 => *amount = word(g),
            4 => *nonce = word(g),
            5 => *wit = byte(g),
            _ => edit_bytes(g, data, false),
        },
        MIn::MsgPred { mid, sender, recipient, amount, nonce, data, pred, pdata } => match n {
            0 => *mid = other_h(g, mid),
            1 => *sender = other_h(g, sender),
            2 => *recipient = other_h(g, recipient),
            3 => *amount = word(g),
            4 => *nonce = word(g),
            5 => edit_bytes(g, data, false),
            6 | 7 => edit_bytes(g, pred, true),
            _ => edit_bytes(g, pdata, false),
        },
    }
}

/// Changes one field of an output.
pub fn edit_output(g: &mut G, x: &mut MOut) {
    let n = g.below(3);
    match x {
        MOut::Coin { to, amount, asset }
        | MOut::Change { to, amount, asset }
        | MOut::Variable { to, amount, asset } => match n {
            0 => *to = other_h(g, to),
            1 => *amount = word(g),
            _ => *asset = other_h(g, asset),
        },
        MOut::Contract { idx, broot, sroot } => match n {
            0 => *idx = byte(g),
            1 => *broot = other_h(g, broot),
            _ => *sroot = other_h(g, sroot),
        },
        MOut::Message { recipient, amount } => match n {
            0 => *recipient = other_h(g, recipient),
            _ => *amount = word(g),
        },
        MOut::Created { id, sroot } => match n {
            0 => *id = other_h(g, id),
            _ => *sroot = other_h(g, sroot),
        },
    }
}

pub fn edit_bytes(g: &mut G, b: &mut B, ne: bool) {
    match g.below(5) {
        0 if !b.0.is_empty() => {
            let i = g.below(b.0.len());
            b.0[i] ^= 1 << g.below(8);
        }
        // a zero at the end is invisible in the padding
        1 => b.0.push(0),
        2 if b.0.len() > ne as usize => {
            b.0.pop();
        }
        3 => b.0.push(byte(g)),
        _ => {
            let n = g.below(30).max(ne as usize);
            *b = filled(g, n);
        }
    }
}

fn edit_list<T: Clone>(g: &mut G, xs: &mut Vec<T>, new: impl FnOnce(&mut G) -> T) {
    let n = xs.len();
    match g.below(5) {
        0 if n > 0 => {
            xs.remove(g.below(n));
        }
        1 if n > 1 => {
            let (a, b) = (g.below(n), g.below(n));
            xs.swap(a, b);
        }
        2 if n > 0 => {
            let x = xs[g.below(n)].clone();
            xs.insert(g.below(n + 1), x);
        }
        _ => {
            let x = new(g);
            xs.insert(g.below(n + 1), x);
        }
    }
}

/// One edit of one field or list of a transaction.
pub fn edit_tx(g: &mut G, t: &mut MTx) {
    if t.kind == Kind::Mint {
        match g.below(5) {
            0 => t.ptr.height = word(g) as u32,
            1 => t.ptr.index = word(g) as u16,
            2 => edit_list(g, &mut t.outputs, output),
            _ => {
                if !t.outputs.is_empty() {
                    let i = g.below(t.outputs.len());
                    edit_output(g, &mut t.outputs[i]);
                }
            }
        }
        return;
    }
    match g.below(20) {
        0 => t.price = word(g),
        1 => t.limit = word(g),
        2 => t.maturity = word(g),
        3..=6 => {
            if !t.inputs.is_empty() {
                let i = g.below(t.inputs.len());
                edit_input(g, &mut t.inputs[i]);
            }
        }
        7..=9 => {
            if !t.outputs.is_empty() {
                let i = g.below(t.outputs.len());
                edit_output(g, &mut t.outputs[i]);
            }
        }
        10 => edit_list(g, &mut t.inputs, |g| {
            let v = g.below(5);
            input_of(g, v, true)
        }),
        11 => edit_list(g, &mut t.outputs, output),
        12 => edit_list(g, &mut t.wits, |g| {
            let n = g.below(20);
            filled(g, n)
        }),
        13 => {
            if !t.wits.is_empty() {
                let i = g.below(t.wits.len());
                edit_bytes(g, &mut t.wits[i], false);
            }
        }
        n => match t.kind {
            Kind::Script => match n {
                14 | 15 => edit_bytes(g, &mut t.script, false),
                16 | 17 => edit_bytes(g, &mut t.data, false),
                18 => t.rroot = other_h(g, &t.rroot.clone()),
                _ => std::mem::swap(&mut t.script, &mut t.data),
            },
            _ => match n {
                14 => t.blen = word(g),
                15 => t.bidx = byte(g),
                16 => t.salt = other_h(g, &t.salt.clone()),
                17 => edit_list(g, &mut t.slots, slot),
                _ => {
                    if !t.slots.is_empty() {
                        let i = g.below(t.slots.len());
                        match g.below(3) {
                            0 => t.slots[i].0 = other_h(g, &t.slots[i].0.clone()),
                            1 => t.slots[i].1 = other_h(g, &t.slots[i].1.clone()),
                            _ => t.slots[i] = (t.slots[i].1, t.slots[i].0),
                        }
                    }
                }
            },
        },
    }
}

/// Rewrites some of the fields that may change after signing.
pub fn edit_malleable(g: &mut G, t: &mut MTx) {
    if t.kind == Kind::Mint {
        return;
    }
    match g.below(4) {
        0 => {
            match g.below(3) {
                0 => t.wits.clear(),
                1 => edit_list(g, &mut t.wits, |g| {
                    let n = g.below(70);
                    filled(g, n)
                }),
                _ => {
                    if !t.wits.is_empty() {
                        let i = g.below(t.wits.len());
                        edit_bytes(g, &mut t.wits[i], false);
                    }
                }
            };
        }
        1 if t.kind == Kind::Script => t.rroot = other_h(g, &t.rroot.clone()),
        2 => {
            if !t.inputs.is_empty() {
                let i = g.below(t.inputs.len());
                match &mut t.inputs[i] {
                    MIn::CoinSigned { ptr: p, .. } | MIn::CoinPred { ptr: p, .. } => *p = ptr(g),
                    MIn::Contract { utxo: u, broot, sroot, ptr: p, .. } => match g.below(4) {
                        0 => *u = utxo(g),
                        1 => *broot = other_h(g, broot),
                        2 => *sroot = other_h(g, sroot),
                        _ => *p = ptr(g),
                    },
                    _ => {}
                }
            }
        }
        _ => {
            if !t.outputs.is_empty() {
                let i = g.below(t.outputs.len());
                match &mut t.outputs[i] {
                    MOut::Contract { broot, sroot, .. } => match g.below(2) {
                        0 => *broot = other_h(g, broot),
                        _ => *sroot = other_h(g, sroot),
                    },
                    MOut::Message { recipient, amount } => match g.below(2) {
                        0 => *recipient = other_h(g, recipient),
                        _ => *amount = word(g),
                    },
                    MOut::Change { amount, .. } => *amount = word(g),
                    MOut::Variable { to, amount, asset } => match g.below(3) {
                        0 => *to = other_h(g, to),
                        1 => *amount = word(g),
                        _ => *asset = other_h(g, asset),
                    },
                    _ => {}
                }
            }
        }
    }
}

// ---------------------------------------------------------------- wide transactions

/// Many elements, described compactly.
#[derive(Clone, PartialEq, Eq, Hash, Debug, serde::Serialize, serde::Deserialize)]
pub struct Wide {
    pub kind: Kind,
    pub slots: usize,
    pub inputs: usize,
    pub outputs: usize,
    pub wits: usize,
    pub payload: usize,
    pub seed: u64,
}
pub fn wide(g: &mut G) -> Wide {
    let kind = kind(g);
    let which = g.below(5);
    let n = |g: &mut G, k: usize, big: &[usize]| {
        let most = big[big.len() - 1] as u64;
        match which == k {
            true if g.chance(1, 3) => g.hint(most).unwrap_or(0) as usize,
            true => *g.pick(big),
            false => g.below(3),
        }
    };
    let seed = g.u64();
    let counts = [127, 128, 255, 256, 257, 511, 1000, 2000];
    let mut w = Wide {
        kind,
        slots: n(g, 0, &[255, 256, 257, 1000, 4096, 20000, 65534, 65535]),
        inputs: n(g, 1, &counts),
        outputs: n(g, 2, &counts),
        wits: n(g, 3, &counts),
        payload: n(g, 4, &[4095, 4096, 65535, 65536, 65537, 100_001, 1 << 20, (1 << 20) + 1, 3_000_001]),
        seed,
    };
    if w.payload > 2 && g.chance(1, 20) {
        w.payload = (16 << 20) + g.below(30);
    }
    if kind != Kind::Create {
        w.slots = 0;
    }
    if kind == Kind::Mint {
        w.inputs = 0;
        w.wits = 0;
        w.payload = 0;
    }
    w
}
/// Sometimes more elements than 16 bits count.
pub fn wider(g: &mut G) -> Wide {
    let mut w = wide(g);
    if g.chance(1, 4) {
        let n = match g.below(5) {
            0 => g.hint(70000).unwrap_or(0) as usize,
            _ => *g.pick(&[65535, 65536, 65537, 70000]),
        };
        match g.below(3) {
            0 if w.kind != Kind::Mint => w.inputs = n,
            1 if w.kind != Kind::Mint => w.wits = n,
            _ => w.outputs = n,
        }
    }
    w
}
impl Wide {
    pub fn tx(&self) -> MTx {
        let mut g = G::seeded(self.seed);
        let g = &mut g;
        let mut t = tx_of(g, self.kind, true);
        t.slots = (0..self.slots).map(|_| slot(g)).collect();
        t.inputs = (0..self.inputs)
            .map(|_| {
                let v = g.below(5);
                input_of(g, v, true)
            })
            .collect();
        t.outputs = (0..self.outputs).map(|_| output(g)).collect();
        t.wits = (0..self.wits)
            .map(|_| {
                let n = g.below(9);
                filled(g, n)
            })
            .collect();
        if self.payload > 2 {
            let p = B(crate::engine::expand(self.seed | 1, self.payload));
            match (self.kind, g.below(6)) {
                (Kind::Script, 0) => t.script = p,
                (Kind::Script, 1) => t.data = p,
                (_, 2 | 3) => {
                    let v = *g.pick(&[1, 3, 4, 4]);
                    let mut x = input_of(g, v, true);
                    match &mut x {
                        MIn::CoinPred { pred, pdata, .. } => {
                            *if g.chance(1, 2) { pred } else { pdata } = p
                        }
                        MIn::MsgSigned { data, .. } => *data = p,
                        MIn::MsgPred { data, pred, pdata, .. } => {
                            match g.below(3) {
                                0 => *data = p,
                                1 => *pred = p,
                                _ => *pdata = p,
                            }
                        }
                        _ => {}
                    }
                    let i = g.below(t.inputs.len() + 1);
                    t.inputs.insert(i, x);
                }
                _ => {
                    let i = g.below(t.wits.len() + 1);
                    t.wits.insert(i, p)
                }
            }
        }
        t
    }
}

/// A rule-abiding transaction with one list extended to many elements, described compactly.
#[derive(Clone, PartialEq, Eq, Hash, Debug, serde::Serialize, serde::Deserialize)]
pub struct Many {
    base: Checked,
    what: usize,
    n: usize,
    pub limit: u64,
    form: usize,
    /// two elements that share an identity, or are out of order
    pub same: Option<(usize, usize)>,
    /// an element that breaks a rule
    pub odd: Option<usize>,
}

pub fn many(g: &mut G, kind: Kind, what: usize) -> Many {
    let base = valid(g, kind);
    let n = match g.below(8) {
        0..=3 => 250 + g.below(60),
        4 => 500 + g.below(600),
        5 => 2000 + g.below(2200),
        6 if kind != Kind::Mint => *g.pick(&[32768, 65535, 65536, 65537, 65537, 65538]),
        7 if kind != Kind::Mint && g.chance(2, 3) => 62000 + g.below(8000),
        7 if kind != Kind::Mint => g.hint(70000).unwrap_or(0) as usize,
        _ if g.chance(1, 3) => g.hint(4200).unwrap_or(0) as usize,
        _ => 1 << g.below(12),
    };
    let n = n.max(1);
    let full = n as u64;
    let limit = match g.below(8) {
        0 => full.saturating_sub(1),
        1 => full + 1,
        2 => full & 0xff,
        3 => full & 0xffff,
        4 => u64::MAX,
        5 => word(g),
        _ => full,
    };
    // the later one is often beyond what a byte or half a word counts
    let twist = g.below(3);
    let same = if n > 1 && twist == 0 {
        let j = 1 + match g.below(3) {
            0 => n - 2,
            _ => g.below(n - 1),
        };
        let i = match g.below(4) {
            0 => j & 0xff,
            1 => j & 0xffff,
            2 => j - 1,
            _ => g.below(j),
        };
        Some((if i == j { j - 1 } else { i }, j))
    } else {
        None
    };
    let odd = if twist == 1 { Some(if g.chance(1, 2) { n - 1 } else { g.below(n) }) } else { None };
    Many { base, what, n, limit, form: g.below(4), same, odd }
}

impl Many {
    pub fn case(&self) -> Checked {
        let mut c = self.base.clone();
        let mut g = G::seeded(11);
        let t = &mut c.tx;
        let named = |i: usize| {
            let mut h = H([0xa5; 32]);
            h.0[28..].copy_from_slice(&(i as u32).to_be_bytes());
            h
        };
        let identity = |i: usize| match self.same {
            Some((a, b)) if b == i => named(a),
            _ => named(i),
        };
        let asset = t.inputs.iter().find_map(|i| i.asset()).unwrap_or_default();
        match self.what {
            P_INPUTS => {
                if t.wits.is_empty() {
                    t.wits.push(B(vec![]));
                    c.params.0[P_WITS] = c.params.0[P_WITS].max(1);
                }
                for i in t.inputs.len()..self.n {
                    // contracts are paired with outputs as far as an output can refer to them
                    let v = match self.form {
                        3 if i < 256 && t.kind == Kind::Script => 2,
                        2 => 3,
                        _ => 0,
                    };
                    let mut x = input_of(&mut g, v, true);
                    match &mut x {
                        MIn::CoinSigned { utxo, wit, asset: a, amount, .. } => {
                            *utxo = MUtxo { tx: identity(i), idx: 0 };
                            *a = if self.form == 1 { named(i % 500) } else { asset };
                            *amount = i as u64 % 1000;
                            *wit = 0;
                        }
                        MIn::Contract { id, .. } => {
                            *id = identity(i);
                            t.outputs.push(MOut::Contract { idx: i as u8, broot: H::default(), sroot: H::default() });
                        }
                        MIn::MsgSigned { mid, wit, data, amount, .. } => {
                            *amount = i as u64 % 1000;
                            *mid = identity(i);
                            *wit = 0;
                            *data = B(vec![]);
                        }
                        _ => {}
                    }
                    if self.odd == Some(i) {
                        x = match x {
                            MIn::MsgSigned { mid, sender, recipient, amount, nonce, data, .. } => {
                                MIn::MsgSigned { mid, sender, recipient, amount, nonce, data, wit: 255 }
                            }
                            MIn::CoinSigned { utxo, owner, amount, asset, ptr, maturity, .. } => {
                                MIn::CoinSigned { utxo, owner, amount, asset, ptr, maturity, wit: 255 }
                            }
                            x => x,
                        };
                    }
                    t.inputs.push(x);
                }
                c.params.0[P_OUTPUTS] = c.params.0[P_OUTPUTS].max(t.outputs.len() as u64);
            }
            P_OUTPUTS if t.kind == Kind::Mint => {
                for i in t.outputs.len()..self.n {
                    t.outputs.push(if self.odd == Some(i) {
                        MOut::Change { to: H::default(), amount: i as u64, asset: identity(i) }
                    } else {
                        MOut::Coin { to: H::default(), amount: i as u64, asset: identity(i) }
                    });
                }
            }
            P_OUTPUTS => {
                if t.wits.is_empty() {
                    t.wits.push(B(vec![]));
                    c.params.0[P_WITS] = c.params.0[P_WITS].max(1);
                }
                let mut x = input_of(&mut g, 0, true);
                if let MIn::CoinSigned { asset: a, wit, amount, .. } = &mut x {
                    *a = asset;
                    *wit = 0;
                    *amount = 1 << 40;
                }
                t.inputs.push(x);
                c.params.0[P_INPUTS] = c.params.0[P_INPUTS].max(t.inputs.len() as u64);
                for i in t.outputs.len()..self.n {
                    let odd = matches!(self.same, Some((a, b)) if i == a || i == b) || self.odd == Some(i);
                    t.outputs.push(match self.form {
                        0 if odd => MOut::Change { to: H::default(), amount: 0, asset },
                        1 if odd => MOut::Created { id: named(i), sroot: H::default() },
                        2 if odd => MOut::Coin { to: H::default(), amount: 0, asset: named(i) },
                        _ => MOut::Coin { to: H::default(), amount: i as u64 & 1, asset },
                    });
                }
            }
            P_WITS => {
                while t.wits.len() < self.n {
                    t.wits.push(B(vec![]));
                }
            }
            _ => {
                t.slots = (0..self.n).map(|i| (identity(i), named(i))).collect();
            }
        }
        c.params.0[self.what] = self.limit;
        c
    }
}

pub fn many_of(g: &mut G, kind: Kind) -> Many {
    let what = match kind {
        Kind::Mint => P_OUTPUTS,
        Kind::Script => *g.pick(&[P_INPUTS, P_INPUTS, P_OUTPUTS, P_WITS]),
        Kind::Create => *g.pick(&[P_INPUTS, P_OUTPUTS, P_WITS, P_SLOTS, P_SLOTS, P_SLOTS]),
    };
    many(g, kind, what)
}

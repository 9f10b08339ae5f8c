//! Hooks of LLVM's comparison tracing: every constant that the instrumented code compares something with
//! at run time is noted, as are the integers in its sources. The generators use them as one more source of
//! interesting values.

use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const SIZE: usize = 1 << 13;
/// Smaller constants are among the generators' values anyway.
const LEAST: u64 = 64;

static TABLE: [AtomicU64; SIZE] = [const { AtomicU64::new(0) }; SIZE];

#[inline(always)]
fn note(c: u64) {
    if c < LEAST {
        return;
    }
    let at = (c.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32) as usize;
    for k in 0..8 {
        let slot = &TABLE[(at + k) & (SIZE - 1)];
        let v = slot.load(Relaxed);
        if v == c {
            return;
        }
        if v == 0 {
            match slot.compare_exchange(0, c, Relaxed, Relaxed) {
                Err(v) if v != c => continue,
                _ => return,
            }
        }
    }
}

/// Notes the integers written in the sources below `dir`, and what two of them make with `*`, `+` or `<<`:
/// comparisons may be compiled to others that no longer hold them.
pub fn note_sources(dir: &std::path::Path) {
    let Ok(files) = std::fs::read_dir(dir) else { return };
    for f in files.flatten().map(|f| f.path()) {
        if f.is_dir() {
            note_sources(&f)
        } else if f.extension().is_some_and(|x| x == "rs") {
            for c in integers(&std::fs::read_to_string(&f).unwrap_or_default()) {
                note(c)
            }
        }
    }
}

fn integers(text: &str) -> Vec<u64> {
    let mut all = Vec::new();
    let mut last: Option<(u64, String)> = None;
    let mut rest = text;
    while let Some(c) = rest.chars().next() {
        let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
        if !word(c) {
            if let Some((_, between)) = &mut last {
                between.push(c);
            }
            rest = &rest[c.len_utf8()..];
            continue;
        }
        let end = rest.find(|c| !word(c)).unwrap_or(rest.len());
        let token = rest[..end].replace('_', "");
        rest = &rest[end..];
        let types = ["u8", "u16", "u32", "u64", "u128", "usize", "i32", "i64"];
        let plain = types.iter().find_map(|t| token.strip_suffix(t)).unwrap_or(&token);
        let value = match plain.strip_prefix("0x") {
            Some(hex) => u64::from_str_radix(hex, 16).ok(),
            None => plain.parse().ok(),
        };
        let Some(v) = value else {
            last = None;
            continue;
        };
        all.push(v);
        if let Some((u, between)) = last.take() {
            all.extend(match between.trim() {
                "*" => u.checked_mul(v),
                "+" => u.checked_add(v),
                "<<" => u32::try_from(v).ok().and_then(|v| u.checked_shl(v)),
                _ => None,
            });
        }
        last = Some((v, String::new()));
    }
    all
}

/// The constants noted so far, in order.
pub fn noted() -> Vec<u64> {
    let mut v: Vec<u64> = TABLE.iter().map(|s| s.load(Relaxed)).filter(|c| *c != 0).collect();
    v.sort_unstable();
    v.dedup();
    v
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(a: u8, _: u8) {
    note(a.into())
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, _: u16) {
    note(a.into())
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, _: u32) {
    note(a.into())
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, _: u64) {
    note(a)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(_: u16, _: u16) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(_: u32, _: u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(_: u64, _: u64) {}
/// # Safety
/// `cases` is the compiler's table: the number of cases, their width, the cases.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_: u64, cases: *const u64) {
    for i in 0..*cases as usize {
        note(*cases.add(2 + i))
    }
}
// one of the tracers of edges has to be chosen, too
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

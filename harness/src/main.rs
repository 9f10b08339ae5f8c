//! `ptx check <ID>` runs a property's search, `ptx replay <FILE>` re-judges one recorded case.

// one group of properties is compiled at a time; the others' helpers then are unused
#![cfg_attr(not(feature = "all"), allow(dead_code, unused_macros, unused_imports))]

mod enc;
#[macro_use]
mod engine;
#[cfg(feature = "full")]
mod expect;
mod fields;
mod gen;
#[cfg(feature = "full")]
mod keys;
mod model;
mod offs;
mod props;
mod refs;
#[cfg(feature = "full")]
#[macro_use]
mod val;

use engine::{Ctx, Tier};

fn usage() -> ! {
    eprintln!("usage: ptx check <ID> [--tier quick|thorough] [--seed N] | ptx replay <FILE>");
    std::process::exit(2)
}

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut seed = std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into());
    let mut pos = Vec::new();
    let mut it = args.iter().cloned();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--tier" => tier = it.next().unwrap_or_else(|| usage()),
            "--seed" => seed = it.next().unwrap_or_else(|| usage()),
            _ => pos.push(a),
        }
    }
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let seed = seed.trim().parse::<u64>().unwrap_or(1);
    let mut ctx = match pos.iter().map(String::as_str).collect::<Vec<_>>()[..] {
        ["check", id] => Ctx::new(id, tier, seed, None),
        ["replay", file] => {
            let text = std::fs::read_to_string(file).unwrap_or_else(|e| {
                eprintln!("cannot read {file}: {e}");
                std::process::exit(2)
            });
            let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_else(|e| {
                eprintln!("cannot parse {file}: {e}");
                std::process::exit(2)
            });
            let s = |k: &str| v[k].as_str().unwrap_or_else(|| usage()).to_string();
            Ctx::new(&s("property"), tier, seed, Some((s("label"), v["case"].clone())))
        }
        _ => usage(),
    };
    if !engine::supervised() {
        std::process::exit(engine::supervise(&args, ctx, props::run))
    }
    let id = ctx.id.clone();
    if !props::run(&id, &mut ctx) {
        eprintln!("this build has no check for property {id}");
        std::process::exit(2)
    }
    std::process::exit(ctx.finish())
}

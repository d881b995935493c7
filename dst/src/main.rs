#![allow(invalid_runtime_symbol_definitions)]
//! Deterministic simulation of wruster with fault injection. See /verif/DESIGN.md.
#![allow(static_mut_refs)]
mod client;
mod codec;
mod core;
mod gen;
mod hist;
mod life;
mod net;
mod plan;
mod prog;
mod rng;
mod runner;
mod server;
mod shim;
mod simfs;
mod sys;
mod wire;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => runner::check(&a[1], get("--tier").as_deref().unwrap_or("quick"), get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1), get("--secs").and_then(|s| s.parse().ok())),
        Some("replay") => runner::replay(&a[1]),
        Some("one") => runner::one(&a[1], a[2].parse().unwrap(), a.iter().any(|x| x == "--trace"), a.iter().any(|x| x == "--plan")),
        Some("det") => runner::det(&a[1], a[2].parse().unwrap()),
        Some("survey") => runner::survey(&a[1], get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1), get("--n").and_then(|s| s.parse().ok()).unwrap_or(500)),
        _ => { eprintln!("usage: dst check <property> [--tier quick|thorough] [--seed N] [--secs N] | replay <file> | one <property> <seed> [--trace] [--plan] | det <property> <runs>"); 2 }
    };
    std::process::exit(code);
}

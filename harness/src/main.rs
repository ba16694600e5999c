mod binary;
mod calls;
mod cli;
mod complex;
mod decimals;
mod effects;
mod values;
mod engine;
mod floats;
mod grammar;
mod helpers;
mod integers;
mod large;
mod many;
mod robust;
mod server;
mod state;
mod syntax;
mod variants;
mod wrappers;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (mut id, mut replay, mut only, mut scale) = (None, None, None, 1.0);
    let mut i = 0;
    while i < args.len() {
        let value = || args.get(i + 1).expect("missing value").clone();
        match args[i].as_str() {
            "--tier" => tier = value(),
            "--seed" => seed = value().parse().unwrap(),
            "--replay" => replay = Some(value()),
            "--sub" => only = Some(value()),
            "--scale" => scale = value().parse().unwrap(),
            s => {
                id = Some(s.to_string());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    if tier != "thorough" {
        tier = "quick".to_string();
    }
    let root = PathBuf::from(std::env::var("PBT_ROOT").unwrap_or_else(|_| "/verif".to_string()));
    let id = id.expect("usage: pbt ID [--tier quick|thorough] [--seed N] [--sub NAME] [--scale X] [--replay FILE]");

    let all: Vec<fn() -> engine::Property> = vec![robust::c03, robust::c04, syntax::c01, syntax::c02, syntax::c05, syntax::c06, syntax::c17, integers::c07, integers::c08, floats::c09, decimals::c10, decimals::c11, complex::c12, binary::c13, state::c14, state::c15, state::c16, calls::c19, cli::c21, server::c22, server::c24, variants::c25, wrappers::c20, floats::c23, effects::c26, values::c27, helpers::c28];
    let p = all.iter().map(|f| f()).find(|p| p.id == id).expect("no such property");
    engine::install_hook();
    let code = match replay {
        Some(path) => engine::replay(&p, &path),
        None => engine::supervise(&p, &engine::Opts { tier, seed, only, scale }, &root),
    };
    std::process::exit(code);
}

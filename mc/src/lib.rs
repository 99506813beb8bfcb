//! Explicit-state exploration of the real crate against a reference model of CBOR.

pub mod engine;
pub mod gen;
pub mod props;
pub mod refm;
#[macro_use]
pub mod real;

use engine::*;
use std::path::PathBuf;

/// the command line of the explorer, over the given registry of properties
pub fn cli(all: fn() -> Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| match all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("mc: no property {}", id);
            std::process::exit(2)
        }
    };
    let usage = "mc run ID quick|thorough EVIDENCE REPLAYDIR [KNOWN] | mc replay FILE | mc list";
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("narrow") => {
            let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
            for c in props::ub::narrow(tier) {
                println!("{}", hex(&c));
            }
            0
        }
        Some("list") => {
            for p in all() {
                println!("{}", p.id);
            }
            0
        }
        Some("run") => {
            let p = find(&args[2]);
            let tier = if args[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let a = RunArgs {
                id: args[2].clone(),
                tier,
                evidence: PathBuf::from(&args[4]),
                replays: PathBuf::from(&args[5]),
                known: args.get(6).cloned(),
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            };
            let names: Vec<String> = (p.families)(tier).iter().map(|f| f.name.clone()).collect();
            supervise(&a, &names)
        }
        Some("worker") => {
            let p = find(&args[2]);
            let tier = if args[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            let known = Known::load(args.get(8).map(|s| s.as_str()));
            worker(&p, tier, &PathBuf::from(&args[4]), &PathBuf::from(&args[5]), &PathBuf::from(&args[6]), args[7].parse().unwrap(), &known)
        }
        Some("one") => {
            let p = find(&args[2]);
            one(&p, &args[3], unhex(&std::fs::read_to_string(&args[4]).unwrap()))
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&args[2]).unwrap();
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
            let p = find(&get("property "));
            one(&p, &get("family "), unhex(&get("case ")))
        }
        _ => {
            eprintln!("{}", usage);
            2
        }
    };
    std::process::exit(code)
}

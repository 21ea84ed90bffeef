#![allow(dead_code)]
mod backend;
mod cli;
mod cut;
mod determinism;
mod driver;
mod families;
mod gen;
mod irprops;
mod stdlib;
mod irx;
mod lang;
mod layout;
mod lsp;
mod messages;
mod metamorph;
mod mutate;
mod paths;
mod print;
mod props;
mod props_front;
mod props_sem;
mod refcheck;
mod refeval;
mod refparse;
mod rng;
mod stdsig;
mod syntax;
mod terms;
mod scale;
mod tree;
mod textgen;
mod jit;
mod ub;
mod util;

use driver::Tier;

#[global_allocator]
static METER: backend::meter::Meter = backend::meter::Meter;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    cut::install_hook();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let prop = |id: &str| match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            std::process::exit(2)
        }
    };
    let code = match cmd {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            driver::check(prop(&a[2]), tier(&a[3]), seed)
        }
        "worker" => {
            driver::worker(prop(&a[2]), tier(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap());
            0
        }
        "single" => i32::from(driver::single(prop(&a[2]), tier(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap())),
        "replay" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let v: serde_json::Value = serde_json::from_str(&t).unwrap();
            println!("{}", v["detail"].as_str().unwrap_or(""));
            for f in v["files"].as_array().into_iter().flatten() {
                println!("--- {}\n{}", f[0].as_str().unwrap_or(""), f[1].as_str().unwrap_or(""));
            }
            let p = prop(v["property"].as_str().unwrap());
            i32::from(driver::single(p, tier(v["tier"].as_str().unwrap()), v["seed"].as_u64().unwrap(), v["case"].as_u64().unwrap()))
        }
        "race" => determinism::race(a[2].parse().unwrap(), a[3].parse().unwrap()),
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: tv check|replay|list");
            2
        }
    };
    std::process::exit(code);
}

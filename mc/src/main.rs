#[allow(unused_extern_crates)]
extern crate alloc;
#[cfg(feature = "unstable")]
mod bset;
#[cfg(feature = "unstable")]
mod bt;
mod bytes;
mod clone;
mod elem;
mod engine;
#[cfg(feature = "unstable")]
mod grid;
#[cfg(not(feature = "unstable"))]
mod hash;
mod iters;
mod large;
mod ledger;
mod misc;
mod props;
mod same;
#[cfg(feature = "unstable")]
mod seq;
mod sys;
mod cause;
mod traits;
mod vecs;
mod zfull;
use std::collections::HashSet;

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    let usage = "mc run <ID> <quick|thorough> <out.json> <replaydir> <known file|-> <config> | mc replay <ID> <words..> | mc list";
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
        }
        Some("run") if a.len() >= 8 => {
            let Some(p) = props::ALL.iter().find(|p| p.id == a[2]) else {
                println!("# {} has nothing to explore in this configuration", a[2]);
                std::process::exit(3)
            };
            let known: HashSet<String> = std::fs::read_to_string(&a[6])
                .unwrap_or_default()
                .lines()
                .filter_map(|l| l.strip_prefix("known: "))
                .filter_map(|l| {
                    let mut prop = false;
                    let mut key = None;
                    for t in l.split_whitespace() {
                        if t == format!("property={}", a[2]) {
                            prop = true
                        }
                        if let Some(k) = t.strip_prefix("key=") {
                            key = Some(k.to_string())
                        }
                    }
                    if prop { key } else { None }
                })
                .collect();
            let o = engine::Opts {
                thorough: a[3] == "thorough",
                out: a[4].clone(),
                replay_dir: a[5].clone(),
                known,
                config: a[7].clone(),
                only: a.get(8).cloned(),
            };
            std::process::exit(engine::run(p, &o))
        }
        Some("replay") if a.len() >= 3 => {
            let p = props::ALL.iter().find(|p| p.id == a[2]).expect("unknown property");
            let w: Vec<u32> = a[3..].iter().flat_map(|s| s.split_whitespace()).map(|s| s.parse().expect("word")).collect();
            props::set_flags(p.id);
            std::process::exit(engine::replay(p, &w))
        }
        _ => {
            eprintln!("{usage}");
            std::process::exit(2)
        }
    }
}

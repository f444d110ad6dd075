//! vx: mechanical extraction of /repo's Rust sources into a single Verus file.
//!
//! The executable text is copied byte for byte from the source files; contracts
//! from /verif/contracts/*.vx are inserted at positions found by parsing the
//! source with syn.  Everything the extraction drops or rewrites is listed in
//! DESIGN.md ("What the extraction drops") and counted in the map it writes.
mod ann;
mod gen;
mod inline;
mod widen;

use std::collections::{BTreeMap, BTreeSet};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut opts: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 2;
    while i < args.len() {
        let k = args[i].trim_start_matches("--").to_string();
        let v = args.get(i + 1).cloned().unwrap_or_default();
        opts.insert(k, v);
        i += 2;
    }
    let get = |k: &str| opts.get(k).cloned().unwrap_or_else(|| panic!("missing --{}", k));
    match args.get(1).map(|s| s.as_str()) {
        Some("gen") => {
            let set = |k: &str| -> BTreeSet<String> {
                opts.get(k)
                    .map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect())
                    .unwrap_or_default()
            };
            let r = gen::generate(&gen::Opts {
                src: get("src"),
                ann: get("ann"),
                unfit: set("unfit"),
                drop_helpers: set("noinline"),
                skip_ann: set("skipann"),
                unann: set("unann"),
                baseline: opts.get("baseline").cloned(),
                meta: opts.get("meta").cloned(),
                probe: opts.get("probe").and_then(|x| x.parse().ok()).unwrap_or(0),
            });
            match r {
                Ok((text, map)) => {
                    std::fs::write(get("out"), text).unwrap();
                    std::fs::write(get("map"), serde_json::to_string_pretty(&map).unwrap()).unwrap();
                }
                Err(e) => {
                    eprintln!("vx: {}", e);
                    std::process::exit(3);
                }
            }
        }
        Some("baseline") => match gen::baseline(&get("src"), &get("ann")) {
            Ok(v) => std::fs::write(get("out"), serde_json::to_string_pretty(&v).unwrap()).unwrap(),
            Err(e) => {
                eprintln!("vx: {}", e);
                std::process::exit(3);
            }
        },
        Some("widen") => match widen::widen(&get("src"), &get("out")) {
            Ok(()) => {}
            Err(e) => {
                eprintln!("vx: {}", e);
                std::process::exit(3);
            }
        },
        _ => {
            eprintln!("usage: vx gen|baseline|widen --src DIR ...");
            std::process::exit(2);
        }
    }
}

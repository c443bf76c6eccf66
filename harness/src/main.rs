#![allow(clippy::all)]
mod alloc;
mod engine;
mod props;
mod vclock;

use engine::*;

#[global_allocator]
static A: alloc::Checking = alloc::Checking;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match a.get(1).map(|s| s.as_str()) {
        Some("--child") => {
            let (meta, f) = props::find(&a[2]).expect("property");
            child(meta.id, tier(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), None, Some(a[6].clone()), Some(a[7].clone()), a[8].parse().unwrap(), f);
        }
        Some("--only") => {
            let (meta, f) = props::find(&a[2]).expect("property");
            child(meta.id, tier(&a[3]), 0, 1, Some(a[4].parse().unwrap()), None, None, 100000, f);
        }
        Some("--list") => {
            for p in props::ALL {
                println!("{}", p.0.id);
            }
        }
        Some(id) => {
            let t = a.get(2).map(|s| s.as_str()).unwrap_or("quick");
            let Some((meta, f)) = props::find(id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            };
            if a.get(3).map(|s| s.as_str()) == Some("--only") {
                child(meta.id, tier(t), 0, 1, Some(a[4].parse().unwrap()), None, None, 100000, f);
                return;
            }
            std::process::exit(supervise(meta, tier(t)));
        }
        None => {
            eprintln!("usage: vzcheck <property> quick|thorough [--only case]");
            std::process::exit(2);
        }
    }
}

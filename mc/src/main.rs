#![allow(clippy::all)]
//! Model checker for the concurrent parts: /repo's sources compiled against `modelstd`,
//! every schedule within the bounds executed by a controlled scheduler.
#[path = "../../harness/src/engine.rs"]
#[allow(dead_code)]
mod engine;
mod litmus;
mod props;
mod tok;
/// Shims for the shared engine.
mod alloc {
    pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
        f()
    }
    pub fn end_case() {}
}
mod vclock {
    pub fn off() {}
    pub fn with_real<T>(f: impl FnOnce() -> T) -> T {
        f()
    }
}

use engine::*;

#[global_allocator]
static A: modelstd::rt::ModelAlloc = modelstd::rt::ModelAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match a.get(1).map(|s| s.as_str()) {
        Some("--child") => {
            let (meta, f) = props::find(&a[2]).expect("property");
            child(meta.id, tier(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), None, Some(a[6].clone()), Some(a[7].clone()), a[8].parse().unwrap(), f);
        }
        Some("--only") => {
            let (meta, f) = props::find(&a[2]).expect("property");
            child(meta.id, tier(&a[3]), 0, 1, Some(a[4].parse().unwrap()), None, None, 100000, f);
        }
        Some(id) => {
            let t = a.get(2).map(|s| s.as_str()).unwrap_or("quick");
            let Some((meta, f)) = props::find(id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            };
            if a.get(3).map(|s| s.as_str()) == Some("--only") {
                child(meta.id, tier(t), 0, 1, Some(a[4].parse().unwrap()), None, None, 100000, f);
                return;
            }
            std::process::exit(supervise(meta, tier(t)));
        }
        None => {
            eprintln!("usage: vzmc <property> quick|thorough [--only case]");
            std::process::exit(2);
        }
    }
}

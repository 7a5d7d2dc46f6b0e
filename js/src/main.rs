//! C29: the JavaScript wrapper (its sources, compiled unmodified over a model of JavaScript values) against the native API.
#![allow(dead_code)]
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/keys.rs"]
mod keys;
#[path = "../../harness/src/layers.rs"]
mod layers;
#[path = "../../harness/src/msgs.rs"]
mod msgs;
#[path = "../../harness/src/onion.rs"]
mod onion;
#[path = "../../harness/src/ops.rs"]
mod ops;
#[path = "../../harness/src/refjose.rs"]
mod refjose;
#[path = "../../harness/src/world.rs"]
mod world;
mod c29;

use engine::{Env, Tier};

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().cloned().unwrap_or_default();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = args.iter().position(|a| a == "--only").and_then(|i| args.get(i + 1)).cloned();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    engine::main_entry(&id, Env { tier, seed }, only, &root, &|id, env| (id == "C29").then(|| c29::plan(env)))
}

#![allow(dead_code)]
mod engine;
mod keys;
mod layers;
mod many;
mod msgs;
mod near;
mod vals;
mod mutate;
mod onion;
mod ops;
mod props;
mod refjose;
mod world;

use engine::{Env, Tier};

fn main() {
    if let Ok(item) = std::env::var("DCHK_SOLO") {
        return props::c28::solo(&item);
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().cloned().unwrap_or_default();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = args.iter().position(|a| a == "--only").and_then(|i| args.get(i + 1)).cloned();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    engine::main_entry(&id, Env { tier, seed }, only, &root, &props::plan)
}

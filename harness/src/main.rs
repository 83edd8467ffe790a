#![cfg_attr(not(feature = "symex"), allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, clashing_extern_declarations, dead_code))]
#[cfg(not(feature = "symex"))]
mod nat;
#[cfg(not(feature = "symex"))]
mod patf;
mod reg;
mod h_basic;
mod h_batch;
mod h_capi;
mod h_crash;
mod h_fault;
mod h_keys;
mod h_limit;
mod h_map;
mod h_names;
mod h_open;
mod h_race;
mod h_read;
mod h_snap;
mod h_space;
#[cfg(feature = "tool")]mod h_tool;
mod st;
mod sym;

use reg::HARNESSES;
pub type H = extern "C" fn();
#[cfg(feature = "symex")]
fn main() {
    for (_n, h) in HARNESSES.iter() {
        h();
    }
}

/// pharness HARNESS ASSIGNMENT-FILE, in an empty scratch directory
#[cfg(not(feature = "symex"))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = HARNESSES.iter().find(|x| x.0 == a[1]).expect("harness").1;
    nat::run(h, &a[2])
}

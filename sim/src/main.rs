//! Deterministic simulation of sherman's trees.

mod alloc;
mod constant;
mod ctx;
mod drain;
mod driver;
mod feat;
mod gen;
mod liar;
mod geom;
mod mock;
mod model;
mod rng;
mod run;
mod sched;
mod sd;
mod spec;
mod stats;
mod types;
mod world;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => driver::check(&a[1], &a[2], &dir),
        Some("worker") => {
            driver::worker(&a[1..]);
            0
        }
        Some("exec") => driver::exec(&a[1..]),
        Some("gen") => {
            driver::gen_cmd(&a[1..]);
            0
        }
        Some("hashes") => {
            driver::hashes(&a[1..]);
            0
        }
        Some("replay") => driver::replay(&a[1]),
        Some("min") => driver::min_cmd(&a[1..]),
        _ => {
            eprintln!("usage: shersim check PROP TIER | replay FILE | exec FILE [-v] | min PROP BASE RUN OUT | gen PROP SEED RUN | hashes PROP SEED FIRST STEP END");
            2
        }
    };
    std::process::exit(code);
}

//! Executable counterparts of the contracts in /verif/verus, run on the real crate. Used to look for a
//! concrete failing input when an obligation is not discharged, and as the bounded stand-in for functions
//! that are out of the verifier's reach.
mod cli;
mod conf;
mod gen;
mod info;
mod mutcheck;
mod pp;
mod schema;
mod spec;
mod tree;
mod twin_sol;
mod twin_vy;
mod util;
use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let Ok(d) = std::env::var("VERIF_STANDIN") {
        std::process::exit(cli::standin(&d));
    }
    if a.len() < 5 {
        eprintln!("usage: harness PROP quick|thorough SEED OUT.json");
        std::process::exit(2);
    }
    let thorough = a[2] == "thorough";
    let seed: u64 = a[3].parse().unwrap();
    let mut cx = Cx::new(&a[1], seed, thorough, &a[4]);
    if std::env::var("VERIF_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    mutcheck::run(&mut cx);
    tree::run(&mut cx);
    conf::run(&mut cx);
    cli::run(&mut cx);
    info::check(&mut cx);
    pp::run(&mut cx);
    twin_vy::run(&mut cx);
    twin_sol::run(&mut cx);
    cx.finish();
}

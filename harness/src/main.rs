#![allow(invalid_runtime_symbol_definitions)]
#![allow(dead_code)]
//! Binds the TLA+ specifications in /verif/spec to rusty-git: replays behaviours and cases
//! generated from them, and records traces of the real code for them to judge.

mod alloc;
mod formats;
mod gen;
mod git;
mod gitmade;
mod ids;
mod inside;
mod interpose;
mod io;
mod leaks;
mod odb;
mod opens;
mod pack;
mod packs;
mod proj;
mod reads;
mod reffile;
mod repo;
mod reach;
mod refs;
mod rng;
mod sched;
mod sys;
mod total;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let print = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !proj::QUIET.with(|q| q.get()) {
            print(i)
        }
    }));
    let args = io::Args::parse(&a[2.min(a.len())..]);
    match a.get(1).map(|s| &**s) {
        Some("formats") => formats::run(&args),
        Some("reffile") => reffile::run(&args),
        Some("packs") => packs::run(&args),
        Some("ids") => ids::run(&args),
        Some("reads") => reads::run(&args),
        Some("inside") => inside::run(&args),
        Some("leaks") => leaks::run(&args),
        Some("odb") => odb::run(&args),
        Some("opens") => opens::run(&args),
        Some("reach") => reach::run(&args),
        Some("refs") => refs::run(&args),
        Some("sys") => sys::run(&args),
        Some("total") => total::run(&args),
        c => {
            eprintln!("unknown command {:?}", c);
            std::process::exit(2);
        }
    }
}

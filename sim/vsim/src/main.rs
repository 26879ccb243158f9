//! Deterministic simulation of venial: see /verif/DESIGN.md.
//!
//!   vsim check PROP            runs the check (VERIF_SEED, VERIF_TIER)
//!   vsim replay FILE           replays a reported violation and shows its history
//!   vsim worker ...            one process of a check
//!   vsim once FILE             one replay, for the minimiser

#![allow(dead_code)]

mod check;
mod core;
mod damage;
mod doc;
mod edit;
mod errs;
mod gen;
mod known;
mod list;
mod model;
mod observe;
mod paths;
mod queries;
mod read;
mod reenter;
mod run;
mod sched;
mod show;
mod tape;
mod tok;
mod worker;

#[global_allocator]
static A: sched::Alloc = sched::Alloc;

/// The randomness seam: hash maps of the library get fixed keys.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    len as isize
}

fn main() {
    sched::silence();
    let root = std::env::var("VSIM_ROOT").unwrap_or_else(|_| "/verif".into());
    known::load(&format!("{root}/KNOWN_FINDINGS.txt"));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let h = std::thread::Builder::new()
        .stack_size(sched::STACK)
        .spawn(move || match args.first().map(|s| s.as_str()) {
            Some("check") => check::check(&root, &args[1]),
            Some("worker") => worker::worker(&args[1..]),
            Some("once") => worker::once(&args[1], false),
            Some("dump") => run::dump(args[1].parse().unwrap_or(100)),
            Some("replay") => worker::once(&args[1], true),
            _ => {
                eprintln!("usage: vsim check PROP | replay FILE");
                2
            }
        })
        .unwrap();
    std::process::exit(h.join().unwrap_or(2));
}

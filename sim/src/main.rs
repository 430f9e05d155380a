//! Deterministic simulation of the decision-diagram engines and handle layers.
//!
//!   sim check PROP            supervise a whole check (VERIF_SEED, VERIF_TIER)
//!   sim worker PROP ...       one worker process (internal)
//!   sim replay FILE           run a recorded schedule and compare with the record
//!   sim exec FILE             run a recorded schedule, exit 3 on violation (internal)
//!   sim one PROP SEED         run one seed with its event trace
//!   sim digest PROP BASE N    event digests of the first N runs (determinism)
mod bssw;
mod cachew;
mod core;
mod corew;
mod dot;
mod engines;
mod floorw;
mod largew;
mod massw;
mod mssw;
mod multiw;
mod ops;
mod props;
mod run;
mod space;
mod supervise;
mod tallw;
mod tick;
mod widew;
mod workw;
mod zddw;
mod zpart;

use std::process::exit;

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if !core::QUIET.with(|q| q.get()) {
            eprintln!("panic: {}", i);
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let code = match arg(1) {
        "check" => supervise::check(arg(2)),
        "worker" => on_big_stack({
            let (p, b, s, t, c, d) = (arg(2).to_string(), num(3), num(4), num(5), num(6), num(7));
            move || run::worker(&p, b, s, t, c, d)
        }),
        "replay" => on_big_stack({
            let f = arg(2).to_string();
            move || run::replay(&f)
        }),
        "exec" => on_big_stack({
            let f = arg(2).to_string();
            move || run::exec(&f)
        }),
        "one" => on_big_stack({
            let (p, s) = (arg(2).to_string(), num(3));
            move || run::one(&p, s)
        }),
        "world" => on_big_stack({
            let (p, w, b, n) = (arg(2).to_string(), arg(3).to_string(), num(4), num(5));
            move || run::world(&p, &w, b, n)
        }),
        "digest" => on_big_stack({
            let (p, b, n) = (arg(2).to_string(), num(3), num(4));
            move || run::digests(&p, b, n)
        }),
        _ => {
            eprintln!("usage: sim check|replay|one|digest ...");
            2
        }
    };
    exit(code);
}

fn on_big_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap_or(101)
}

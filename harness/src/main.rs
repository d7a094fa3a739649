mod dict;
mod drive;
mod gen;
mod link;
mod oracle;
mod props;
mod refs;
mod run;
mod server;
mod types;

use run::{Ctx, Mode};
use std::io::{BufRead, Write};

/// usage: harness check ID quick|thorough SEED THREADS | harness replay FILE | harness serve
fn main() {
    // The library's anyhow errors would capture a backtrace each.
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    drive::install_panic_hook();
    drive::install_logger();
    let args: Vec<String> = std::env::args().collect();
    let scale: f64 = std::env::var("HARNESS_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let seed: u64 = args[4].parse().expect("seed");
            let threads: usize = args[5].parse().expect("threads");
            let mut ctx = Ctx::new(&args[2], Mode::Check, args[3] == "thorough", seed, threads, scale);
            props::dispatch(&mut ctx);
            println!("{}", ctx.report());
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay file");
            let id = v["property"].as_str().expect("property").to_string();
            let mode = Mode::Replay { part: v["part"].as_str().expect("part").to_string(), case: v["case"].clone() };
            let mut ctx = Ctx::new(&id, mode, false, 0, 1, 1.0);
            props::dispatch(&mut ctx);
            println!("{}", ctx.report());
        }
        Some("serve") => {
            // The other half of P20 and P23: a log level and a session per line in, one trace per line out.
            let stdin = std::io::stdin();
            let mut out = std::io::stdout().lock();
            for line in stdin.lock().lines() {
                let Ok(line) = line else { break };
                let (level, c): props::p20::Request = serde_json::from_str(&line).expect("case");
                log::set_max_level(props::p20::LEVELS[level as usize % 6]);
                let t = props::p20::run(&c);
                writeln!(out, "{}", serde_json::to_string(&t).unwrap()).unwrap();
                out.flush().unwrap();
            }
        }
        _ => {
            eprintln!("usage: harness check ID quick|thorough SEED THREADS | harness replay FILE | harness serve");
            std::process::exit(2);
        }
    }
}

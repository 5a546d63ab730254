mod blocks;
mod clocks;
mod exec;
mod lib_ugens;
mod logs;
mod rec;
mod times;
mod stat;
mod tu;
mod ug;
use std::io::{BufRead, Write};

#[global_allocator]
static A: rec::CountingAlloc = rec::CountingAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var_os("KH_VERBOSE").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match args.get(1).map(|x| x.as_str()) {
        // Every line of the input is one script (an array of events); the output has one line per
        // observed event.
        Some(cmd @ ("run" | "ug" | "log" | "time" | "block" | "clock")) => {
            let f = std::fs::File::open(&args[2]).expect("script file");
            let mut out = std::fs::File::create(&args[3]).expect("trace file");
            for line in std::io::BufReader::new(f).lines() {
                let line = line.unwrap();
                let evs: Vec<serde_json::Value> = serde_json::from_str(&line).expect("script");
                let mut buf = String::new();
                let emit = |e: serde_json::Value| {
                    buf.clear();
                    buf.push_str(&e.to_string());
                    buf.push('\n');
                    out.write_all(buf.as_bytes()).unwrap();
                };
                match cmd {
                    "run" => {
                        exec::run_script(&evs, emit);
                    }
                    "ug" => {
                        ug::run_script(&evs, emit);
                    }
                    "time" => times::run_script(&evs, emit),
                    "clock" => clocks::run_script(&evs, emit),
                    "block" => blocks::run_script(&evs, emit),
                    _ => logs::run_script(&evs, emit),
                }
            }
        }
        _ => {
            eprintln!("usage: kharness run|ug|log|time|block|clock SCRIPTS TRACE");
            std::process::exit(3);
        }
    }
}

//! Looks for, and replays, concrete inputs on which a property of the real crate fails.
//!
//!   harness search PROP --seed N --cases N --secs S --out DIR   exit 0: none found, 1: DIR/fail.json written
//!   harness replay FILE                                         exit 1 if the recorded case still fails
//!   harness oracle-check PROP                                   checks the oracle itself on fixed bad data
mod engine;
mod gen_;
mod props;
mod rng;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("search") => engine::search(&args[2], &args[3..]),
        Some("replay") => engine::replay(&args[2]),
        Some("list") => {
            for p in props::IDS {
                println!("{p}");
            }
            0
        }
        _ => {
            eprintln!("usage: harness search PROP ... | replay FILE");
            2
        }
    };
    std::process::exit(code);
}

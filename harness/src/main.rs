//! Runs histories on the real engine and records what it answers and plays.
mod graph;
mod memory;
mod run;

#[global_allocator]
static MEMORY: memory::Counting = memory::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        // run HISTORIES OUT: one JSON history per line in, one recorded history per line out
        Some("run") => run::main(&args[2], &args[3]),
        // sizes HISTORIES OUT: the same with several block sizes
        Some("sizes") => run::main_sizes(&args[2], &args[3]),
        // graph HISTORIES OUT: the synthesis library used directly
        Some("graph") => graph::main(&args[2], &args[3]),
        // noise SEEDS COUNT: reference random streams
        Some("noise") => run::noise(&args[2], &args[3]),
        _ => {
            eprintln!("usage: harness run|sizes|graph HISTORIES OUT | noise SEEDS COUNT");
            std::process::exit(2);
        }
    }
}

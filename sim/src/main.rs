//! Deterministic simulation of parquet-format-safe. See /verif/DESIGN.md.
mod alloc;
mod drive;
mod exec;
mod io;
mod mock;
mod props;
mod schema;
mod supervise;
mod tape;
mod val;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    exec::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    // a fixed, known stack for the code under test
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || supervise::cli(&args))
        .unwrap();
    let code = h.join().unwrap_or(2);
    std::process::exit(code);
}

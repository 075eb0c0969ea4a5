mod codes;
mod core;
mod exec;
mod gens;
mod harness;
mod model;
mod plan;
mod shrink;
mod times;
mod wire;
mod xml;

#[global_allocator]
static ALLOC: core::mem::Counting = core::mem::Counting;

fn main() {
    // local time differs from UTC
    std::env::set_var("TZ", "NPT-5:45");
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(String::as_str) {
        Some("check") => harness::check(&a[2..]),
        Some("worker") => harness::worker(&a[2..]),
        Some("exec") => harness::exec_server(),
        Some("replay") => harness::replay(&a[2..]),
        Some("gen") => harness::gen(&a[2..]),
        Some("selftest") => harness::selftest(&a[2..]),
        _ => {
            eprintln!("usage: s3sim check PROP --tier quick|thorough | replay FILE | gen PROP INDEX | selftest");
            2
        }
    };
    std::process::exit(code);
}

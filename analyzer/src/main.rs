mod bv;
mod contract;
mod interp;
mod join;
mod lin;
mod models;
mod rules;
mod state;
use std::io::Read;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut s = String::new();
    std::fs::File::open(&args[1]).unwrap().read_to_string(&mut s).unwrap();
    let p: vir::Program = serde_json::from_str(&s).unwrap();
    let pr = state::Prog::new(p);
    let r = std::thread::Builder::new()
        .stack_size(4 << 30)
        .spawn(move || rules::run(&pr, &args[2], &args[3..]))
        .unwrap()
        .join()
        .unwrap();
    std::process::exit(r);
}

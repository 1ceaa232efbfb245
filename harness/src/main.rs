mod clock;
#[macro_use]
mod comp;
mod drv;
mod lin;
mod seq;
use std::io::{BufRead, BufReader, BufWriter, Write};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mode = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let input = || BufReader::new(std::fs::File::open(&a[2]).expect("input")).lines().map(|l| l.unwrap());
    let mut out = BufWriter::new(std::fs::File::create(&a[3]).expect("output"));
    match mode {
        "lin" => lin::run(input(), &mut out, a[4].parse().unwrap()),
        "seq" => seq::run(input(), &mut out),
        m => { eprintln!("unknown mode {}", m); std::process::exit(3) }
    }
    out.flush().unwrap();
}

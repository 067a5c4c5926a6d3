mod alloc;
mod arith;
mod elem;
mod fft;
mod fix;
mod hist;
mod json;
mod machine;
mod mat;
mod rand;
mod read;
mod reduce;
mod rten;
mod seed;
mod shape;
mod space;

mod watch;
mod wav;

use json::J;
use std::io::{BufRead, BufWriter, Write};

#[global_allocator]
static ALLOC: alloc::Checked = alloc::Checked;

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VERBOSE_PANICS").is_ok() { eprintln!("{}", i); }
    }));
    let args: Vec<String> = std::env::args().collect();
    let cmd = args[1].as_str();
    // REQ OUT: one JSON object per line in, one per line out; OUT.pos holds the line being executed
    let input = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
    let mut out = BufWriter::new(std::fs::File::create(&args[3]).unwrap());
    let mut pos = std::fs::File::create(format!("{}.pos", &args[3])).unwrap();
    for (n, line) in input.lines().enumerate() {
        let line = line.unwrap();
        if line.trim().is_empty() { continue; }
        use std::io::Seek;
        pos.rewind().unwrap();
        write!(pos, "{:<12}", n + 1).unwrap();
        let j = J::parse(&line);
        let mut r = match cmd {
            "machine" => machine::history(&j),
            "shape" => shape::history(&j),
            "reduce" => reduce::row(&j),
            "space" => space::row(&j),
            "mat" => mat::row(&j),
            "rand" => rand::row(&j),
            "seed" => seed::row(&j),
            "rten" => rten::row(&j),
            "hist" => hist::row(&j),
            "fft" => fft::row(&j),
            "wav" => wav::row(&j),
            "read" => read::row(&j, &std::path::PathBuf::from(format!("{}.d", &args[3]))),
            "arith" => arith::row(&j),
            _ => panic!("command {}", cmd),
        };
        if watch::on() { r.set("kept", watch::report()); }
        writeln!(out, "{}", r.text()).unwrap();
    }
    out.flush().unwrap();
}

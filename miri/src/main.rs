//! Evaluates programs from a file, to be run under Miri.
//!
//!     tv-miri FILE SECONDS
//!
//! The file holds per case `<every> <on reserve> <grow> <program> <result>`.
use std::io::Write;

mod decode;

fn say(s: &str) {
    let mut out = std::io::stdout().lock();
    out.write_all(s.as_bytes()).unwrap();
    out.write_all(b"\n").unwrap();
    out.flush().unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::fs::read_to_string(&args[1]).unwrap();
    let secs: u64 = args[2].parse().unwrap();
    let start = std::time::Instant::now();
    for (nth, line) in input.lines().enumerate() {
        if start.elapsed().as_secs() >= secs {
            break;
        }
        let mut words = decode::Words(line.split_ascii_whitespace());
        let _control = (words.num(), words.num(), words.num());
        let (program, exprs) = decode::program(&mut words);
        say(&format!("begin {}", nth));
        #[cfg(tic_verif)]
        ticc_eval::verif::start(ticc_eval::verif::Control {
            every: _control.0,
            on_reserve: _control.1 == 1,
            grow: _control.2,
            check: false,
            poison: false,
        });
        let result = ticc_eval::bytecode::eval(&program, &exprs);
        #[cfg(tic_verif)]
        let (steps, collections) = ticc_eval::verif::stop().map(|s| (s.steps, s.forced)).unwrap();
        #[cfg(not(tic_verif))]
        let (steps, collections) = (0, 0);
        let sum = decode::digest(&result);
        let same = words.num() == sum;
        say(&format!("{} {} {} {}", if same { "done" } else { "differs" }, nth, steps, collections));
    }
    say("end");
}

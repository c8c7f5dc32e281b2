//! `replay <harness> <values-file>`: runs one harness natively, against the real dependencies,
//! with the values the solver found.  Exit 0: the harness holds; 101: it panicked (the violation
//! is real); 77: the values do not fit.
use std::{env, fs, process};

fn main() {
    let args: Vec<String> = env::args().collect();
    let values = fs::read_to_string(&args[2])
        .expect("values file")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            l.trim()
                .split(',')
                .filter(|b| !b.trim().is_empty())
                .map(|b| b.trim().parse::<u8>().expect("byte"))
                .collect()
        })
        .collect();
    harness::sym::load(values);
    if !harness::run(&args[1]) {
        eprintln!("replay: no harness named {}", args[1]);
        process::exit(78);
    }
}

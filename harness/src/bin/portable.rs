//! `portable gen <file> <seed> <from> <to>` writes records, `portable run <file> <out> <first> [quiet]`
//! runs them (`first` is the number of the first record in the file).
use mlxmon::portable::{decode, encode, record, run, Out2};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| -> u64 { a.get(i).and_then(|s| s.parse().ok()).expect("a number") };
    match a.get(1).map(String::as_str) {
        Some("gen") => {
            let recs: Vec<_> = (n(4)..n(5)).map(|i| record(n(3), i).0).collect();
            std::fs::write(&a[2], encode(&recs)).expect("write");
        }
        Some("run") => {
            mlxmon::ctx::install_hook();
            let recs = decode(&std::fs::read(&a[2]).expect("read"));
            let first = n(4);
            let quiet = a.get(5).is_some();
            let mut o = Out2 {
                text: String::new(),
                rec: 0,
            };
            for (i, r) in recs.iter().enumerate() {
                let before = o.text.len();
                run(first + i as u64, r, &mut o);
                if quiet {
                    // Only that it was done, and a digest.
                    let h = mlxmon::rng::fnv(o.text[before..].as_bytes());
                    o.text.truncate(before);
                    o.text.push_str(&format!("D {} digest {h:x}\n", first + i as u64));
                }
            }
            o.text.push_str("END\n");
            std::fs::write(&a[3], o.text).expect("write");
        }
        _ => {
            eprintln!("usage: portable gen|run ...");
            std::process::exit(2);
        }
    }
}

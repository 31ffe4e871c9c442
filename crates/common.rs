// Shared by the small harnesses: reads a script, performs each line, and writes one event per line.
use std::io::{BufRead, BufReader, BufWriter, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// JSON of the event's fields, each preceded by a comma.
pub type Fields = String;

#[allow(dead_code)]
pub fn list(v: &str) -> Vec<u32> {
    if v == "-" {
        return vec![];
    }
    v.split(',').map(|x| x.parse().unwrap_or_else(|_| bad(v))).collect()
}
#[allow(dead_code)]
pub fn num(v: &str) -> u32 {
    v.parse().unwrap_or_else(|_| bad(v))
}
#[allow(dead_code)]
pub fn js<T: std::fmt::Display>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
/// The script is at fault, not the library.
pub fn bad(w: &str) -> ! {
    eprintln!("bad script word {w}");
    std::process::exit(3)
}

/// `exec` gets the words of a line and answers with the event's fields.
pub fn run(header: &str, mut exec: impl FnMut(&[&str]) -> Fields) {
    let a: Vec<String> = std::env::args().collect();
    let script = BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    let mut intent = std::fs::File::create(&a[3]).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    writeln!(out, "{{\"op\":\"header\"{header}}}").unwrap();
    let mut dead = false;
    for (n, line) in script.lines().enumerate() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with("//") {
            continue;
        }
        if w[0] == "reset" {
            dead = false;
        }
        if dead {
            continue;
        }
        intent.seek(SeekFrom::Start(0)).unwrap();
        writeln!(intent, "{} {:40}", n + 1, line).unwrap();
        match catch_unwind(AssertUnwindSafe(|| exec(&w))) {
            Ok(f) => writeln!(out, "{{\"op\":\"{}\"{},\"panic\":0,\"ln\":{}}}", w[0], f, n + 1).unwrap(),
            Err(_) => {
                // What the library holds is unknown from here on.
                dead = true;
                writeln!(out, "{{\"op\":\"{}\",\"panic\":1,\"ln\":{}}}", w[0], n + 1).unwrap();
            }
        }
        out.flush().unwrap();
    }
    intent.set_len(0).unwrap();
    intent.seek(SeekFrom::Start(0)).unwrap();
    writeln!(intent, "done").unwrap();
}

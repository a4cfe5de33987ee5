//! Conformance harness for musli-zerocopy: executes scripts (one JSON object
//! per line) against the real code and records what it observably did.
mod types;
mod trie;
mod maps;
mod builder;
mod load;
mod port;
mod slices;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static STARTED: AtomicU64 = AtomicU64::new(0);
static LAST: Mutex<String> = Mutex::new(String::new());

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

/// Run `f`; a panic of the code under test is data.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

/// Outcome object: {"r":"ok","v":..} / {"r":"err"} / {"r":"panic"}.
pub fn outcome<T, E>(r: Result<Result<T, E>, String>, f: impl FnOnce(T) -> Value) -> Value {
    match r {
        Ok(Ok(v)) => json!({"r": "ok", "v": f(v)}),
        Ok(Err(_)) => json!({"r": "err", "v": []}),
        Err(_) => json!({"r": "panic", "v": []}),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args[1].clone();
    let input = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[3]).unwrap());
    let hang = args[3].clone() + ".stuck";
    std::panic::set_hook(Box::new(|_| {}));
    {
        let hang = hang.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let s = STARTED.load(Ordering::SeqCst);
            if s != 0 && now() > s + 25 {
                let _ = std::fs::write(&hang, LAST.lock().unwrap().as_bytes());
                std::process::exit(97);
            }
        });
    }
    let cur = args[3].clone() + ".current";
    let cur = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(cur).unwrap();
    use std::os::unix::fs::FileExt;
    for line in input.lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        *LAST.lock().unwrap() = line.clone();
        let mut padded = line.clone().into_bytes();
        padded.push(b'\n');
        cur.write_all_at(&padded, 0).unwrap();
        STARTED.store(now(), Ordering::SeqCst);
        let v: Value = serde_json::from_str(&line).unwrap();
        let r = match mode.as_str() {
            "trie" => trie::run(&v),
            "maps" => maps::run(&v),
            "builder" => builder::run(&v),
            "load" => load::run(&v),
            "port" => port::run(&v),
            "slices" => slices::run(&v),
            _ => panic!("mode"),
        };
        STARTED.store(0, Ordering::SeqCst);
        serde_json::to_writer(&mut out, &r).unwrap();
        out.write_all(b"\n").unwrap();
    }
    out.flush().unwrap();
}

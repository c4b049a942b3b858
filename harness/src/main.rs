//! Conformance driver: executes scenarios against the real `gift` crate and
//! writes down what it observed.  It judges nothing; the TLA+ specification
//! does.
//!
//! usage: gift-harness SCENARIOS.ndjson OBSERVATIONS.ndjson [FIRST]
//!
//! Every line of the input is a scenario; the n-th line of the output is what
//! happened.  A panic is data (`{"k":"panic"}`); so is a scenario which does
//! not finish (`{"k":"hang"}`, written by the watchdog, after which the
//! process exits with status 3 and the caller restarts at the next scenario).
mod alloc;
mod decode;
mod encode;
mod fields;
mod io;
mod item;
mod values;

use serde_json::{Value, json};
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// Formats messages of the crate, and drops them
struct Sink;

impl std::fmt::Write for Sink {
    fn write_str(&mut self, _s: &str) -> std::fmt::Result {
        Ok(())
    }
}

impl log::Log for Sink {
    fn enabled(&self, _m: &log::Metadata) -> bool {
        true
    }

    fn log(&self, r: &log::Record) {
        std::fmt::Write::write_fmt(&mut Sink, *r.args()).unwrap();
    }

    fn flush(&self) {}
}

fn run(scn: &Value) -> Value {
    log::set_max_level(if scn["log"].as_bool().unwrap_or(false) {
        log::LevelFilter::Trace
    } else {
        log::LevelFilter::Off
    });
    match scn["op"].as_str().unwrap_or("") {
        "decode" => decode::run(scn),
        "transcode" => encode::transcode(scn),
        "encblock" => encode::blocks(scn),
        "encframe" => encode::frames(scn),
        "encstep" => encode::steps(scn),
        "fields" => fields::run(scn),
        "values" => values::run(scn),
        op => panic!("harness: unknown op {op:?}"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = BufReader::new(File::open(&args[1]).expect("scenarios"));
    let first: usize = args.get(3).map_or(0, |s| s.parse().expect("FIRST"));
    let out = OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[2])
        .expect("observations");
    let out = Arc::new(Mutex::new(out));
    let limit: u64 = std::env::var("HARNESS_LIMIT_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(60);
    log::set_logger(&Sink).expect("logger");
    std::panic::set_hook(Box::new(|_| {}));
    let began = Instant::now();
    // start time of the current scenario, in ms (0: none)
    let current = Arc::new(AtomicU64::new(0));
    {
        let out = Arc::clone(&out);
        let current = Arc::clone(&current);
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(100));
                let start = current.load(Ordering::SeqCst);
                let now = began.elapsed().as_millis() as u64 + 1;
                if start > 0 && now > start + limit * 1000 {
                    let mut out = out.lock().unwrap();
                    writeln!(out, "{}", json!({"k": "hang"})).unwrap();
                    out.flush().unwrap();
                    std::process::exit(3);
                }
            }
        });
    }
    for (i, line) in input.lines().enumerate() {
        let line = line.expect("read");
        if i < first {
            continue;
        }
        let scn: Value = serde_json::from_str(&line).expect("json");
        let now = began.elapsed().as_millis() as u64 + 1;
        current.store(now, Ordering::SeqCst);
        let obs = catch_unwind(AssertUnwindSafe(|| run(&scn)));
        current.store(0, Ordering::SeqCst);
        let obs = obs.unwrap_or_else(|e| {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if msg.starts_with("harness:") {
                eprintln!("scenario {i}: {msg}");
                std::process::exit(4);
            }
            json!({"k": "panic", "msg": msg})
        });
        let mut out = out.lock().unwrap();
        writeln!(out, "{obs}").unwrap();
    }
}

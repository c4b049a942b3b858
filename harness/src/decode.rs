//! Decoding scenarios
//!
//! `bytes`, `max` (absent: default, -1: none), `sched`/`fail_at`/`times` for
//! the reader, `iface`: blocks, frames, preframes (preamble, then frames),
//! steps or iter, `limit` on the number of items, `brief`: only kinds,
//! `files`: how many files to decode one after another, `runs`: equal items
//! in a row are counted.
use crate::io::{Progress, ScriptReader};
use crate::{alloc, item};
use gift::{Decoder, Result};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;

/// Items, and how far the reader was after each: position, arrivals
struct Log {
    items: Vec<Value>,
    ends: Vec<usize>,
    seen: Vec<usize>,
    /// how often each item came in a row, if that is wanted
    runs: Option<Vec<usize>>,
    n: usize,
    progress: Rc<RefCell<Progress>>,
}

impl Log {
    fn push(&mut self, v: Value) {
        let p = self.progress.borrow();
        self.n += 1;
        if let Some(runs) = &mut self.runs {
            if self.items.last() == Some(&v) {
                *runs.last_mut().unwrap() += 1;
                return;
            }
            runs.push(1);
        }
        self.items.push(v);
        self.ends.push(p.pos);
        self.seen.push(p.arrivals.len());
    }

    fn last(&self) -> &Value {
        &self.items.last().unwrap()["k"]
    }
}

/// Take items until None, a panic, or the limit
fn drain<T>(
    mut it: impl Iterator<Item = Result<T>>,
    limit: usize,
    f: impl Fn(&T) -> Value,
    log: &mut Log,
) {
    loop {
        if log.n >= limit {
            log.push(json!({"k": "more"}));
            return;
        }
        match it.next() {
            Some(Ok(b)) => log.push(f(&b)),
            Some(Err(e)) => log.push(item::error(&e)),
            None => {
                log.push(json!({"k": "none"}));
                return;
            }
        }
    }
}

/// Run one decoder to its end
fn decode(
    scn: &Value,
    dec: Decoder<&mut ScriptReader>,
    limit: usize,
    log: &mut Log,
) {
    let brief = scn["brief"].as_bool().unwrap_or(false);
    let ok = || json!({"k": "ok"});
    match scn["iface"].as_str().unwrap() {
        "blocks" => drain(
            dec.into_blocks(),
            limit,
            |b| if brief { ok() } else { item::block(b) },
            log,
        ),
        "frames" => drain(
            dec.into_frames(),
            limit,
            |b| if brief { ok() } else { item::frame(b) },
            log,
        ),
        "preframes" => {
            let mut frames = dec.into_frames();
            let n = scn["npre"].as_u64().unwrap_or(1);
            for _ in 0..n {
                log.push(match frames.preamble() {
                    Ok(Some(p)) => item::preamble(&p),
                    Ok(None) => json!({"k": "nopre"}),
                    Err(e) => item::error(&e),
                });
                if log.last() == "err" {
                    return;
                }
            }
            drain(frames, limit, item::frame, log);
        }
        iface => {
            let steps = if iface == "steps" {
                dec.into_steps()
            } else {
                dec.into_iter()
            };
            drain(
                steps,
                limit,
                |s| if brief { ok() } else { item::step(s) },
                log,
            );
        }
    }
}

pub fn run(scn: &Value) -> Value {
    let bytes = item::bytes(&scn["bytes"]);
    let limit =
        scn["limit"].as_u64().unwrap_or(bytes.len() as u64 + 16) as usize;
    let (mut reader, progress) = ScriptReader::new(bytes, scn);
    let mut log = Log {
        items: vec![],
        ends: vec![],
        seen: vec![],
        runs: (scn["runs"] == true).then(Vec::new),
        n: 0,
        progress,
    };
    let base = alloc::mark();
    let ok = catch_unwind(AssertUnwindSafe(|| {
        // one file after another from the same reader
        for n in 0..scn["files"].as_u64().unwrap_or(1) {
            if n > 0 {
                log.push(json!({"k": "new"}));
            }
            let mut dec = Decoder::new(&mut reader);
            if let Some(max) = scn["max"].as_i64() {
                dec = dec.max_image_sz(usize::try_from(max).ok());
            }
            decode(scn, dec, limit, &mut log);
            if log.items.iter().any(|i| i["k"] == "err") {
                break;
            }
        }
    }))
    .is_ok();
    let peak = alloc::peak(base);
    if !ok {
        log.push(json!({"k": "panic"}));
    }
    let arrivals = log.progress.borrow().arrivals.clone();
    json!({"k": "decode", "items": log.items, "ends": log.ends,
        "seen": log.seen, "arrivals": arrivals, "runs": log.runs,
        "peak": peak / 1024})
}

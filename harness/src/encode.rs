//! Encoding scenarios
use crate::decode;
use crate::io::{Script, ScriptWriter};
use crate::item;
use gift::block::*;
use gift::{Decoder, Encoder, Step};
use pix::gray::Gray8;
use pix::rgb::SRgb8;
use pix::{Palette, Raster};
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};

fn result(r: std::thread::Result<gift::Result<()>>) -> (Value, bool) {
    match r {
        Ok(Ok(())) => (json!({"k": "ok"}), true),
        Ok(Err(e)) => (item::error(&e), true),
        Err(_) => (json!({"k": "panic"}), false),
    }
}

/// Run calls in order; record result and output length after each
fn drive(
    calls: &[Value],
    w: &ScriptWriter,
    mut f: impl FnMut(&Value) -> gift::Result<()>,
) -> (Vec<Value>, Vec<usize>) {
    let mut res = vec![];
    let mut lens = vec![];
    for c in calls {
        let (r, ok) = result(catch_unwind(AssertUnwindSafe(|| f(c))));
        res.push(r);
        lens.push(w.out.borrow().len());
        if !ok {
            break;
        }
    }
    (res, lens)
}

fn finish(
    scn: &Value,
    w: &ScriptWriter,
    res: Vec<Value>,
    lens: Vec<usize>,
) -> Value {
    let out = w.out.borrow().clone();
    let mut obs = json!({"k": "encode", "res": res, "lens": lens,
        "out": out});
    // decode the output with the crate itself
    if let Some(iface) = scn["back"].as_str() {
        let mut s = json!({"iface": iface, "bytes": out});
        if !scn["max"].is_null() {
            s["max"] = scn["max"].clone();
        }
        let back = decode::run(&s);
        obs["back"] = back["items"].clone();
    }
    obs
}

pub fn blocks(scn: &Value) -> Value {
    let w = ScriptWriter::new(Script::new(scn));
    let calls = scn["calls"].as_array().unwrap();
    let mut enc = Encoder::new(w.clone()).into_block_enc();
    let (res, lens) = drive(calls, &w, |c| enc.encode(item::to_block(c)));
    finish(scn, &w, res, lens)
}

pub fn frames(scn: &Value) -> Value {
    let w = ScriptWriter::new(Script::new(scn));
    let calls = scn["calls"].as_array().unwrap();
    let mut enc = Encoder::new(w.clone()).into_frame_enc();
    let (res, lens) = drive(calls, &w, |c| match c["k"].as_str().unwrap() {
        "pre" => enc.encode_preamble(&item::to_preamble(c)),
        "frame" => enc.encode_frame(&item::to_frame(c)),
        "trl" => enc.encode_trailer(),
        k => panic!("harness: unknown call {k:?}"),
    });
    drop(enc);
    finish(scn, &w, res, lens)
}

fn palette(v: &Value) -> Palette {
    let clrs = item::bytes(v);
    let n = clrs.len() / 3;
    let mut p = Palette::new(n);
    for i in 0..n {
        // distinct placeholders keep set_entry from merging equal colors
        let h = i as u32;
        p.set_entry(SRgb8::new(h as u8, (h >> 8) as u8, (h >> 16) as u8));
    }
    for (i, c) in clrs.chunks_exact(3).enumerate() {
        p.replace_entry(i, SRgb8::new(c[0], c[1], c[2]));
    }
    assert_eq!(p.len(), n, "harness: palette");
    p
}

fn step(c: &Value) -> Step {
    let w = item::int(&c["w"]) as u32;
    let h = item::int(&c["h"]) as u32;
    let px: Vec<Gray8> = item::bytes(&c["px"])
        .iter()
        .map(|p| Gray8::new(*p))
        .collect();
    let px = if px.is_empty() && w * h > 0 {
        vec![Gray8::new(0); (w * h) as usize]
    } else {
        px
    };
    let raster = Raster::with_pixels(w, h, px);
    let mut s = Step::with_indexed(raster, palette(&c["pal"]));
    for op in c["ops"].as_array().unwrap() {
        s = step_op(s, op);
    }
    s
}

/// Apply one builder call to a step
pub fn step_op(s: Step, op: &Value) -> Step {
    let v = &op[1];
    match op[0].as_str().unwrap() {
        "disp" => s.with_disposal_method(disposal(item::int(v) as u8)),
        "tr" => s.with_transparent_color(v.get(0).map(|n| item::int(n) as u8)),
        "delay" => s.with_delay_time_cs(v.get(0).map(|n| item::int(n) as u16)),
        "copy" => s.clone(),
        k => panic!("harness: unknown step op {k:?}"),
    }
}

pub fn disposal(n: u8) -> DisposalMethod {
    match n {
        0 => DisposalMethod::NoAction,
        1 => DisposalMethod::Keep,
        2 => DisposalMethod::Background,
        3 => DisposalMethod::Previous,
        n => DisposalMethod::Reserved(n),
    }
}

pub fn steps(scn: &Value) -> Value {
    let w = ScriptWriter::new(Script::new(scn));
    let calls = scn["calls"].as_array().unwrap();
    let mut enc = Encoder::new(w.clone()).into_step_enc();
    // settings which are replaced by the ones below
    for s in scn["before"].as_array().into_iter().flatten() {
        enc = match s[0].as_str().unwrap() {
            "loop" => enc.with_loop_count(item::int(&s[1]) as u16),
            _ => enc.with_global_color_table(&palette(&s[1])),
        };
    }
    if let Some(n) = scn["loop"].get(0) {
        enc = enc.with_loop_count(item::int(n) as u16);
    }
    if let Some(p) = scn["gct"].get(0) {
        enc = enc.with_global_color_table(&palette(p));
    }
    let (res, lens) = drive(calls, &w, |c| {
        let s = step(c);
        enc.encode_step(&s)
    });
    let _ = catch_unwind(AssertUnwindSafe(|| drop(enc)));
    finish(scn, &w, res, lens)
}

/// Decode to blocks (or frames), and encode the same values again
pub fn transcode(scn: &Value) -> Value {
    let bytes = item::bytes(&scn["bytes"]);
    let w = ScriptWriter::new(Script::new(scn));
    let r = catch_unwind(AssertUnwindSafe(|| -> gift::Result<()> {
        match scn["level"].as_str().unwrap() {
            "blocks" => {
                let mut enc = Encoder::new(w.clone()).into_block_enc();
                for b in Decoder::new(&bytes[..]).into_blocks() {
                    enc.encode(b?)?;
                }
            }
            "frames" => {
                let mut enc = Encoder::new(w.clone()).into_frame_enc();
                let mut dec = Decoder::new(&bytes[..]).into_frames();
                if let Some(p) = dec.preamble()? {
                    enc.encode_preamble(&p)?;
                }
                for f in dec {
                    enc.encode_frame(&f?)?;
                }
                enc.encode_trailer()?;
            }
            l => panic!("harness: unknown level {l:?}"),
        }
        Ok(())
    }));
    let (r, _) = result(r);
    let lens = vec![w.out.borrow().len()];
    finish(scn, &w, vec![r], lens)
}

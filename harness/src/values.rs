//! Values of the crate on their own: sub-blocks which are added, blocks which
//! are compared, and what errors say
use crate::io::scripted;
use crate::item::{bytes, int, opt, to_block, to_lsd};
use gift::Error;
use gift::block::*;
use serde_json::{Value, json};
use std::error::Error as _;
use std::panic::{AssertUnwindSafe, catch_unwind};

fn added(ok: bool, block: &Block) -> Value {
    let none: &[u8] = &[];
    let (id, subs) = match block {
        Block::PlainText(b) => (none, &b.sub_blocks()[..]),
        Block::Comment(b) => (none, &b.comments()[..]),
        Block::Application(b) => (none, &b.app_data()[..]),
        Block::Unknown(b) => (b.ext_id(), b.sub_blocks()),
        _ => (none, &[][..]),
    };
    json!({"ok": ok as u8, "id": id, "s": subs})
}

fn add(block: &mut Block, data: &[u8]) {
    match block {
        Block::PlainText(b) => b.add_sub_block(data),
        Block::Comment(b) => b.add_comment(data),
        Block::Application(b) => b.add_app_data(data),
        Block::Unknown(b) => b.add_sub_block(data),
        _ => panic!("harness: has no sub-blocks"),
    }
}

fn sub_blocks(scn: &Value) -> Vec<Value> {
    let mut block: Block = match scn["kind"].as_str().unwrap() {
        "pt" => PlainText::default().into(),
        "com" => Comment::default().into(),
        "app" => Application::default().into(),
        _ => Unknown::default().into(),
    };
    let mut obs = vec![added(true, &block)];
    for c in scn["calls"].as_array().unwrap() {
        let data = bytes(c);
        let r = catch_unwind(AssertUnwindSafe(|| add(&mut block, &data)));
        obs.push(added(r.is_ok(), &block));
    }
    obs
}

fn tables(scn: &Value) -> Vec<Value> {
    let call = |c| {
        let c = bytes(c);
        let g = catch_unwind(|| GlobalColorTable::with_colors(&c));
        let l = catch_unwind(|| LocalColorTable::with_colors(&c));
        json!({"g": opt(g.ok(), |t| json!(t.colors())),
            "l": opt(l.ok(), |t| json!(t.colors()))})
    };
    scn["calls"].as_array().unwrap().iter().map(call).collect()
}

fn pair(scn: &Value) -> Vec<Value> {
    let (a, b) = (&scn["calls"][0], &scn["calls"][1]);
    let size = if a["k"] == "lsd" && b["k"] == "lsd" {
        vec![to_lsd(a).equal_size(to_lsd(b)) as u8]
    } else {
        vec![]
    };
    let (a, b) = (to_block(a), to_block(b));
    vec![json!({"eq": (a == b) as u8, "copy": (a.clone() == a) as u8,
        "sub": [a.has_sub_blocks() as u8, b.has_sub_blocks() as u8],
        "size": size})]
}

fn error(name: &str, v: &Value) -> (Error, String) {
    let e = match name {
        "Io" => {
            let e = match v[0].as_i64() {
                Some(code) => std::io::Error::from_raw_os_error(code as i32),
                None => scripted(bytes(&v[0])),
            };
            let text = e.to_string();
            return (e.into(), text);
        }
        "TryFromInt" => {
            let e = u8::try_from(int(&v[0]) as i64 - 1000).unwrap_err();
            let text = e.to_string();
            return (e.into(), text);
        }
        "MalformedHeader" => Error::MalformedHeader,
        "UnsupportedVersion" => {
            let v = bytes(v);
            Error::UnsupportedVersion([v[0], v[1], v[2]])
        }
        "InvalidBlockCode" => Error::InvalidBlockCode,
        "InvalidBlockSequence" => Error::InvalidBlockSequence,
        "MalformedGraphicControlExtension" => {
            Error::MalformedGraphicControlExtension
        }
        "UnexpectedEndOfFile" => Error::UnexpectedEndOfFile,
        "InvalidLzwData" => Error::InvalidLzwData,
        "TooLargeImage" => Error::TooLargeImage,
        "IncompleteImageData" => Error::IncompleteImageData,
        "InvalidFrameDimensions" => Error::InvalidFrameDimensions,
        "MissingColorTable" => Error::MissingColorTable,
        "InvalidColorIndex" => Error::InvalidColorIndex,
        "InvalidRasterDimensions" => Error::InvalidRasterDimensions,
        _ => panic!("harness: unknown error {name:?}"),
    };
    (e, String::new())
}

fn errors(scn: &Value) -> Vec<Value> {
    let call = |c: &Value| {
        let (e, inner) = error(c[0].as_str().unwrap(), &c[1]);
        json!({"text": e.to_string(), "inner": inner,
            "source": opt(e.source(), |s| json!(s.to_string()))})
    };
    scn["calls"].as_array().unwrap().iter().map(call).collect()
}

pub fn run(scn: &Value) -> Value {
    let obs = match scn["type"].as_str().unwrap() {
        "sub" => sub_blocks(scn),
        "tables" => tables(scn),
        "pair" => pair(scn),
        "errors" => errors(scn),
        t => panic!("harness: unknown type {t:?}"),
    };
    json!({"k": "values", "obs": obs})
}

//! Projection of the crate's values to JSON, and back
use gift::block::*;
use gift::{Error, Step};
use pix::Raster;
use pix::rgb::SRgba8;
use serde_json::{Value, json};

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array()
        .map(|a| a.iter().map(|n| n.as_u64().unwrap() as u8).collect())
        .unwrap_or_default()
}

fn subs(v: &Value) -> Vec<Vec<u8>> {
    v.as_array()
        .map(|a| a.iter().map(bytes).collect())
        .unwrap_or_default()
}

pub fn int(v: &Value) -> u64 {
    v.as_u64()
        .unwrap_or_else(|| panic!("harness: not an integer: {v}"))
}

pub fn error(e: &Error) -> Value {
    let mut v: Vec<u8> = vec![];
    let name = match e {
        Error::Io(err) => {
            v = crate::io::what(err);
            "Io"
        }
        Error::TryFromInt(_) => "TryFromInt",
        Error::MalformedHeader => "MalformedHeader",
        Error::UnsupportedVersion(ver) => {
            v = ver.to_vec();
            "UnsupportedVersion"
        }
        Error::InvalidBlockCode => "InvalidBlockCode",
        Error::InvalidBlockSequence => "InvalidBlockSequence",
        Error::MalformedGraphicControlExtension => {
            "MalformedGraphicControlExtension"
        }
        Error::UnexpectedEndOfFile => "UnexpectedEndOfFile",
        Error::InvalidLzwData => "InvalidLzwData",
        Error::TooLargeImage => "TooLargeImage",
        Error::IncompleteImageData => "IncompleteImageData",
        Error::InvalidFrameDimensions => "InvalidFrameDimensions",
        Error::MissingColorTable => "MissingColorTable",
        Error::InvalidColorIndex => "InvalidColorIndex",
        Error::InvalidRasterDimensions => "InvalidRasterDimensions",
        #[allow(unreachable_patterns)]
        _ => "Other",
    };
    json!({"k": "err", "e": name, "v": v})
}

pub fn lsd(b: &LogicalScreenDesc) -> Value {
    json!({"k": "lsd", "w": b.screen_width(), "h": b.screen_height(),
        "flags": b.flags(), "bg": b.background_color_idx(),
        "ar": b.pixel_aspect_ratio()})
}

pub fn gce(b: &GraphicControl) -> Value {
    json!({"k": "gce", "flags": b.flags(), "delay": b.delay_time_cs(),
        "tr": b.transparent_color_idx()})
}

pub fn img(b: &ImageDesc) -> Value {
    json!({"k": "img", "left": b.left(), "top": b.top(), "w": b.width(),
        "h": b.height(), "flags": b.flags()})
}

pub fn app(b: &Application) -> Value {
    json!({"k": "app", "s": b.app_data()})
}

pub fn com(b: &Comment) -> Value {
    json!({"k": "com", "s": b.comments()})
}

pub fn block(b: &Block) -> Value {
    match b {
        Block::Header(b) => json!({"k": "hdr", "v": b.version()}),
        Block::LogicalScreenDesc(b) => lsd(b),
        Block::GlobalColorTable(b) => json!({"k": "gct", "c": b.colors()}),
        Block::PlainText(b) => json!({"k": "pt", "s": b.sub_blocks()}),
        Block::GraphicControl(b) => gce(b),
        Block::Comment(b) => com(b),
        Block::Application(b) => app(b),
        Block::Unknown(b) => {
            json!({"k": "unk", "id": b.ext_id(), "s": b.sub_blocks()})
        }
        Block::ImageDesc(b) => img(b),
        Block::LocalColorTable(b) => json!({"k": "lct", "c": b.colors()}),
        Block::ImageData(b) => json!({"k": "dat", "d": b.data()}),
        Block::Trailer(_) => json!({"k": "trl"}),
    }
}

/// Optional value as a sequence of at most one element
pub fn opt<T>(o: Option<T>, f: impl Fn(T) -> Value) -> Value {
    Value::Array(o.map(f).into_iter().collect())
}

pub fn frame(f: &Frame) -> Value {
    json!({"k": "frame",
        "gce": opt(f.graphic_control_ext.as_ref(), gce),
        "img": img(&f.image_desc),
        "lct": opt(f.local_color_table.as_ref(), |t| json!(t.colors())),
        "d": f.image_data.data(),
        // derived accessors
        "disp": u8::from(f.disposal_method()),
        "trn": opt(f.transparent_color(), |t| json!(t)),
        "geo": [f.left(), f.top(), f.width(), f.height()],
        "reg": [f.region().left(), f.region().top(),
            f.region().width() as i32, f.region().height() as i32]})
}

pub fn preamble(p: &Preamble) -> Value {
    json!({"k": "pre",
        "v": p.header.version(),
        "lsd": lsd(&p.logical_screen_desc),
        "gct": opt(p.global_color_table.as_ref(), |t| json!(t.colors())),
        "loop": opt(p.loop_count_ext.as_ref(), app),
        "com": p.comments.iter().map(com).collect::<Vec<_>>(),
        "size": [p.screen_width(), p.screen_height()]})
}

/// A pixel as an integer: -1 is clear, 0xRRGGBB is opaque, -2 anything else
fn pixel(c: &[u8]) -> i64 {
    match (c[0], c[1], c[2], c[3]) {
        (0, 0, 0, 0) => -1,
        (r, g, b, 255) => {
            (i64::from(r) << 16) | (i64::from(g) << 8) | i64::from(b)
        }
        _ => -2,
    }
}

pub fn pixels(r: &Raster<SRgba8>) -> Vec<i64> {
    r.as_u8_slice().chunks_exact(4).map(pixel).collect()
}

pub fn step(s: &Step) -> Value {
    let r = s.raster();
    json!({"k": "step", "w": r.width(), "h": r.height(), "px": pixels(r),
        "delay": s.delay_time_cs().unwrap_or(0),
        "trn": opt(s.transparent_color(), |t| json!(t))})
}

// From JSON to blocks

pub fn to_header(v: &Value) -> Header {
    let b = bytes(v);
    Header::with_version([b[0], b[1], b[2]])
}

pub fn to_lsd(v: &Value) -> LogicalScreenDesc {
    LogicalScreenDesc::default()
        .with_screen_width(int(&v["w"]) as u16)
        .with_screen_height(int(&v["h"]) as u16)
        .with_flags(int(&v["flags"]) as u8)
        .with_background_color_idx(int(&v["bg"]) as u8)
        .with_pixel_aspect_ratio(int(&v["ar"]) as u8)
}

pub fn to_gce(v: &Value) -> GraphicControl {
    let mut b = GraphicControl::default();
    b.set_flags(int(&v["flags"]) as u8);
    b.set_delay_time_cs(int(&v["delay"]) as u16);
    b.set_transparent_color_idx(int(&v["tr"]) as u8);
    b
}

pub fn to_img(v: &Value) -> ImageDesc {
    ImageDesc::default()
        .with_left(int(&v["left"]) as u16)
        .with_top(int(&v["top"]) as u16)
        .with_width(int(&v["w"]) as u16)
        .with_height(int(&v["h"]) as u16)
        .with_flags(int(&v["flags"]) as u8)
}

pub fn to_app(v: &Value) -> Application {
    let mut b = Application::default();
    for s in subs(&v["s"]) {
        b.add_app_data(&s);
    }
    b
}

pub fn to_com(v: &Value) -> Comment {
    let mut b = Comment::default();
    for s in subs(&v["s"]) {
        b.add_comment(&s);
    }
    b
}

pub fn to_data(v: &Value) -> ImageData {
    let d = bytes(v);
    let mut b = ImageData::new(d.len());
    b.data_mut().extend_from_slice(&d);
    b
}

pub fn to_block(v: &Value) -> Block {
    match v["k"].as_str().unwrap() {
        "hdr" => to_header(&v["v"]).into(),
        "lsd" => to_lsd(v).into(),
        "gct" => GlobalColorTable::with_colors(&bytes(&v["c"])).into(),
        "lct" => LocalColorTable::with_colors(&bytes(&v["c"])).into(),
        "pt" => {
            let mut b = PlainText::default();
            for s in subs(&v["s"]) {
                b.add_sub_block(&s);
            }
            b.into()
        }
        "gce" => to_gce(v).into(),
        "com" => to_com(v).into(),
        "app" => to_app(v).into(),
        "unk" => {
            let mut b = Unknown::default();
            b.add_sub_block(&bytes(&v["id"]));
            for s in subs(&v["s"]) {
                b.add_sub_block(&s);
            }
            b.into()
        }
        "img" => to_img(v).into(),
        "dat" => to_data(&v["d"]).into(),
        "trl" => Trailer::default().into(),
        k => panic!("harness: unknown block {k:?}"),
    }
}

pub fn to_preamble(v: &Value) -> Preamble {
    Preamble {
        header: to_header(&v["v"]),
        logical_screen_desc: to_lsd(&v["lsd"]),
        global_color_table: v["gct"]
            .get(0)
            .map(|c| GlobalColorTable::with_colors(&bytes(c))),
        loop_count_ext: v["loop"].get(0).map(to_app),
        comments: v["com"].as_array().unwrap().iter().map(to_com).collect(),
    }
}

pub fn to_frame(v: &Value) -> Frame {
    Frame::new(
        v["gce"].get(0).map(to_gce),
        to_img(&v["img"]),
        v["lct"]
            .get(0)
            .map(|c| LocalColorTable::with_colors(&bytes(c))),
        to_data(&v["d"]),
    )
}

//! Packed fields: apply setters, and record all getters after each
use crate::encode::{disposal, step_op};
use crate::item::{bytes, int, opt};
use gift::Step;
use gift::block::*;
use pix::Raster;
use pix::rgb::SRgba8;
use serde_json::{Value, json};

fn config(v: &Value) -> ColorTableConfig {
    let ex = if v[0] == 1 {
        ColorTableExistence::Present
    } else {
        ColorTableExistence::Absent
    };
    let ord = if v[1] == 1 {
        ColorTableOrdering::Sorted
    } else {
        ColorTableOrdering::NotSorted
    };
    ColorTableConfig::new(ex, ord, int(&v[2]) as u16)
}

fn show_config(c: ColorTableConfig) -> Value {
    json!([
        (c.existence() == ColorTableExistence::Present) as u8,
        (c.ordering() == ColorTableOrdering::Sorted) as u8,
        c.len(),
        c.size_bytes(),
        c.is_empty() as u8
    ])
}

fn wrap(c: ColorTableConfig) -> Value {
    json!({"k": "cfg", "c": show_config(c)})
}

fn show_disposal(d: DisposalMethod) -> &'static str {
    match d {
        DisposalMethod::NoAction => "none",
        DisposalMethod::Keep => "keep",
        DisposalMethod::Background => "bg",
        DisposalMethod::Previous => "prev",
        DisposalMethod::Reserved(_) => "res",
    }
}

fn show_lsd(b: LogicalScreenDesc) -> Value {
    json!({"k": "lsd", "w": b.screen_width(), "h": b.screen_height(),
        "flags": b.flags(), "bg": b.background_color_idx(),
        "ar": b.pixel_aspect_ratio(), "res": b.color_resolution(),
        "cfg": show_config(b.color_table_config())})
}

fn show_img(b: ImageDesc) -> Value {
    json!({"k": "img", "left": b.left(), "top": b.top(), "w": b.width(),
        "h": b.height(), "flags": b.flags(),
        "il": b.interlaced() as u8,
        // TLC has 32 bit integers
        "sz": [b.image_sz() >> 16, b.image_sz() & 0xFFFF],
        "cfg": show_config(b.color_table_config())})
}

fn show_gce(b: GraphicControl) -> Value {
    json!({"k": "gce", "flags": b.flags(), "delay": b.delay_time_cs(),
        "idx": b.transparent_color_idx(),
        "trn": opt(b.transparent_color(), |t| json!(t)),
        "ui": b.user_input() as u8,
        "disp": show_disposal(b.disposal_method()),
        "dnum": u8::from(b.disposal_method())})
}

fn show_app(b: &Application) -> Value {
    json!({"k": "app", "s": b.app_data(),
        "loop": opt(b.loop_count(), |n| json!(n))})
}

fn show_step(s: &Step) -> Value {
    json!({"k": "set", "delay": s.delay_time_cs().unwrap_or(0),
        "trn": opt(s.transparent_color(), |n| json!(n))})
}

pub fn run(scn: &Value) -> Value {
    let calls = scn["calls"].as_array().unwrap();
    let mut obs = vec![];
    match scn["type"].as_str().unwrap() {
        "lsd" => {
            let mut b = LogicalScreenDesc::default();
            obs.push(show_lsd(b));
            for c in calls {
                let v = &c[1];
                b = match c[0].as_str().unwrap() {
                    "w" => b.with_screen_width(int(v) as u16),
                    "h" => b.with_screen_height(int(v) as u16),
                    "flags" => b.with_flags(int(v) as u8),
                    "bg" => b.with_background_color_idx(int(v) as u8),
                    "ar" => b.with_pixel_aspect_ratio(int(v) as u8),
                    "cfg" => b.with_color_table_config(config(v)),
                    "copycfg" => {
                        let c = LogicalScreenDesc::default()
                            .with_flags(int(v) as u8)
                            .color_table_config();
                        b.with_color_table_config(c)
                    }
                    k => panic!("harness: unknown setter {k:?}"),
                };
                obs.push(show_lsd(b));
            }
        }
        "img" => {
            let mut b = ImageDesc::default();
            obs.push(show_img(b));
            for c in calls {
                let v = &c[1];
                b = match c[0].as_str().unwrap() {
                    "left" => b.with_left(int(v) as u16),
                    "top" => b.with_top(int(v) as u16),
                    "w" => b.with_width(int(v) as u16),
                    "h" => b.with_height(int(v) as u16),
                    "flags" => b.with_flags(int(v) as u8),
                    "il" => b.with_interlaced(int(v) == 1),
                    "cfg" => b.with_color_table_config(config(v)),
                    "copycfg" => {
                        let c = ImageDesc::default()
                            .with_flags(int(v) as u8)
                            .color_table_config();
                        b.with_color_table_config(c)
                    }
                    k => panic!("harness: unknown setter {k:?}"),
                };
                obs.push(show_img(b));
            }
        }
        "gce" => {
            let mut b = GraphicControl::default();
            obs.push(show_gce(b));
            for c in calls {
                let v = &c[1];
                match c[0].as_str().unwrap() {
                    "flags" => b.set_flags(int(v) as u8),
                    "disp" => b.set_disposal_method(disposal(int(v) as u8)),
                    "dispnum" => b.set_disposal_method(DisposalMethod::from(
                        int(v) as u8,
                    )),
                    "ui" => b.set_user_input(int(v) == 1),
                    "delay" => b.set_delay_time_cs(int(v) as u16),
                    "idx" => b.set_transparent_color_idx(int(v) as u8),
                    "tr" => {
                        b.set_transparent_color(v.get(0).map(|n| int(n) as u8))
                    }
                    k => panic!("harness: unknown setter {k:?}"),
                }
                obs.push(show_gce(b));
            }
        }
        "cfg" => {
            obs.push(wrap(ColorTableConfig::default()));
            for c in calls {
                obs.push(wrap(config(c)));
            }
        }
        "app" => {
            let mut b = match scn["loop"].get(0) {
                Some(n) => Application::with_loop_count(int(n) as u16),
                None => Application::default(),
            };
            obs.push(show_app(&b));
            for c in calls {
                b.add_app_data(&bytes(c));
                obs.push(show_app(&b));
            }
        }
        "tables" => {
            let none = Value::Array(vec![]);
            obs.push(json!({"k": "tbl", "g": none, "gl": 0, "ge": 1,
                "l": none, "ll": 0, "le": 1}));
            for c in calls {
                let c = bytes(c);
                let g = GlobalColorTable::with_colors(&c);
                let l = LocalColorTable::with_colors(&c);
                obs.push(json!({"k": "tbl", "g": g.colors(), "gl": g.len(),
                    "ge": g.is_empty() as u8, "l": l.colors(), "ll": l.len(),
                    "le": l.is_empty() as u8}));
            }
        }
        "step" => {
            let r = Raster::<SRgba8>::with_clear(1, 1);
            let mut s = Step::with_true_color(r);
            obs.push(show_step(&s));
            for c in calls {
                s = step_op(s, c);
                obs.push(show_step(&s));
            }
        }
        t => panic!("harness: unknown type {t:?}"),
    }
    json!({"k": "fields", "obs": obs})
}

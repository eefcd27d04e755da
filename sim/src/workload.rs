//! What the simulated users do: building drawings, saving them, loading them.
use crate::choice::{below, below_usize, chance, pick};
use crate::engine::{lib, Check};
use crate::gen::{self, Flavor};
use dxf::enums::AcadVersion;
use dxf::{Drawing, DxfResult};
use serde_json::Value;
use std::io::{Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Format {
    Text,
    Binary,
    Dxb,
}
pub const FORMATS: &[Format] = &[Format::Text, Format::Binary, Format::Dxb];
pub fn gen_format() -> Format {
    match below(8) {
        0..=3 => Format::Text,
        4..=6 => Format::Binary,
        _ => Format::Dxb,
    }
}
pub fn save(d: &Drawing, f: Format, w: &mut dyn Write) -> DxfResult<()> {
    match f {
        Format::Text => d.save(w),
        Format::Binary => d.save_binary(w),
        Format::Dxb => d.save_dxb(w),
    }
}
pub fn save_file(d: &Drawing, f: Format, p: &str) -> DxfResult<()> {
    match f {
        Format::Text => d.save_file(p),
        Format::Binary => d.save_file_binary(p),
        Format::Dxb => d.save_file_dxb(p),
    }
}
pub fn save_vec(d: &Drawing, f: Format) -> Check<DxfResult<Vec<u8>>> {
    lib("save", || {
        let mut v = vec![];
        save(d, f, &mut v).map(|_| v)
    })
}
pub fn load_slice(b: &[u8]) -> Check<DxfResult<Drawing>> {
    lib("load", || {
        let mut c = std::io::Cursor::new(b);
        Drawing::load(&mut c)
    })
}
pub fn load_from(r: &mut dyn Read) -> Check<DxfResult<Drawing>> {
    lib("load", || Drawing::load(r))
}

/// Everything observable about a drawing.
pub fn snapshot(d: &Drawing) -> Value {
    let mut v = serde_json::to_value(d).expect("SIMULATOR: a drawing does not serialise");
    let t = match &d.thumbnail {
        Some(t) => {
            let t = t.to_rgba8();
            serde_json::json!({"w": t.width(), "h": t.height(), "px": t.as_raw()})
        }
        None => Value::Null,
    };
    v["thumbnail"] = t;
    v
}
pub fn canonical(d: &Drawing) -> String {
    // serde_json writes non-finite numbers as null, so the Debug form is compared too
    format!("{}\n{:?}", snapshot(d), d.header)
}

pub fn gen_version() -> AcadVersion {
    // mostly the versions with an object model, sometimes any
    if chance(1, 5) {
        pick(gen::VERSIONS)
    } else {
        pick(&gen::VERSIONS[..11])
    }
}
#[derive(Clone, Copy)]
pub struct Shape {
    pub flavor: Flavor,
    pub max_items: u64,
}
pub fn gen_thumbnail(d: &mut Drawing) {
    let (w, h) = (1 + below(6) as u32, 1 + below(6) as u32);
    let mut img = image::RgbImage::new(w, h);
    for p in img.pixels_mut() {
        *p = image::Rgb([below(256) as u8, below(256) as u8, below(256) as u8]);
    }
    d.thumbnail = Some(image::DynamicImage::ImageRgb8(img));
}
pub fn gen_header(d: &mut Drawing, flavor: Flavor, density: u64) {
    let keep = d.header.next_available_handle;
    let v = d.header.version;
    let h: dxf::Header = gen::near(&d.header, flavor, density);
    d.header = h;
    d.header.version = v;
    d.header.next_available_handle = keep;
}
/// A drawing built through the public API; swarm style, every run enables its own subset of features.
pub fn gen_drawing(sh: Shape) -> Drawing {
    let mut d = Drawing::new();
    if chance(1, 4) {
        d.clear();
    }
    d.header.version = gen_version();
    if d.header.version < AcadVersion::R13 {
        d.header.handles_enabled = chance(1, 2);
    }
    let density = pick(&[40u64, 100, 200]);
    if chance(1, 3) {
        gen_header(&mut d, sh.flavor, pick(&[20u64, 100]));
    }
    // a run concentrates on a few kinds
    let nk = 1 + below_usize(3);
    let ek: Vec<usize> = (0..nk).map(|_| below_usize(gen::ENTITY_KINDS.len())).collect();
    let ok: Vec<usize> = (0..nk).map(|_| below_usize(gen::OBJECT_KINDS.len())).collect();
    let n = below(sh.max_items + 1);
    for i in 0..n {
        match below(8) {
            0..=3 => gen::add_entity(&mut d, ek[below_usize(ek.len())], sh.flavor, density),
            4 | 5 => {
                let o = gen::object(ok[below_usize(ok.len())], sh.flavor, density);
                d.add_object(o);
            }
            6 => {
                let k = below_usize(gen::TABLE_KINDS.len());
                gen::add_table_item(&mut d, k, sh.flavor, density, &format!("N{}", i));
            }
            _ => {
                let b = gen::block(sh.flavor, density);
                d.add_block(b);
            }
        }
    }
    if chance(1, 6) {
        gen_thumbnail(&mut d);
    }
    if chance(1, 6) {
        for _ in 0..1 + below(3) {
            d.classes.push(gen::arbitrary(sh.flavor));
        }
    }
    if chance(1, 4) {
        d.normalize();
    }
    d
}
pub fn build(sh: Shape) -> Check<Drawing> {
    lib("building a drawing", || gen_drawing(sh))
}

//! C17, C18: the DXB format, and text in legacy code pages.
use crate::choice::{below, chance, pick, range};
use crate::engine::{bad, lib, nontrivial, note, probe, Check};
use crate::ensure;
use crate::gen::{self, Flavor};
use crate::io::{ReadPlan, SimReader};
use crate::s_round::store;
use crate::sched::fresh;
use crate::seam::{event, fault, world, Fault};
use crate::workload::*;
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::{Block, Color, Drawing, Point};

fn coord() -> f64 {
    match below(6) {
        0 => 0.0,
        1 => below(1000) as f64,
        2 => -(below(100_000) as f64) / 64.0,
        3 => 0.1,
        4 => pick(&[1.0e20, -1.0e-12, 123456.789, 1.0e-30, 16777217.0]),
        _ => below(1 << 20) as f64 / 1024.0,
    }
}
fn pt() -> Point {
    Point::new(coord(), coord(), coord())
}
/// What DXB keeps of a point in the plane, and of one in space.
fn p2(p: &Point) -> String {
    format!("({:?} {:?})", p.x as f32, p.y as f32)
}
fn p3(p: &Point) -> String {
    format!("({:?} {:?} {:?})", p.x as f32, p.y as f32, p.z as f32)
}
/// What DXB keeps of an entity: nothing of most kinds.
fn dxb_view(e: &Entity) -> Option<String> {
    let s = match &e.specific {
        EntityType::Arc(a) => format!("Arc {} {:?} {:?} {:?}", p2(&a.center), a.radius as f32, a.start_angle as f32, a.end_angle as f32),
        EntityType::Circle(c) => format!("Circle {} {:?}", p2(&c.center), c.radius as f32),
        EntityType::Face3D(f) => format!("Face3D {} {} {} {}", p3(&f.first_corner), p3(&f.second_corner), p3(&f.third_corner), p3(&f.fourth_corner)),
        EntityType::Line(l) => format!("Line {} {}", p3(&l.p1), p3(&l.p2)),
        EntityType::ModelPoint(p) => format!("Point {}", p2(&p.location)),
        EntityType::Polyline(p) => format!("Polyline {} {}", p.is_closed(), p.vertices().map(|v| p2(&v.location)).collect::<Vec<_>>().join(" ")),
        EntityType::Solid(f) => format!("Solid {} {} {} {}", p2(&f.first_corner), p2(&f.second_corner), p2(&f.third_corner), p2(&f.fourth_corner)),
        EntityType::Trace(f) => format!("Trace {} {} {} {}", p2(&f.first_corner), p2(&f.second_corner), p2(&f.third_corner), p2(&f.fourth_corner)),
        _ => return None,
    };
    Some(format!("{} in {:?}", s, e.common.color))
}
/// The layer of an entity, if DXB can hold its name: a name of other than single bytes is stored in some other way.
fn dxb_layer(e: &Entity) -> Option<String> {
    let l = &e.common.layer;
    l.chars().all(|c| (1..=255).contains(&(c as u32))).then(|| l.clone())
}
fn dxb_views<'a>(v: impl Iterator<Item = &'a Entity>) -> Vec<(String, Option<String>)> {
    v.filter_map(|e| Some((dxb_view(e)?, dxb_layer(e)))).collect()
}
fn dxb_entity(d: &mut Drawing, flavor: Flavor) -> Entity {
    let mut e = Entity::new(match below(10) {
        0 => EntityType::Arc(Arc::new(pt(), coord(), coord(), coord())),
        1 => EntityType::Circle(Circle::new(pt(), coord())),
        2 => EntityType::Face3D(Face3D::new(pt(), pt(), pt(), pt())),
        3 | 4 => EntityType::Line(Line::new(pt(), pt())),
        5 => EntityType::ModelPoint(ModelPoint::new(pt())),
        6 => {
            let mut p = Polyline::default();
            p.set_is_closed(chance(1, 2));
            for _ in 0..below(5) {
                p.add_vertex(d, Vertex::new(pt()));
            }
            EntityType::Polyline(p)
        }
        7 => EntityType::Solid(Solid::new(pt(), pt(), pt(), pt())),
        8 => EntityType::Trace(Trace::new(pt(), pt(), pt(), pt())),
        _ => {
            // kinds the format has no place for
            let n = pick(&["Text", "Ellipse", "MText", "Light", "Spline", "Ray"]);
            let k = gen::ENTITY_KINDS.iter().position(|x| x.0 == n).unwrap();
            gen::entity(k, flavor, 128).specific
        }
    });
    e.common.layer = pick(&["0", "A", "walls", "caf\u{e9}", "layer with spaces", "", "x\u{ff}", "\u{80}\u{85}\u{9f}", "\u{1}\u{7f}\t", "a layer whose name is longer than what one would expect of the name of a layer, in fact longer than a hundred and twenty eight characters, which is a limit", "\u{100}a", "a\0b", "\u{4e00}\u{1f600}"]).to_string();
    e.common.color = match below(5) {
        0 => Color::by_block(),
        1 => Color::by_entity(),
        2 => Color::by_layer(),
        _ => Color::from_index(pick(&[1u8, 7, 255, 42, 128])),
    };
    e
}
/// A drawing of things that DXB can hold.
pub fn dxb_drawing() -> Check<Drawing> {
    let flavor = Flavor::Plain;
    let mut d = lib("building a drawing", || {
        let mut d = Drawing::new();
        d.header.version = gen_version();
        d
    })?;
    let mode = below(5); // 0: one block; 1: blocks and entities; else entities
    if mode <= 1 {
        lib("add_block", || {
            for i in 0..if mode == 0 { 1 } else { range(1, 2) } {
                let mut b = Block { name: format!("B{}", i), base_point: pt(), ..Default::default() };
                b.entities = (0..below(8)).map(|_| dxb_entity(&mut d, flavor)).collect();
                d.add_block(b);
            }
        })?;
    }
    if mode != 0 {
        lib("add_entity", || {
            for _ in 0..below(12) {
                let e = dxb_entity(&mut d, flavor);
                d.add_entity(e);
            }
        })?;
    }
    Ok(d)
}
/// C17: what DXB can hold survives in it.
pub fn c17() -> Check {
    let mut d = dxb_drawing()?;
    let mut f = Format::Dxb;
    for hop in 0..1 + below(3) {
        let is_block = d.entities().count() == 0 && d.blocks().count() > 0;
        let want = if is_block { dxb_views(d.blocks().next().unwrap().entities.iter()) } else { dxb_views(d.entities()) };
        let base = if is_block { p2(&d.blocks().next().unwrap().base_point) } else { String::new() };
        note(|| format!("hop {}: {:?}: {}{}", hop, f, if is_block { "block " } else { "" }, want.iter().map(|w| w.0.clone()).collect::<Vec<_>>().join(", ")));
        event(b'x', want.len() as u64, hop);
        let p = "/dxfsim/drawing.dxb";
        store(&d, f, p)?;
        fault(Fault::Restart);
        nontrivial();
        let l = match fresh(|| lib("load_file", || Drawing::load_file(p)))? {
            Ok(l) => l,
            Err(e) => return bad("refused", format!("{:?}: {}: {:?}", f, e, want)),
        };
        if f == Format::Dxb {
            if is_block {
                ensure!(l.blocks().count() == 1 && l.entities().count() == 0, "block lost", "{} blocks and {} entities", l.blocks().count(), l.entities().count());
                let got = p2(&l.blocks().next().unwrap().base_point);
                ensure!(got == base, "base point", "saved {}, loaded {}", base, got);
            } else {
                ensure!(l.blocks().count() == 0, "block from nowhere", "{} blocks", l.blocks().count());
            }
        }
        let got = if is_block { l.blocks().next().map(|b| dxb_views(b.entities.iter())).unwrap_or_default() } else { dxb_views(l.entities()) };
        for i in 0..want.len().max(got.len()) {
            let (a, b) = (want.get(i), got.get(i));
            let same = match (a, b) {
                (Some(a), Some(b)) => a.0 == b.0 && (a.1.is_none() || a.1 == b.1),
                _ => false,
            };
            if !same {
                let kind = a.or(b).unwrap().0.split(' ').next().unwrap().to_string();
                return bad(format!("lost {}", kind), format!("{:?}: entity {}: saved {:?}, loaded {:?}", f, i, a, b));
            }
        }
        // on to another format and back, with something new
        d = l;
        lib("editing", || {
            if !is_block && chance(1, 2) {
                let e = dxb_entity(&mut d, Flavor::Plain);
                d.add_entity(e);
            }
        })?;
        f = if f == Format::Dxb && chance(1, 3) { Format::Binary } else { Format::Dxb };
        d.header.version = AcadVersion::R2018;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
/// C18: text in the code page it was loaded with.
pub fn c18() -> Check {
    let (enc, chars): (&'static encoding_rs::Encoding, &[&str]) = pick(&[
        (encoding_rs::WINDOWS_1252, &["\u{e9}", "\u{20ac}", "\u{ff}\u{fe}", "\u{ef}\u{bb}\u{bf}", "\u{fe}\u{ff}", "\u{a0}", "\u{152}"] as &[&str]),
        (encoding_rs::WINDOWS_1251, &["\u{436}", "\u{410}", "\u{44f}", "\u{44e}\u{44f}", "\u{2116}"]),
        (encoding_rs::WINDOWS_1250, &["\u{159}", "\u{11b}", "\u{17d}", "\u{df}"]),
        (encoding_rs::SHIFT_JIS, &["\u{8868}", "\u{30bd}", "\u{80fd}", "\u{ff71}", "\u{4e16}"]),
        (encoding_rs::GBK, &["\u{4e2d}", "\u{6587}", "\u{4e00}", "\u{9aa8}", "\u{2014}"]),
        (encoding_rs::BIG5, &["\u{529f}", "\u{8a31}", "\u{84cb}", "\u{4e2d}"]),
        (encoding_rs::EUC_KR, &["\u{ac00}", "\u{d55c}", "\u{ae00}", "\u{c5b4}"]),
        (encoding_rs::UTF_8, &["\u{e9}", "\u{feff}", "\u{4e16}", "\u{1f600}"]),
    ]);
    let text = || {
        let mut s = String::new();
        for _ in 0..1 + below(6) {
            s.push_str(if chance(2, 3) { pick(chars) } else { pick(&["a", "Z", "7", " ", "-", "_", "(", ";"]) });
        }
        s
    };
    let n = range(1, 6) as usize;
    let texts: Vec<String> = (0..n).map(|_| text()).collect();
    let version = pick(gen::VERSIONS);
    // the file of another program: ours, with the text put in as that program would
    let mut d = lib("building a drawing", Drawing::new)?;
    d.header.version = version;
    lib("add_entity", || {
        for i in 0..n {
            let mut e = Entity::new(EntityType::Text(Text { value: format!("@@{}@@", i), ..Default::default() }));
            e.common.layer = format!("@@{}@@", i);
            d.add_entity(e);
        }
    })?;
    let Ok(b) = save_vec(&d, Format::Text)? else { return Ok(()) };
    let utf8 = version >= AcadVersion::R2007;
    let mut file = vec![];
    let mut rest = &b[..];
    while let Some(i) = rest.windows(2).position(|w| w == b"@@") {
        file.extend_from_slice(&rest[..i]);
        let k = (rest[i + 2] - b'0') as usize;
        if utf8 {
            file.extend_from_slice(texts[k].as_bytes());
        } else {
            let (bytes, _, lossy) = enc.encode(&texts[k]);
            if lossy {
                probe("text without a form in the code page");
                return Ok(());
            }
            file.extend_from_slice(&bytes);
        }
        rest = &rest[i + 5..];
    }
    file.extend_from_slice(rest);
    note(|| format!("{} {:?}: {:?}", enc.name(), version, texts));
    event(b'e', file.len() as u64, n as u64);
    let l = match below(3) {
        0 => {
            let mut r = SimReader::new(&file, ReadPlan::gen(file.len()));
            lib("load_with_encoding", || Drawing::load_with_encoding(&mut r, enc))?
        }
        1 => {
            world().disk.put("/dxfsim/in.dxf", file.clone());
            world().disk.set_plan(crate::s_round::gen_disk());
            lib("load_file_with_encoding", || Drawing::load_file_with_encoding("/dxfsim/in.dxf", enc))?
        }
        _ => lib("load_with_encoding", || Drawing::load_with_encoding(&mut &file[..], enc))?,
    };
    nontrivial();
    let l = match l {
        Ok(l) => l,
        Err(e) => return bad("refused", format!("{} {:?} {:?}: {}", enc.name(), version, texts, e)),
    };
    ensure!(l.entities().count() == n, "entities lost", "{} of {}", l.entities().count(), n);
    for (i, e) in l.entities().enumerate() {
        let EntityType::Text(t) = &e.specific else { return bad("another kind", format!("{:?}", e.specific)) };
        ensure!(t.value == texts[i], "text changed", "{} {:?}: the file says {:?}, loaded {:?}", enc.name(), version, texts[i], t.value);
        ensure!(e.common.layer == texts[i], "layer name changed", "{} {:?}: the file says {:?}, loaded {:?}", enc.name(), version, texts[i], e.common.layer);
        ensure!(l.layers().any(|x| x.name == texts[i]), "no such layer", "{} {:?}: {:?}", enc.name(), version, texts[i]);
    }
    Ok(())
}

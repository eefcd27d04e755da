//! C20: normalizing makes values valid, and leaves everything that is valid alone.
use crate::choice::{below, chance, pick, range};
use crate::engine::{lib, nontrivial, note, Check};
use crate::ensure;
use crate::gen::{self, Flavor};
use crate::sched::fresh;
use crate::seam::{event, fault, Fault};
use crate::workload::*;
use dxf::entities::Entity;
use dxf::objects::Object;
use dxf::tables::*;
use dxf::{Block, Color, Drawing, Header};
use std::collections::BTreeMap;
use std::fmt::Debug;

fn num() -> f64 {
    match below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => -1.0,
        3 => f64::NAN,
        4 => f64::INFINITY,
        5 => f64::NEG_INFINITY,
        6 => f64::MIN_POSITIVE / 4.0,
        7 => -f64::MIN_POSITIVE,
        8 => -1e300,
        9 => 0.5,
        10 => below(1000) as f64 - 500.0,
        _ => below(100) as f64 + 0.25,
    }
}
fn whole() -> i32 {
    pick(&[0, -1, 1, 2, i32::MIN, i32::MAX, 1000, 3, -7])
}
fn name(keep: &str) -> String {
    if chance(1, 2) {
        String::new()
    } else {
        pick(&["0", "STANDARD", ".", " ", "BYLAYER", keep]).to_string()
    }
}
// the reference model: what is valid, and what takes the place of what is not
fn pos(x: &mut f64, d: f64) {
    if x.is_nan() {
        return;
    }
    if *x <= 0.0 {
        *x = d;
    }
}
fn filled(s: &mut String, d: &str) {
    if s.is_empty() {
        s.push_str(d);
    }
}
fn valid_header(mut h: Header) -> Header {
    pos(&mut h.default_text_height, 0.2);
    pos(&mut h.trace_width, 0.05);
    filled(&mut h.text_style, "STANDARD");
    filled(&mut h.current_layer, "0");
    filled(&mut h.current_entity_line_type, "BYLAYER");
    filled(&mut h.dimension_style_name, "STANDARD");
    filled(&mut h.file_name, ".");
    h
}
fn valid_layer(mut l: Layer) -> Layer {
    filled(&mut l.line_type_name, "CONTINUOUS");
    if l.color == Color::by_layer() || l.color == Color::by_block() {
        l.color = Color::from_index(7);
    }
    l
}
fn valid_style(mut s: Style) -> Style {
    pos(&mut s.text_height, 0.0);
    pos(&mut s.width_factor, 1.0);
    s
}
fn valid_view(mut v: View) -> View {
    pos(&mut v.view_height, 1.0);
    pos(&mut v.view_width, 1.0);
    pos(&mut v.lens_length, 1.0);
    v
}
fn valid_view_port(mut v: ViewPort) -> ViewPort {
    for x in [&mut v.snap_spacing, &mut v.grid_spacing] {
        pos(&mut x.x, 1.0);
        pos(&mut x.y, 1.0);
        pos(&mut x.z, 1.0);
    }
    pos(&mut v.view_height, 1.0);
    pos(&mut v.view_port_aspect_ratio, 1.0);
    pos(&mut v.lens_length, 50.0);
    if v.ucs_icon <= 0 {
        v.ucs_icon = 3;
    }
    if v.circle_sides <= 0 {
        v.circle_sides = 1000;
    }
    v
}
fn valid_block(mut b: Block) -> Block {
    filled(&mut b.layer, "0");
    b
}
fn valid_entity(mut e: Entity) -> Entity {
    filled(&mut e.common.layer, "0");
    e
}

type Items = BTreeMap<(&'static str, u64), String>;
fn put<T: Debug>(m: &mut Items, what: &'static str, h: u64, x: T) {
    m.insert((what, h), format!("{:?}", x));
}
/// Every item of the drawing by its handle, either as it is or as it should be.
fn items(d: &Drawing, valid: bool) -> Items {
    let _q = crate::seam::Quiet::new();
    let mut m = Items::new();
    macro_rules! all {
        ($what:literal, $iter:ident, $fix:expr) => {
            for x in d.$iter() {
                let x = x.clone();
                let h = x.handle.0;
                put(&mut m, $what, h, if valid { $fix(x) } else { x });
            }
        };
    }
    let same_app = |x: AppId| x;
    all!("application id", app_ids, same_app);
    let same_rec = |x: BlockRecord| x;
    all!("block record", block_records, same_rec);
    let same_dim = |x: DimStyle| x;
    all!("dimension style", dim_styles, same_dim);
    let same_lt = |x: LineType| x;
    all!("line type", line_types, same_lt);
    let same_ucs = |x: Ucs| x;
    all!("coordinate system", ucss, same_ucs);
    all!("layer", layers, valid_layer);
    all!("text style", styles, valid_style);
    all!("view", views, valid_view);
    all!("view port", view_ports, valid_view_port);
    all!("block", blocks, valid_block);
    for e in d.entities() {
        let (h, e) = (e.common.handle.0, e.clone());
        put(&mut m, "entity", h, if valid { valid_entity(e) } else { e });
    }
    for o in d.objects() {
        put(&mut m, "object", o.common.handle.0, o);
    }
    m
}
fn header(d: &Drawing, valid: bool) -> Vec<String> {
    let _q = crate::seam::Quiet::new();
    let mut h = d.header.clone();
    h.next_available_handle = dxf::Handle(0); // what is missing is added
    let h = if valid { valid_header(h) } else { h };
    format!("{:#?}", h).lines().map(|s| s.to_string()).collect()
}
fn spoil(d: &mut Drawing) {
    macro_rules! some {
        ($n:literal, $($x:expr => $v:expr),* $(,)?) => { $( if chance(1, $n) { $x = $v; } )* };
    }
    some!(3, d.header.default_text_height => num(), d.header.trace_width => num(), d.header.text_style => name("s"), d.header.current_layer => name("l"),
        d.header.current_entity_line_type => name("t"), d.header.dimension_style_name => name("d"), d.header.file_name => name("f"), d.header.ucs_name => name("u"));
    for l in d.layers_mut() {
        some!(3, l.line_type_name => name("t"), l.color => pick(&[Color::by_layer, Color::by_block, Color::by_entity, || Color::from_index(7), || Color::from_index(1), || Color::from_index(255)] as &[fn() -> Color])());
        if chance(1, 5) {
            l.color.turn_off();
        }
    }
    for s in d.styles_mut() {
        some!(3, s.text_height => num(), s.width_factor => num());
    }
    for v in d.views_mut() {
        some!(3, v.view_height => num(), v.view_width => num(), v.lens_length => num());
    }
    for v in d.view_ports_mut() {
        some!(3, v.snap_spacing.x => num(), v.snap_spacing.y => num(), v.snap_spacing.z => num(), v.grid_spacing.x => num(), v.grid_spacing.y => num(), v.grid_spacing.z => num(),
            v.view_height => num(), v.view_port_aspect_ratio => num(), v.lens_length => num(), v.ucs_icon => whole() as i16, v.circle_sides => whole());
    }
    for b in d.blocks_mut() {
        some!(3, b.layer => name("b"));
    }
    for e in d.entities_mut() {
        some!(3, e.common.layer => name("e"));
    }
}
/// The order of what is not kept in order of name.
fn order(d: &Drawing) -> (Vec<u64>, Vec<u64>, Vec<u64>) {
    (d.entities().map(|e| e.common.handle.0).collect(), d.objects().map(|o: &Object| o.common.handle.0).collect(), d.blocks().map(|b| b.handle.0).collect())
}
/// C20: a history of edits, additions, normalizations, saves and loads.
pub fn c20() -> Check {
    let flavor = pick(&[Flavor::Plain, Flavor::Text]);
    let mut d = build(Shape { flavor, max_items: 6 })?;
    let density = pick(&[20u64, 100, 200]);
    for i in 0..range(1, 6) {
        if chance(2, 3) {
            note(|| "set values through the iterators".into());
            lib("setting values", || spoil(&mut d))?;
        }
        match below(6) {
            0 | 1 => {
                note(|| "add a table item".into());
                let k = below(gen::TABLE_KINDS.len() as u64) as usize;
                lib("add", || gen::add_table_item(&mut d, k, flavor, density, &format!("X{}", i)))?;
            }
            2 => {
                note(|| "save and load".into());
                d.header.version = gen_version();
                let f = pick(&[Format::Text, Format::Binary]);
                let Ok(b) = save_vec(&d, f)? else { return Ok(()) };
                let restart = chance(1, 2);
                let l = if restart {
                    fault(Fault::Restart);
                    fresh(|| load_slice(&b))?
                } else {
                    load_slice(&b)?
                };
                let Ok(l) = l else { return Ok(()) };
                d = l;
                if chance(1, 2) {
                    continue;
                }
            }
            _ => (),
        }
        let (want_h, want, seq, thumb) = (header(&d, true), items(&d, true), order(&d), snapshot(&d)["thumbnail"].clone());
        let was = items(&d, false);
        let changed = want.iter().filter(|(k, v)| was.get(k) != Some(v)).count();
        note(|| format!("normalize: {} items have values to put right", changed));
        lib("normalize", || d.normalize())?;
        if changed > 0 {
            nontrivial();
        }
        let (got_h, got, seq2) = (header(&d, false), items(&d, false), order(&d));
        for (a, b) in want_h.iter().zip(got_h.iter()) {
            ensure!(a == b, "normalized header", "normalizing left the header with {} where it should be {}", b.trim(), a.trim());
        }
        for (k, v) in &want {
            match got.get(k) {
                Some(w) => ensure!(v == w, format!("normalized {}", k.0), "normalizing a {}: {}", k.0, crate::s_io::diff_text(v, w)),
                None => ensure!(false, format!("normalizing removed a {}", k.0), "the {} with the handle {:X} is gone: {}", k.0, k.1, v),
            }
        }
        // what it adds is valid too (a view port it adds has no spacing in z until the next time)
        let again = items(&d, true);
        for (k, v) in got.iter().filter(|x| x.0.0 != "view port") {
            ensure!(again.get(k) == Some(v), format!("added {}", k.0), "normalizing added a {} that is not valid: {}", k.0, crate::s_io::diff_text(&again[k], v));
        }
        ensure!(seq2.0 == seq.0 && seq2.2 == seq.2 && seq2.1.starts_with(&seq.1), "normalizing reordered", "{:?} became {:?}", seq, seq2);
        ensure!(snapshot(&d)["thumbnail"] == thumb, "normalizing changed the thumbnail", "the thumbnail is another one");
        event(b'v', changed as u64, got.len() as u64);
    }
    Ok(())
}

//! C08, C11, C12, C15, C16: histories of edits, saves, restarts and loads, judged against a model.
use crate::choice::{below, below_usize, chance, pick, range};
use crate::engine::{bad, lib, nontrivial, note, probe, Check};
use crate::ensure;
use crate::gen::{self, Flavor};
use crate::s_round::{self, cell, golden, kind_name};
use crate::sched::fresh;
use crate::seam::{event, fault, world, Fault};
use crate::workload::*;
use dxf::tables::*;
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::objects::*;
use dxf::{Block, Drawing, DrawingItem, DrawingItemMut, Handle};
use std::collections::{BTreeMap, BTreeSet};

/// A file without its handle seed, which may grow with every load (an insert without attributes gets a handle for
/// the end of its attributes that no file mentions). Before R13 the handles of blocks are left out as well: such
/// files name them only at the end of a block, where they are not read.
fn without_seed(a: &[u8], f: Format, v: AcadVersion) -> Vec<u8> {
    if v >= AcadVersion::R13 {
        strip(a, f, "\0\u{5}\0", &["$HANDSEED"])
    } else {
        strip(a, f, "\0\u{5}", &["$HANDSEED", "ENDBLK"])
    }
}
/// Objects several fields of which share a code (known_findings.json): they take some cycles to settle.
const CLASHING: &[&str] = &["O:MentalRayRenderSettings", "O:RapidRTRenderEnvironment", "O:RapidRenderSettings", "O:RenderEnvironment", "O:RenderGlobal", "O:NavisWorksModelDefinition"];
fn strip(a: &[u8], f: Format, sep: &str, names: &[&str]) -> Vec<u8> {
    let mut a = a.to_vec();
    for name in names {
        let mark = format!("{}{}", name, if f == Format::Text { "\r\n  5\r\n" } else { sep });
        let end = if f == Format::Text { b'\r' } else { 0 };
        let mut i = 0;
        while let Some(k) = a[i..].windows(mark.len()).position(|w| w == mark.as_bytes()) {
            i += k + mark.len();
            let n = a[i..].iter().position(|c| *c == end).unwrap_or(0);
            a.drain(i..i + n);
        }
    }
    a
}
/// The first lines that differ between two files.
fn line_diff(a: &[u8], b: &[u8]) -> String {
    let lines = |x: &[u8]| -> Vec<String> { String::from_utf8_lossy(x).split("\r\n").map(|s| s.to_string()).collect() };
    let (a, b) = (lines(a), lines(b));
    let mut out = vec![format!("{} <> {} lines", a.len(), b.len())];
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        if x != y && out.len() < 12 {
            out.push(format!("line {}: {:?} <> {:?}", i, x.map(|s| s.chars().take(60).collect::<String>()), y.map(|s| s.chars().take(60).collect::<String>())));
        }
    }
    out.join("\n      ")
}
/// The item of a file that an offset lies in.
fn item_at(a: &[u8], i: usize) -> String {
    let i = i.min(a.len());
    let word = |s: &[u8]| -> String { s.iter().take_while(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || **c == b'_').map(|c| *c as char).collect() };
    for k in (0..i).rev() {
        let w = if a[k..].starts_with(b"\r\n  0\r\n") {
            word(&a[k + 7..])
        } else if a[k..].starts_with(b"\0\0") {
            word(&a[k + 2..])
        } else {
            continue;
        };
        if w.len() > 2 {
            return w;
        }
    }
    String::new()
}
fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}
/// What lies around a difference, as text.
fn around(a: &[u8], i: usize) -> String {
    let lo = i.saturating_sub(60);
    String::from_utf8_lossy(&a[lo..(i + 60).min(a.len())]).replace("\r\n", "|")
}

// ---------------------------------------------------------------------------------------------------
/// C11: a saved file that is loaded and saved again, and again, settles at once.
pub fn c11() -> Check {
    gen::LONG_BYTES.store(true, std::sync::atomic::Ordering::Relaxed);
    let sh = crate::workload::Shape { flavor: pick(&[Flavor::Plain, Flavor::Text, Flavor::Wild]), max_items: pick(&[1u64, 3, 8]) };
    let d = build(sh)?;
    let f = gen_format();
    note(|| format!("drawing: version {:?}, format {:?}", d.header.version, f));
    let kinds: Vec<String> = {
        let _q = crate::seam::Quiet::new();
        handles(&d).into_iter().map(|h| h.0).filter(|h| !h.starts_with("T:")).collect()
    };
    note(|| kinds.join(" "));
    let Ok(mut prev) = save_vec(&d, f)? else {
        probe("undisturbed save refused");
        return Ok(());
    };
    let cycles = 2 + below(3);
    for i in 0..cycles {
        let restart = chance(1, 2);
        // each cycle may run in a new process, at another time
        if chance(1, 2) {
            fault(Fault::ClockJump);
            world().now_ns += below(1 << 40) as i128 * 1000;
        }
        let step = || -> Check<Result<Vec<u8>, String>> {
            let l = match load_slice(&prev)? {
                Ok(l) => l,
                Err(e) => return Ok(Err(format!("{:?}", e))),
            };
            save_vec(&l, f).map(|r| r.map_err(|e| format!("{:?}", e)))
        };
        let next = if restart {
            fault(Fault::Restart);
            nontrivial();
            fresh(step)?
        } else {
            step()?
        };
        let next = match next {
            Ok(n) => n,
            Err(e) => {
                if i == 0 {
                    // whether what was saved can be loaded is C10's question
                    probe("saved file refused");
                    return Ok(());
                }
                return bad("cycle refused", format!("cycle {}: {:?} {:?}: {}", i, d.header.version, f, e));
            }
        };
        event(b'c', next.len() as u64, i);
        if i >= 1 {
            let (prev, next) = (without_seed(&prev, f, d.header.version), without_seed(&next, f, d.header.version));
            let k = first_diff(&prev, &next);
            if prev != next {
                note(|| line_diff(&prev, &next));
            }
            ensure!(prev == next, match kinds.iter().find(|k| CLASHING.contains(&k.as_str())) {
                Some(k) => format!("not settled with {}", k),
                None => format!("not settled: {}", item_at(&prev, k)),
            }, "{:?} {:?}: cycle {} turned {} bytes into {}, first difference at {}: {:?} <> {:?}", d.header.version, f, i, prev.len(), next.len(), k, around(&prev, k), around(&next, k));
        }
        prev = next;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
/// Every item of a drawing that has a handle: (what, handle, whether `item_by_handle` is meant to find it).
fn handles(d: &Drawing) -> Vec<(String, u64, bool)> {
    let mut out: Vec<(String, u64, bool)> = vec![];
    macro_rules! table {
        ($($f:ident $n:literal),*) => { $( for x in d.$f() { out.push((concat!("T:", $n).to_string(), x.handle.0, true)); } )* };
    }
    table!(app_ids "AppId", block_records "BlockRecord", dim_styles "DimStyle", layers "Layer", line_types "LineType", styles "Style", ucss "Ucs", views "View", view_ports "ViewPort");
    fn entity(out: &mut Vec<(String, u64, bool)>, e: &Entity, found: bool) {
        let n = variant_name(&e.specific);
        let parts = match e.specific {
            EntityType::Insert(_) => Some("__attributes_and_handles"),
            EntityType::Polyline(_) => Some("__vertices_and_handles"),
            _ => None,
        };
        out.push((format!("E:{}", n), e.common.handle.0, found));
        if let Some(p) = parts {
            let v = serde_json::to_value(&e.specific).unwrap();
            let v = v.as_object().unwrap().values().next().unwrap();
            out.push((format!("seqend of {}", n), v["__seqend_handle"].as_u64().unwrap_or(0), false));
            for x in v[p].as_array().into_iter().flatten() {
                out.push((format!("part of {}", n), x[1].as_u64().unwrap_or(0), false));
            }
        }
    }
    for e in d.entities() {
        entity(&mut out, e, true);
    }
    for b in d.blocks() {
        out.push(("Block".into(), b.handle.0, true));
        for e in &b.entities {
            entity(&mut out, e, false);
        }
    }
    for o in d.objects() {
        out.push((format!("O:{}", object_name(&o.specific)), o.common.handle.0, true));
    }
    out
}
fn variant_name(e: &EntityType) -> String {
    debug_name(&format!("{:?}", e))
}
fn object_name(e: &ObjectType) -> String {
    debug_name(&format!("{:?}", e))
}
fn debug_name(s: &str) -> String {
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
fn found_kind(i: &DrawingItem) -> String {
    match i {
        DrawingItem::AppId(_) => "T:AppId".into(),
        DrawingItem::Block(_) => "Block".into(),
        DrawingItem::BlockRecord(_) => "T:BlockRecord".into(),
        DrawingItem::DimStyle(_) => "T:DimStyle".into(),
        DrawingItem::Entity(e) => format!("E:{}", variant_name(&e.specific)),
        DrawingItem::Layer(_) => "T:Layer".into(),
        DrawingItem::LineType(_) => "T:LineType".into(),
        DrawingItem::Object(o) => format!("O:{}", object_name(&o.specific)),
        DrawingItem::Style(_) => "T:Style".into(),
        DrawingItem::Ucs(_) => "T:Ucs".into(),
        DrawingItem::View(_) => "T:View".into(),
        DrawingItem::ViewPort(_) => "T:ViewPort".into(),
    }
}
fn found_kind_mut(i: &DrawingItemMut) -> String {
    match i {
        DrawingItemMut::AppId(_) => "T:AppId".into(),
        DrawingItemMut::Block(_) => "Block".into(),
        DrawingItemMut::BlockRecord(_) => "T:BlockRecord".into(),
        DrawingItemMut::DimStyle(_) => "T:DimStyle".into(),
        DrawingItemMut::Entity(e) => format!("E:{}", variant_name(&e.specific)),
        DrawingItemMut::Layer(_) => "T:Layer".into(),
        DrawingItemMut::LineType(_) => "T:LineType".into(),
        DrawingItemMut::Object(o) => format!("O:{}", object_name(&o.specific)),
        DrawingItemMut::Style(_) => "T:Style".into(),
        DrawingItemMut::Ucs(_) => "T:Ucs".into(),
        DrawingItemMut::View(_) => "T:View".into(),
        DrawingItemMut::ViewPort(_) => "T:ViewPort".into(),
    }
}
/// The invariant: every handle is set, no two are the same, and none lies beyond those still to be given out.
fn handle_invariant(d: &Drawing, after: &str) -> Check<BTreeMap<u64, String>> {
    let _q = crate::seam::Quiet::new();
    let hs = handles(d);
    let mut seen: BTreeMap<u64, String> = BTreeMap::new();
    for (n, h, _) in &hs {
        ensure!(*h != 0, format!("no handle: {}", n), "after {}: a {} has no handle", after, n);
        if let Some(o) = seen.insert(*h, n.clone()) {
            return bad(format!("shared handle: {} and {}", o, n), format!("after {}: {} and {} share the handle {:X}", after, o, n, h));
        }
        ensure!(*h < d.header.next_available_handle.0, "handle beyond the next one", "after {}: a {} has the handle {:X}, the next one given out is {:X}", after, n, h, d.header.next_available_handle.0);
    }
    Ok(seen)
}
fn lookups(d: &mut Drawing, n: u64) -> Check {
    let hs: Vec<(String, u64, bool)> = {
        let _q = crate::seam::Quiet::new();
        handles(d)
    };
    for _ in 0..n {
        if hs.is_empty() {
            return Ok(());
        }
        let (what, h, found) = &hs[below_usize(hs.len())];
        let (a, b) = lib("item_by_handle", || {
            let a = d.item_by_handle(Handle(*h)).map(|i| (found_kind(&i), i.handle().0));
            let b = d.item_by_handle_mut(Handle(*h)).map(|i| (found_kind_mut(&i), i.handle().0));
            (a, b)
        })?;
        if *found {
            ensure!(a == Some((what.clone(), *h)), format!("lookup of {}", what), "item_by_handle({:X}) of a {} found {:?}", h, what, a);
            ensure!(b == Some((what.clone(), *h)), format!("lookup of {}", what), "item_by_handle_mut({:X}) of a {} found {:?}", h, what, b);
        } else {
            ensure!(a.is_none() && b.is_none(), "lookup of a part", "item_by_handle({:X}) of a {} found {:?} and {:?}", h, what, a, b);
        }
    }
    let next = d.header.next_available_handle;
    let r = lib("item_by_handle", || d.item_by_handle(next).map(|i| found_kind(&i)))?;
    ensure!(r.is_none(), "lookup of nothing", "item_by_handle({:X}), which was never given out, found {:?}", next.0, r);
    Ok(())
}
/// Kinds whose loading could take the item after them for a part of themselves.
fn is_part(k: usize) -> bool {
    matches!(kind_name(k).as_str(), "E:Seqend" | "E:Vertex" | "E:Attribute")
}
/// Takes an item that is not yet in the drawing for the owner of another one that isn't either, adds both, and gives the
/// handles of the two.  Where the owner has no handle yet, it is given one on the way.
fn owner_and_owned(d: &mut Drawing, flavor: Flavor, density: u64, n: u64) -> (u64, u64, String) {
    let mut layer = Layer { name: format!("own-l{}", n), ..Default::default() };
    let mut style = Style { name: format!("own-s{}", n), ..Default::default() };
    let mut ltype = LineType { name: format!("own-t{}", n), ..Default::default() };
    let mut rec = BlockRecord { name: format!("own-r{}", n), ..Default::default() };
    let mut line = Entity::new(EntityType::Line(Default::default()));
    let mut object = Object::new(ObjectType::Dictionary(Default::default()));
    let mut block = Block { name: format!("own-b{}", n), ..Default::default() };
    let mut app = AppId { name: format!("own-a{}", n), ..Default::default() };
    let mut dim = DimStyle { name: format!("own-d{}", n), ..Default::default() };
    let mut ucs = Ucs { name: format!("own-u{}", n), ..Default::default() };
    let mut view = View { name: format!("own-v{}", n), ..Default::default() };
    let mut port = ViewPort { name: format!("own-p{}", n), ..Default::default() };
    let w = below(12);
    let first = chance(1, 2);
    let mut owned_block = Block { name: format!("owned-b{}", n), ..Default::default() };
    let mut owned_layer = Layer { name: format!("owned-l{}", n), ..Default::default() };
    let mut owned_style = Style { name: format!("owned-s{}", n), ..Default::default() };
    let mut owned_view = View { name: format!("owned-v{}", n), ..Default::default() };
    let o = below(5);
    let mut owned_entity = gen::entity(below_usize(gen::ENTITY_KINDS.len().min(8)), flavor, density);
    let take = |d: &mut Drawing, mut item: DrawingItemMut, b: &mut Block, l: &mut Layer, s: &mut Style, v: &mut View, e: &mut Entity| {
        match o {
            0 => b.set_owner(&mut item, d),
            1 => l.set_owner(&mut item, d),
            2 => s.set_owner(&mut item, d),
            3 => v.set_owner(&mut item, d),
            _ => {
                if item.handle().is_empty() {
                    // what the other items' owners get by themselves
                    Layer::default().set_owner(&mut item, d);
                }
                e.common.set_owner(&item);
            }
        }
        found_kind_mut(&item)
    };
    macro_rules! go {
        ($var:ident, $item:ident, $add:ident, $handle:expr, $of:expr) => {{
            if first {
                // with the handle it got when it was added
                $handle = $of(d.$add($var.clone()));
                take(d, DrawingItemMut::$item(&mut $var), &mut owned_block, &mut owned_layer, &mut owned_style, &mut owned_view, &mut owned_entity)
            } else {
                take(d, DrawingItemMut::$item(&mut $var), &mut owned_block, &mut owned_layer, &mut owned_style, &mut owned_view, &mut owned_entity)
            }
        }};
    }
    let kind = match w {
        0 => go!(layer, Layer, add_layer, layer.handle, |x: &Layer| x.handle),
        1 => go!(style, Style, add_style, style.handle, |x: &Style| x.handle),
        2 => go!(ltype, LineType, add_line_type, ltype.handle, |x: &LineType| x.handle),
        3 => go!(rec, BlockRecord, add_block_record, rec.handle, |x: &BlockRecord| x.handle),
        4 => go!(line, Entity, add_entity, line.common.handle, |x: &Entity| x.common.handle),
        5 => go!(object, Object, add_object, object.common.handle, |x: &Object| x.common.handle),
        6 => go!(block, Block, add_block, block.handle, |x: &Block| x.handle),
        7 => go!(app, AppId, add_app_id, app.handle, |x: &AppId| x.handle),
        8 => go!(dim, DimStyle, add_dim_style, dim.handle, |x: &DimStyle| x.handle),
        9 => go!(ucs, Ucs, add_ucs, ucs.handle, |x: &Ucs| x.handle),
        10 => go!(view, View, add_view, view.handle, |x: &View| x.handle),
        _ => go!(port, ViewPort, add_view_port, port.handle, |x: &ViewPort| x.handle),
    };
    if !first && chance(1, 2) {
        // something else is added in between
        d.add_layer(Layer { name: format!("between{}", n), ..Default::default() });
    }
    let child = match o {
        0 => d.add_block(owned_block).handle,
        1 => d.add_layer(owned_layer).handle,
        2 => d.add_style(owned_style).handle,
        3 => d.add_view(owned_view).handle,
        _ => d.add_entity(owned_entity).common.handle,
    };
    macro_rules! put {
        ($var:ident, $add:ident, $handle:expr) => {{
            let h = $handle;
            if !first {
                d.$add($var);
            }
            h
        }};
    }
    let owner = match w {
        0 => put!(layer, add_layer, layer.handle),
        1 => put!(style, add_style, style.handle),
        2 => put!(ltype, add_line_type, ltype.handle),
        3 => put!(rec, add_block_record, rec.handle),
        4 => put!(line, add_entity, line.common.handle),
        5 => put!(object, add_object, object.common.handle),
        6 => put!(block, add_block, block.handle),
        7 => put!(app, add_app_id, app.handle),
        8 => put!(dim, add_dim_style, dim.handle),
        9 => put!(ucs, add_ucs, ucs.handle),
        10 => put!(view, add_view, view.handle),
        _ => put!(port, add_view_port, port.handle),
    };
    (child.0, owner.0, kind)
}
/// The owner that an item of the drawing names, by what its own `owner` says.
fn owner_of(d: &Drawing, child: u64) -> Option<Option<(String, u64)>> {
    let f = |x: Option<DrawingItem>| x.map(|i| (found_kind(&i), i.handle().0));
    match d.item_by_handle(Handle(child))? {
        DrawingItem::Block(b) => Some(f(b.owner(d))),
        DrawingItem::Layer(l) => Some(f(l.owner(d))),
        DrawingItem::Style(s) => Some(f(s.owner(d))),
        DrawingItem::View(v) => Some(f(v.owner(d))),
        DrawingItem::Entity(e) => Some(f(e.common.owner(d))),
        _ => None,
    }
}
/// C12: handles over the life of a drawing.
pub fn c12() -> Check {
    let g = golden();
    let flavor = pick(&[Flavor::Plain, Flavor::Text]);
    let mut d = lib("building a drawing", || {
        let mut d = Drawing::new();
        if chance(1, 4) {
            d.clear();
        }
        d.header.version = gen_version();
        if chance(1, 4) {
            // a drawing with a long history
            d.header.next_available_handle = dxf::Handle(pick(&[0xF0, 0xFFF0, 0x7FFF_FFF0, 0xFFFF_FFF0, 0xFF_FFFF_FFF0, 0x7FFF_FFFF_FFFF_FFF0]));
        }
        d
    })?;
    // items of the drawing by handle; a handle once given out is never given to another item
    let mut model = handle_invariant(&d, "creation")?;
    let mut ever: BTreeSet<u64> = model.keys().copied().collect();
    let density = pick(&[20u64, 100, 200]);
    let pool: Vec<usize> = (0..1 + below(4)).map(|_| below_usize(s_round::n_kinds() - 4)).filter(|k| !is_part(*k)).collect();
    let steps = range(2, 14);
    let mut names = 0;
    let mut owners: Vec<(u64, u64, String)> = vec![];
    for _ in 0..steps {
        let mut op = "";
        let mut reloaded = false;
        match below(14) {
            12 | 13 => {
                op = "an item being given an owner";
                names += 1;
                note(|| "set an owner".into());
                let x = lib("set_owner", || owner_and_owned(&mut d, flavor, density, names))?;
                owners.push(x);
            }
            0..=3 if !pool.is_empty() => {
                let k = pool[below_usize(pool.len())];
                names += 1;
                op = "an addition";
                note(|| format!("add {}", kind_name(k)));
                lib("add", || s_round::add_kind(&mut d, k, flavor, density, names))?;
            }
            4 => {
                op = "the addition of a block";
                names += 1;
                note(|| "add block".into());
                lib("add_block", || {
                    let mut b: Block = gen::near(&Block { entities: vec![], ..Default::default() }, flavor, density);
                    b.name = format!("B{}", names);
                    b.entities = vec![];
                    for _ in 0..below(4) {
                        let k = below_usize(gen::ENTITY_KINDS.len());
                        if !is_part(k) {
                            let mut e = gen::entity(k, flavor, density);
                            gen::give_children(&mut d, &mut e, flavor, density);
                            b.entities.push(e);
                        }
                    }
                    d.add_block(b);
                })?;
            }
            5 | 6 => {
                op = "the addition of a polyline or insert";
                let n = if chance(1, 2) { "Polyline" } else { "Insert" };
                let k = gen::ENTITY_KINDS.iter().position(|x| x.0 == n).unwrap();
                note(|| format!("add {}", kind_name(k)));
                lib("add_entity", || gen::add_entity(&mut d, k, flavor, density))?;
            }
            7 => {
                // take an entity out, change it, put it back
                let n = d.entities().count();
                if n > 0 {
                    op = "taking an entity out and putting it back";
                    let i = below_usize(n);
                    note(|| format!("remove and add entity {}", i));
                    lib("remove_entity and add_entity", || {
                        if let Some(mut e) = d.remove_entity(i) {
                            model.remove(&e.common.handle.0);
                            let mut gone = vec![];
                            if matches!(e.specific, EntityType::Insert(_) | EntityType::Polyline(_)) {
                                gone = model.iter().filter(|(_, w)| w.starts_with("seqend") || w.starts_with("part")).map(|(h, _)| *h).collect();
                            }
                            for h in gone {
                                model.remove(&h); // the parts may keep theirs or get new ones
                                ever.remove(&h);
                            }
                            gen::give_children(&mut d, &mut e, flavor, density);
                            d.add_entity(e);
                        }
                    })?;
                }
            }
            8 => {
                op = "a removal";
                note(|| "remove".into());
                let h: Option<u64> = lib("remove", || match below(12) {
                    0 => d.remove_app_id(below_usize(d.app_ids().count() + 1)).map(|x| x.handle.0),
                    1 => d.remove_block_record(below_usize(d.block_records().count() + 1)).map(|x| x.handle.0),
                    2 => d.remove_dim_style(below_usize(d.dim_styles().count() + 1)).map(|x| x.handle.0),
                    3 => d.remove_layer(below_usize(d.layers().count() + 1)).map(|x| x.handle.0),
                    4 => d.remove_line_type(below_usize(d.line_types().count() + 1)).map(|x| x.handle.0),
                    5 => d.remove_style(below_usize(d.styles().count() + 1)).map(|x| x.handle.0),
                    6 => d.remove_ucs(below_usize(d.ucss().count() + 1)).map(|x| x.handle.0),
                    7 => d.remove_view(below_usize(d.views().count() + 1)).map(|x| x.handle.0),
                    8 => d.remove_view_port(below_usize(d.view_ports().count() + 1)).map(|x| x.handle.0),
                    9 => d.remove_object(below_usize(d.objects().count() + 1)).map(|x| x.common.handle.0),
                    10 => d.remove_entity(below_usize(d.entities().count() + 1)).map(|x| x.common.handle.0),
                    _ => d.remove_block(below_usize(d.blocks().count() + 1)).map(|x| x.handle.0),
                })?;
                if let Some(h) = h {
                    let r = lib("item_by_handle", || d.item_by_handle(Handle(h)).map(|i| found_kind(&i)))?;
                    ensure!(r.is_none(), "lookup of a removed item", "item_by_handle({:X}) of an item that was removed found {:?}", h, r);
                    let now: BTreeSet<u64> = handles(&d).into_iter().map(|x| x.1).collect();
                    let w = model.remove(&h).unwrap_or_default();
                    // parts go with their item
                    let lost: Vec<u64> = model.iter().filter(|(k, _)| !now.contains(k)).map(|(k, _)| *k).collect();
                    for k in lost {
                        let p = model.remove(&k).unwrap();
                        ensure!(p.starts_with("part") || p.starts_with("seqend") || w == "Block", "removal took more", "removing a {} also removed a {}", w, p);
                    }
                }
            }
            9 => {
                op = "normalize";
                note(|| "normalize".into());
                lib("normalize", || d.normalize())?;
            }
            _ => {
                op = "a save and a load";
                reloaded = true;
                let ver = if chance(1, 5) { below_usize(gen::VERSIONS.len()) } else { below_usize(11) };
                let fmt = below_usize(2);
                d.header.version = gen::VERSIONS[ver];
                d.header.handles_enabled = d.header.version >= AcadVersion::R13 || chance(3, 4);
                let f = [Format::Text, Format::Binary][fmt];
                note(|| format!("save and load {:?} {:?}", d.header.version, f));
                let Ok(b) = save_vec(&d, f)? else { return Ok(()) };
                let restart = chance(1, 2);
                let l = if restart {
                    fault(Fault::Restart);
                    nontrivial();
                    fresh(|| load_slice(&b))?
                } else {
                    load_slice(&b)?
                };
                let Ok(l) = l else { return Ok(()) };
                // which of the items must still be there, under the same handle
                let c = cell(ver, fmt, flavor);
                let keep = d.header.handles_enabled;
                d = l;
                let now = handle_invariant(&d, op)?;
                for (h, w) in &model {
                    let path = if w.starts_with("E:") || w.starts_with("O:") { ".common.handle" } else { ".handle" };
                    if keep && g.present(w, c) == Some(true) && g.claims(w, path, c) {
                        ensure!(now.get(h) == Some(w), format!("handle changed in a file: {}", w), "{:?} {:?}: the {} with the handle {:X} is now {:?}", gen::VERSIONS[ver], f, w, h, now.get(h));
                    }
                }
                model = now;
                ever = model.keys().copied().collect();
            }
        }
        if op.is_empty() {
            continue;
        }
        let now = handle_invariant(&d, op)?;
        if !reloaded {
            for (h, w) in &model {
                ensure!(now.get(h) == Some(w), format!("handle changed: {}", w), "after {}: the {} with the handle {:X} is now {:?}", op, w, h, now.get(h));
            }
            for (h, w) in &now {
                ensure!(model.contains_key(h) || !ever.contains(h), "handle given out again", "after {}: a {} got the handle {:X}, which another item had", op, w, h);
            }
            model = now;
            ever.extend(model.keys().copied());
        }
        if reloaded {
            owners.clear();
        }
        // an owner that is still in the drawing is found, and one that isn't is not taken for another item
        for (child, owner, kind) in &owners {
            let r = lib("owner", || owner_of(&d, *child))?;
            if let Some(r) = r {
                let there = model.get(owner) == Some(kind);
                let want = if there { Some((kind.clone(), *owner)) } else { None };
                ensure!(r == want, "owner of an item", "after {}: the owner of the item {:X} should be {:?}, it is {:?}", op, child, want, r);
            }
        }
        event(b'h', model.len() as u64, op.len() as u64);
        lookups(&mut d, 2)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
fn text_style(e: &EntityType) -> Option<&str> {
    match e {
        EntityType::ArcAlignedText(e) => Some(&e.text_style_name),
        EntityType::Attribute(e) => Some(&e.text_style_name),
        EntityType::AttributeDefinition(e) => Some(&e.text_style_name),
        EntityType::MText(e) => Some(&e.text_style_name),
        EntityType::Text(e) => Some(&e.text_style_name),
        _ => None,
    }
}
fn dim_style(e: &EntityType) -> Option<&str> {
    match e {
        EntityType::RotatedDimension(d) => Some(&d.dimension_base.dimension_style_name),
        EntityType::RadialDimension(d) => Some(&d.dimension_base.dimension_style_name),
        EntityType::DiameterDimension(d) => Some(&d.dimension_base.dimension_style_name),
        EntityType::AngularThreePointDimension(d) => Some(&d.dimension_base.dimension_style_name),
        EntityType::OrdinateDimension(d) => Some(&d.dimension_base.dimension_style_name),
        EntityType::Leader(l) => Some(&l.dimension_style_name),
        EntityType::Tolerance(t) => Some(&t.dimension_style_name),
        _ => None,
    }
}
/// Every name an item of the drawing refers to is the name of an item of the drawing.
fn names_resolve(d: &Drawing, after: &str, normalized: bool) -> Check {
    let _q = crate::seam::Quiet::new();
    let set = |it: Vec<&str>| -> BTreeSet<String> { it.into_iter().map(|s| s.to_string()).collect() };
    let layers = set(d.layers().map(|x| x.name.as_str()).collect());
    let line_types = set(d.line_types().map(|x| x.name.as_str()).collect());
    let styles = set(d.styles().map(|x| x.name.as_str()).collect());
    let dim_styles = set(d.dim_styles().map(|x| x.name.as_str()).collect());
    let views = set(d.views().map(|x| x.name.as_str()).collect());
    let records = set(d.block_records().map(|x| x.name.as_str()).collect());
    let mlines = set(d.objects().filter_map(|o| match &o.specific { ObjectType::MLineStyle(m) => Some(m.style_name.as_str()), _ => None }).collect());
    macro_rules! need {
        ($set:ident, $name:expr, $what:expr, $by:expr) => {
            ensure!($set.contains($name as &str), format!("no such {}: {}", $what, $by), "after {}: {} refers to the {} {:?}, which the drawing does not have", after, $by, $what, $name)
        };
    }
    for e in d.entities() {
        let n = variant_name(&e.specific);
        need!(layers, &e.common.layer, "layer", format!("an entity ({})", n));
        need!(line_types, &e.common.line_type_name, "line type", format!("an entity ({})", n));
        if let Some(s) = text_style(&e.specific) {
            need!(styles, s, "text style", format!("an entity ({})", n));
        }
        if let Some(s) = dim_style(&e.specific) {
            need!(dim_styles, s, "dimension style", format!("an entity ({})", n));
        }
        if let EntityType::MLine(m) = &e.specific {
            need!(mlines, &m.style_name, "multiline style", "an entity (MLine)");
        }
    }
    for l in d.layers() {
        need!(line_types, &l.line_type_name, "line type", "a layer");
    }
    for b in d.blocks() {
        need!(layers, &b.layer, "layer", "a block");
        need!(records, &b.name, "block record", "a block");
        for e in &b.entities {
            need!(layers, &e.common.layer, "layer", "an entity of a block");
            need!(line_types, &e.common.line_type_name, "line type", "an entity of a block");
        }
    }
    for o in d.objects() {
        match &o.specific {
            ObjectType::LayerFilter(l) => {
                for n in &l.layer_names {
                    need!(layers, n, "layer", "a layer filter");
                }
            }
            ObjectType::LayerIndex(l) => {
                for n in &l.layer_names {
                    need!(layers, n, "layer", "a layer index");
                }
            }
            ObjectType::PlotSettings(p) => need!(views, &p.plot_view_name, "view", "plot settings"),
            _ => (),
        }
    }
    if normalized {
        let app_ids = set(d.app_ids().map(|x| x.name.as_str()).collect());
        let ports = set(d.view_ports().map(|x| x.name.as_str()).collect());
        let ucss = set(d.ucss().map(|x| x.name.as_str()).collect());
        need!(layers, "0", "layer", "every drawing");
        need!(layers, &d.header.current_layer, "layer", "the header");
        for n in ["BYLAYER", "BYBLOCK", "CONTINUOUS"] {
            need!(line_types, n, "line type", "every drawing");
        }
        for n in ["STANDARD", "ANNOTATIVE"] {
            need!(styles, n, "text style", "every drawing");
            need!(dim_styles, n, "dimension style", "every drawing");
        }
        need!(ports, "*ACTIVE", "view port", "every drawing");
        for n in ["*MODEL_SPACE", "*PAPER_SPACE"] {
            need!(records, n, "block record", "every drawing");
        }
        for n in ["ACAD", "ACADANNOTATIVE", "ACAD_NAV_VCDISPLAY", "ACAD_MLEADERVER"] {
            need!(app_ids, n, "application id", "every drawing");
        }
        for n in [&d.header.ucs_definition_name, &d.header.ucs_name, &d.header.ortho_ucs_reference, &d.header.paperspace_ucs_definition_name, &d.header.paperspace_ucs_name, &d.header.paperspace_ortho_ucs_reference] {
            if !n.is_empty() {
                need!(ucss, n, "coordinate system", "the header");
            }
        }
    }
    Ok(())
}
/// The items of the tables in their order: table, name and everything else.
fn table_items(d: &Drawing) -> Vec<(&'static str, String, String)> {
    let _q = crate::seam::Quiet::new();
    let mut v = vec![];
    macro_rules! table {
        ($t:ident, $what:expr) => {
            for x in d.$t() {
                v.push(($what, x.name.clone(), serde_json::to_string(x).unwrap_or_default()));
            }
        };
    }
    table!(app_ids, "application ids");
    table!(block_records, "block records");
    table!(dim_styles, "dimension styles");
    table!(layers, "layers");
    table!(line_types, "line types");
    table!(styles, "text styles");
    table!(ucss, "coordinate systems");
    table!(views, "views");
    v
}
fn gen_name() -> String {
    let n = pick(&["0", "A", "a", "walls", "WALLS", "BYLAYER", "CONTINUOUS", "STANDARD", "ANNOTATIVE", "dashed", "Dashed", "", "x y", "layer-1", "*ACTIVE", "caf\u{e9}"]);
    if chance(1, 4) { format!("{}{}", n, below(3)) } else { n.to_string() }
}
/// C15: names resolve.
pub fn c15() -> Check {
    let flavor = pick(&[Flavor::Plain, Flavor::Text]);
    let mut d = lib("building a drawing", Drawing::new)?;
    if chance(1, 3) {
        lib("clear", || d.clear())?;
    }
    d.header.version = gen_version();
    names_resolve(&d, "creation", false)?;
    let density = pick(&[20u64, 100, 200]);
    const REF: &[&str] = &["ArcAlignedText", "Attribute", "AttributeDefinition", "MText", "Text", "RotatedDimension", "RadialDimension", "DiameterDimension", "AngularThreePointDimension", "OrdinateDimension", "Leader", "Tolerance", "MLine"];
    const OREF: &[&str] = &["LayerFilter", "LayerIndex", "PlotSettings", "MLineStyle"];
    let mut names = 0;
    for _ in 0..range(1, 10) {
        let mut normalized = false;
        let op;
        let before = table_items(&d);
        match below(11) {
            0..=3 => {
                op = "an addition of an entity";
                let k = if chance(2, 3) {
                    let n = pick(REF);
                    gen::ENTITY_KINDS.iter().position(|x| x.0 == n).unwrap()
                } else {
                    below_usize(gen::ENTITY_KINDS.len())
                };
                note(|| format!("add {}", kind_name(k)));
                lib("add_entity", || {
                    let mut e = gen::entity(k, flavor, density);
                    rename(&mut e);
                    d.add_entity(e);
                })?;
            }
            4 => {
                op = "an addition of an object";
                let n = pick(OREF);
                let k = gen::OBJECT_KINDS.iter().position(|x| x.0 == n).unwrap();
                note(|| format!("add {}", n));
                lib("add_object", || {
                    let mut o = gen::object(k, flavor, density);
                    match &mut o.specific {
                        ObjectType::LayerFilter(l) => l.layer_names = (0..below(4)).map(|_| gen_name()).collect(),
                        ObjectType::LayerIndex(l) => l.layer_names = (0..below(4)).map(|_| gen_name()).collect(),
                        ObjectType::PlotSettings(p) => p.plot_view_name = gen_name(),
                        _ => (),
                    }
                    d.add_object(o);
                })?;
            }
            5 => {
                op = "an addition of a block";
                names += 1;
                note(|| "add block".into());
                lib("add_block", || {
                    let mut b: Block = gen::near(&Block { entities: vec![], ..Default::default() }, flavor, density);
                    b.name = format!("{}{}", gen_name(), names);
                    b.layer = gen_name();
                    b.entities = (0..below(4))
                        .map(|_| {
                            let mut e = gen::entity(below_usize(gen::ENTITY_KINDS.len()), flavor, density);
                            rename(&mut e);
                            e
                        })
                        .collect();
                    d.add_block(b);
                })?;
            }
            6 => {
                op = "an addition of a layer";
                names += 1;
                note(|| "add layer".into());
                lib("add_layer", || {
                    let l: dxf::tables::Layer = gen::near(&Default::default(), flavor, density);
                    d.add_layer(dxf::tables::Layer { name: format!("L{}", names), line_type_name: gen_name(), ..l });
                })?;
            }
            10 => {
                op = "an addition of table items";
                let (table, n) = (below(9), range(1, 14));
                note(|| format!("add {} items to table {}", n, table));
                lib("adding table items", || {
                    use dxf::tables::*;
                    for _ in 0..n {
                        names += 1;
                        let name = format!("{}{}-{}", pick(&["", "N", "z", "\u{e9}"]), below(1000), names);
                        match table {
                            0 => { d.add_app_id(AppId { name, ..Default::default() }); }
                            1 => { d.add_block_record(BlockRecord { name, ..Default::default() }); }
                            2 => { d.add_dim_style(DimStyle { name, ..Default::default() }); }
                            3 => { d.add_layer(Layer { name, ..Default::default() }); }
                            4 => { d.add_line_type(LineType { name, ..Default::default() }); }
                            5 => { d.add_style(Style { name, ..Default::default() }); }
                            6 => { d.add_ucs(Ucs { name, ..Default::default() }); }
                            7 => { d.add_view(View { name, ..Default::default() }); }
                            _ => { d.add_view_port(ViewPort { name, ..Default::default() }); }
                        }
                    }
                })?;
            }
            7 => {
                op = "normalize";
                note(|| "normalize".into());
                lib("normalize", || {
                    if chance(1, 2) {
                        d.header.current_layer = gen_name();
                        d.header.ucs_name = gen_name();
                        d.header.paperspace_ortho_ucs_reference = gen_name();
                    }
                    d.normalize()
                })?;
                normalized = true;
                let names = |d: &Drawing| table_items(d).into_iter().map(|x| (x.0, x.1)).collect::<Vec<_>>();
                let once = names(&d);
                lib("normalize", || d.normalize())?;
                let (twice, all) = (names(&d), canonical(&d));
                ensure!(once == twice, "normalizing twice", "{:?} became {:?}", once, twice);
                lib("normalize", || d.normalize())?;
                ensure!(all == canonical(&d), "normalizing does not settle", "{}", crate::s_io::diff_text(&all, &canonical(&d)));
            }
            _ => {
                op = "a save and a load";
                d.header.version = gen_version();
                if chance(1, 2) {
                    // a file may name what it does not define: the caller takes some of it out, or names something else
                    note(|| "take named items out".into());
                    lib("removing items", || {
                        for _ in 0..below(12) {
                            match below(8) {
                                0 => drop(d.remove_layer(below_usize(d.layers().count() + 1))),
                                1 => drop(d.remove_line_type(below_usize(d.line_types().count() + 1))),
                                2 => drop(d.remove_style(below_usize(d.styles().count() + 1))),
                                3 => drop(d.remove_dim_style(below_usize(d.dim_styles().count() + 1))),
                                4 => drop(d.remove_view(below_usize(d.views().count() + 1))),
                                5 => drop(d.remove_block_record(below_usize(d.block_records().count() + 1))),
                                6 => {
                                    for e in d.entities_mut() {
                                        if chance(1, 3) {
                                            rename(e);
                                        }
                                    }
                                }
                                _ => {
                                    let style = |d: &Drawing| d.objects().position(|o| matches!(o.specific, ObjectType::MLineStyle(_)));
                                    while let Some(i) = style(&d) {
                                        d.remove_object(i);
                                    }
                                }
                            }
                        }
                    })?;
                }
                let f = pick(&[Format::Text, Format::Binary]);
                note(|| format!("save and load {:?} {:?}", d.header.version, f));
                let Ok(b) = save_vec(&d, f)? else { return Ok(()) };
                let restart = chance(1, 2);
                let l = if restart {
                    fault(Fault::Restart);
                    nontrivial();
                    fresh(|| load_slice(&b))?
                } else {
                    load_slice(&b)?
                };
                let Ok(l) = l else { return Ok(()) };
                d = l;
            }
        }
        names_resolve(&d, op, normalized)?;
        let after = table_items(&d);
        for (t, n, v) in &after {
            let same: Vec<_> = after.iter().filter(|x| x.0 == *t && x.1 == *n).collect();
            ensure!(same.len() == 1, format!("two {}", t), "after {}: {} {} have the name {:?}: {}", op, same.len(), t, n, v);
        }
        if op.starts_with("an addition") {
            for (t, n, v) in &before {
                match after.iter().find(|x| x.0 == *t && x.1 == *n) {
                    Some(x) => ensure!(x.2 == *v, format!("altered {}", t), "{} altered {:?} of the {}: {}", op, n, t, crate::s_io::diff_text(v, &x.2)),
                    None => return bad(format!("removed {}", t), format!("{} removed {:?} of the {}", op, n, t)),
                }
            }
        }
        if normalized {
            for w in after.windows(2) {
                ensure!(w[0].0 != w[1].0 || w[0].1 <= w[1].1, format!("order of {}", w[0].0), "after normalizing {:?} comes before {:?}", w[0].1, w[1].1);
            }
        }
        event(b'n', d.layers().count() as u64, d.line_types().count() as u64);
    }
    Ok(())
}
fn rename(e: &mut Entity) {
    if chance(3, 4) {
        e.common.layer = gen_name();
    }
    if chance(3, 4) {
        e.common.line_type_name = gen_name();
    }
    match &mut e.specific {
        EntityType::ArcAlignedText(e) => e.text_style_name = gen_name(),
        EntityType::Attribute(e) => e.text_style_name = gen_name(),
        EntityType::AttributeDefinition(e) => e.text_style_name = gen_name(),
        EntityType::MText(e) => e.text_style_name = gen_name(),
        EntityType::Text(e) => e.text_style_name = gen_name(),
        EntityType::RotatedDimension(d) => d.dimension_base.dimension_style_name = gen_name(),
        EntityType::RadialDimension(d) => d.dimension_base.dimension_style_name = gen_name(),
        EntityType::DiameterDimension(d) => d.dimension_base.dimension_style_name = gen_name(),
        EntityType::AngularThreePointDimension(d) => d.dimension_base.dimension_style_name = gen_name(),
        EntityType::OrdinateDimension(d) => d.dimension_base.dimension_style_name = gen_name(),
        EntityType::Leader(l) => l.dimension_style_name = gen_name(),
        EntityType::Tolerance(t) => t.dimension_style_name = gen_name(),
        EntityType::MLine(m) => m.style_name = gen_name(),
        _ => (),
    }
}

//! C10: what an acknowledged save stored is what a later load finds, field by field.
//!
//! The oracle is a table, committed in /verif/golden, of which fields of which kinds of items each version
//! and format of the file is able to carry.  Fields that are not in the table are not judged.
use crate::choice::{below, below_usize, chance, pick, subseed};
use crate::engine::{bad, lib, nontrivial, note, probe, Check};
use crate::ensure;
use crate::gen::{self, Flavor};
use crate::seam::{fault, world, DiskPlan, Fault};
use crate::value;
use crate::workload::*;
use dxf::enums::AcadVersion;
use dxf::Drawing;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn n_kinds() -> usize {
    gen::ENTITY_KINDS.len() + gen::OBJECT_KINDS.len() + gen::TABLE_KINDS.len() + 4
}
pub fn kind_name(k: usize) -> String {
    let (ne, no, nt) = (gen::ENTITY_KINDS.len(), gen::OBJECT_KINDS.len(), gen::TABLE_KINDS.len());
    if k < ne {
        format!("E:{}", gen::ENTITY_KINDS[k].0)
    } else if k < ne + no {
        format!("O:{}", gen::OBJECT_KINDS[k - ne].0)
    } else if k < ne + no + nt {
        format!("T:{}", gen::TABLE_KINDS[k - ne - no])
    } else {
        ["Block", "Class", "Header", "Thumbnail"][k - ne - no - nt].to_string()
    }
}
pub fn add_kind(d: &mut Drawing, k: usize, flavor: Flavor, density: u64, i: u64) {
    let (ne, no, nt) = (gen::ENTITY_KINDS.len(), gen::OBJECT_KINDS.len(), gen::TABLE_KINDS.len());
    if k < ne {
        gen::add_entity(d, k, flavor, density);
    } else if k < ne + no {
        let o = gen::object(k - ne, flavor, density);
        d.add_object(o);
    } else if k < ne + no + nt {
        gen::add_table_item(d, k - ne - no, flavor, density, &format!("ITEM{}", i));
    } else {
        match k - ne - no - nt {
            0 => {
                let mut b = gen::block(flavor, density);
                b.entities.clear();
                b.name = format!("BLK{}", i);
                d.add_block(b);
            }
            1 => d.classes.push(gen::arbitrary(flavor)),
            2 => gen_header(d, flavor, density),
            _ => gen_thumbnail(d),
        }
    }
}
fn variant(v: Value) -> (String, Value) {
    // {"Line": {...}}
    match v {
        Value::Object(m) if m.len() == 1 => m.into_iter().next().unwrap(),
        Value::String(s) => (s, Value::Null),
        v => ("?".into(), v),
    }
}
pub struct Item {
    pub kind: String,
    /// Table items are found again by their name.
    pub name: String,
    pub v: Value,
}
fn val<T: serde::Serialize>(x: &T) -> Value {
    serde_json::to_value(x).expect("SIMULATOR: an item does not serialise")
}
fn entity_item(e: &dxf::entities::Entity) -> Item {
    let (n, s) = variant(val(&e.specific));
    Item { kind: format!("E:{}", n), name: String::new(), v: json!({"common": val(&e.common), "specific": s}) }
}
fn object_item(o: &dxf::objects::Object) -> Item {
    let (n, s) = variant(val(&o.specific));
    Item { kind: format!("O:{}", n), name: String::new(), v: json!({"common": val(&o.common), "specific": s}) }
}
pub const COLLECTIONS: &[&str] = &[
    "AppId", "BlockRecord", "DimStyle", "Layer", "LineType", "Style", "Ucs", "View", "ViewPort", "entities", "objects", "blocks", "block entities", "classes", "header", "thumbnail",
];
/// The items of one collection of a drawing, in order.
pub fn items(d: &Drawing, coll: &str) -> Vec<Item> {
    macro_rules! table {
        ($f:ident, $n:literal) => {
            d.$f().map(|x| Item { kind: concat!("T:", $n).to_string(), name: x.name.clone(), v: val(x) }).collect()
        };
    }
    match coll {
        "AppId" => table!(app_ids, "AppId"),
        "BlockRecord" => table!(block_records, "BlockRecord"),
        "DimStyle" => table!(dim_styles, "DimStyle"),
        "Layer" => table!(layers, "Layer"),
        "LineType" => table!(line_types, "LineType"),
        "Style" => table!(styles, "Style"),
        "Ucs" => table!(ucss, "Ucs"),
        "View" => table!(views, "View"),
        "ViewPort" => table!(view_ports, "ViewPort"),
        "entities" => d.entities().map(entity_item).collect(),
        "objects" => d.objects().map(object_item).collect(),
        "blocks" => d
            .blocks()
            .map(|b| {
                let mut v = val(b);
                v.as_object_mut().map(|m| m.remove("entities"));
                Item { kind: "Block".into(), name: String::new(), v }
            })
            .collect(),
        "block entities" => d.blocks().flat_map(|b| b.entities.iter()).map(entity_item).collect(),
        "classes" => d.classes.iter().map(|c| Item { kind: "Class".into(), name: String::new(), v: val(c) }).collect(),
        "header" => vec![Item { kind: "Header".into(), name: String::new(), v: val(&d.header) }],
        _ => match &d.thumbnail {
            Some(t) => {
                let t = t.to_rgb8();
                vec![Item { kind: "Thumbnail".into(), name: String::new(), v: json!({"w": t.width(), "h": t.height(), "px": t.as_raw()}) }]
            }
            None => vec![],
        },
    }
}
fn collection_of(kind: &str) -> &'static str {
    let n = match kind.split(':').next().unwrap() {
        "E" => "entities",
        "O" => "objects",
        "T" => &kind[2..],
        "Block" => "blocks",
        "Class" => "classes",
        "Thumbnail" => "thumbnail",
        _ => "header",
    };
    COLLECTIONS.iter().find(|c| **c == n).unwrap()
}
/// A cell of the table: the version, the format (text or binary) and the flavor of the values.
pub fn cell(ver: usize, fmt: usize, flavor: Flavor) -> usize {
    (ver * 2 + fmt) * 3 + flavor as usize
}
pub fn n_cells() -> usize {
    gen::VERSIONS.len() * 6
}
#[derive(Default)]
pub struct Survey {
    /// per kind, field and cell: samples, and samples in which the field was lost
    pub fields: BTreeMap<String, BTreeMap<String, Vec<(u32, u32)>>>,
    pub example: BTreeMap<(String, String), String>,
    pub errors: BTreeMap<(String, usize), (u32, String)>,
}
/// Fields of an item that no user can set directly.
pub fn judged(path: &str) -> bool {
    path.split(|c| c == '.' || c == '[' || c == ']').all(|seg| gen::settable(seg) || seg == "__attributes_and_handles" || seg == "__vertices_and_handles")
}
/// The fields of `a` (by generic path), with how each that differs in `b` differs.
pub fn compare(a: &Value, b: &Value) -> BTreeMap<String, Option<String>> {
    let (x, y) = (value::leaf_map(a), value::leaf_map(b));
    // elements of arrays whose length changed are not compared one by one
    let cut: Vec<String> = x.iter().filter(|(p, v)| p.ends_with(".#") && y.get(*p) != Some(v)).map(|(p, _)| format!("{}[", &p[..p.len() - 2])).collect();
    let mut seen: BTreeMap<String, Option<String>> = BTreeMap::new();
    for (p, v) in &x {
        if !judged(p) || cut.iter().any(|c| p.starts_with(c)) {
            continue;
        }
        let lost = match y.get(p) {
            Some(w) if w == v => None,
            o => Some(format!("{}: {} -> {}", p, v, o.map(|s| s.as_str()).unwrap_or("(absent)"))),
        };
        let e = seen.entry(value::generic(p)).or_insert(None);
        if lost.is_some() && e.is_none() {
            *e = lost;
        }
    }
    seen
}
impl Survey {
    fn add(&mut self, k: &str, p: &str, cell: usize, lost: bool, ex: impl FnOnce() -> String) {
        if !self.fields.contains_key(k) {
            self.fields.insert(k.to_string(), BTreeMap::new());
        }
        let m = self.fields.get_mut(k).unwrap();
        if !m.contains_key(p) {
            m.insert(p.to_string(), vec![(0, 0); n_cells()]);
        }
        let e = m.get_mut(p).unwrap();
        e[cell].0 += 1;
        if lost {
            e[cell].1 += 1;
            let k = (k.to_string(), p.to_string());
            self.example.entry(k).or_insert_with(ex);
        }
    }
}
pub fn start_drawing(ver: usize) -> Drawing {
    let mut d = Drawing::new();
    d.header.version = gen::VERSIONS[ver];
    if d.header.version < AcadVersion::R13 {
        d.header.handles_enabled = true;
    }
    d
}
pub fn survey_one(s: &mut Survey, k: usize, ver: usize, fmt: usize, flavor: Flavor, density: u64) {
    let cell = cell(ver, fmt, flavor);
    let name = kind_name(k);
    let f = [Format::Text, Format::Binary][fmt];
    let mut d = start_drawing(ver);
    add_kind(&mut d, k, flavor, density, 1);
    let mut v = vec![];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        save(&d, f, &mut v)?;
        let mut c = std::io::Cursor::new(&v[..]);
        Drawing::load(&mut c)
    }));
    let l = match r {
        Ok(Ok(l)) => l,
        o => {
            let m = match o {
                Ok(Err(e)) => format!("{:?}", e),
                _ => "panic".into(),
            };
            s.add(&name, "!loads", cell, true, || m.clone());
            let x = s.errors.entry((name, cell)).or_insert((0, String::new()));
            x.0 += 1;
            x.1 = m;
            return;
        }
    };
    s.add(&name, "!loads", cell, false, String::new);
    let coll = collection_of(&name);
    let (xs, ys) = (items(&d, coll), items(&l, coll));
    let same = xs.len() == ys.len() && xs.iter().zip(&ys).all(|(x, y)| x.kind == y.kind);
    let x = xs.last().unwrap();
    let absent = ys.len() + 1 == xs.len() && xs.iter().zip(&ys).all(|(x, y)| x.kind == y.kind);
    s.add(&name, "!present", cell, !same, || format!("{} items -> {}", xs.len(), ys.len()));
    s.add(&name, "!absent", cell, !absent, || format!("{} items -> {}", xs.len(), ys.len()));
    if same && x.kind == name {
        for (p, l) in compare(&x.v, &ys.last().unwrap().v) {
            s.add(&name, &p, cell, l.is_some(), || l.clone().unwrap());
        }
    }
}
pub fn survey_main(per_cell: u64, only: &str, flavors: &[Flavor], min_ver: usize, part: usize, parts: usize, seed: u64) -> Survey {
    let mut s = Survey::default();
    for k in 0..n_kinds() {
        if !only.is_empty() && !kind_name(k).contains(only) || k % parts != part {
            continue;
        }
        for ver in 0..gen::VERSIONS.len() {
            if min_ver < 100 && ver >= min_ver || min_ver >= 100 && ver != min_ver - 100 {
                continue;
            }
            for fmt in 0..2 {
                for &flavor in flavors {
                    for i in 0..per_cell {
                        crate::choice::start_random(((((k * 100 + ver) * 2 + fmt) * 3 + flavor as usize) as u64) * 1_000_003 + i + (seed << 40), -1);
                        survey_one(&mut s, k, ver, fmt, flavor, pick(&[20u64, 60, 128, 230, 256]));
                    }
                }
            }
        }
    }
    s
}
/// The table: one line per kind and field, one character per cell.
/// `+`: survived in every sample; `-`: did not in some; `?`: too few samples.
pub fn write_golden(s: &Survey, min: u32) -> String {
    let mut out = String::new();
    for (k, m) in &s.fields {
        for (p, v) in m {
            let cells: Vec<u8> = v.iter().map(|c| if c.1 > 0 { b'-' } else if c.0 >= min { b'+' } else { b'?' }).collect();
            if cells.iter().all(|c| *c == b'?') {
                continue;
            }
            out.push_str(&format!("{}\t{}\t{}\n", k, p, rle(&cells)));
        }
    }
    out
}
fn rle(c: &[u8]) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        let n = c[i..].iter().take_while(|x| **x == c[i]).count();
        out.push_str(&format!("{}{}", c[i] as char, n));
        i += n;
    }
    out
}
fn un_rle(s: &str) -> Vec<bool> {
    let mut out = vec![];
    let mut cur: Option<bool> = None;
    let mut n = 0usize;
    for c in s.chars().chain("+".chars()) {
        match c {
            '+' | '-' | '?' => {
                if let Some(b) = cur {
                    out.extend(std::iter::repeat(b).take(n));
                }
                cur = Some(c == '+');
                n = 0;
            }
            c => n = n * 10 + c.to_digit(10).expect("golden table") as usize,
        }
    }
    out
}
pub struct Golden(BTreeMap<String, BTreeMap<String, Vec<bool>>>);
impl Golden {
    pub fn claims(&self, kind: &str, path: &str, cell: usize) -> bool {
        self.0.get(kind).and_then(|m| m.get(path)).map_or(false, |v| v.get(cell).copied().unwrap_or(false))
    }
    /// Is it certain whether an item of this kind is in the file or not?  Some(true): it is; Some(false): it is not.
    pub fn present(&self, kind: &str, cell: usize) -> Option<bool> {
        if !self.claims(kind, "!loads", cell) {
            None
        } else if self.claims(kind, "!present", cell) {
            Some(true)
        } else if self.claims(kind, "!absent", cell) {
            Some(false)
        } else {
            None
        }
    }
}
pub fn golden() -> &'static Golden {
    static G: std::sync::OnceLock<Golden> = std::sync::OnceLock::new();
    let _q = crate::seam::Quiet::new();
    G.get_or_init(|| {
        let p = crate::engine::verif_dir().join("golden/fields.txt");
        let s = std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("SIMULATOR: {}: {}", p.display(), e));
        let mut m: BTreeMap<String, BTreeMap<String, Vec<bool>>> = BTreeMap::new();
        for l in s.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            m.entry(f[0].to_string()).or_default().insert(f[1].to_string(), un_rle(f[2]));
        }
        Golden(m)
    })
}
/// Development aid: prints the fields that do not survive.
pub fn print_survey(s: &Survey) {
    for ((k, c), (n, m)) in &s.errors {
        println!("ERR {} {:?}/{} n={} {}", k, gen::VERSIONS[c / 6], c % 6, n, m);
    }
    for (k, p, v) in s.fields.iter().flat_map(|(k, m)| m.iter().map(move |(p, v)| (k, p, v))) {
        if p.starts_with('!') {
            continue;
        }
        let bad: Vec<String> = v.iter().enumerate().filter(|(_, x)| x.1 > 0).map(|(i, x)| format!("{:?}/{}:{}/{}", gen::VERSIONS[i / 6], ["t", "tT", "tW", "b", "bT", "bW"][i % 6], x.1, x.0)).collect();
        if !bad.is_empty() {
            let nb = bad.len();
            let tot = v.iter().filter(|x| x.0 > 0).count();
            println!("{} {}  bad={}/{} {} ex: {}", k, p, nb, tot, if nb < 4 { bad.join(" ") } else { bad[0].clone() }, s.example.get(&(k.clone(), p.clone())).map(|s| s.chars().take(120).collect::<String>()).unwrap_or_default());
        }
    }
}

// ---------------------------------------------------------------------------------------------------
/// Judges what became of `d` (as it was when it was saved) in `l` (as it was loaded).
pub fn judge(d: &Drawing, l: &Drawing, cell: usize, skip_header: bool) -> Check {
    let _q = crate::seam::Quiet::new();
    let g = golden();
    let where_ = || format!("{:?} {}", gen::VERSIONS[cell / 6], ["text", "binary"][cell / 3 % 2]);
    let mut uncertain = false;
    let nohandles = gen::VERSIONS[cell / 6] < dxf::enums::AcadVersion::R13 && !d.header.handles_enabled;
    for coll in COLLECTIONS {
        if *coll == "header" && skip_header {
            continue;
        }
        let (xs, ys) = (items(d, coll), items(l, coll));
        let table = gen::TABLE_KINDS.contains(coll);
        let mut pairs: Vec<(&Item, &Item)> = vec![];
        if table {
            let kind = format!("T:{}", coll);
            if g.present(&kind, cell) != Some(true) {
                continue;
            }
            let mut j = 0;
            for x in &xs {
                match ys[j..].iter().position(|y| y.name == x.name) {
                    Some(k) => {
                        pairs.push((x, &ys[j + k]));
                        j += k + 1;
                    }
                    None => {
                        return bad(format!("lost {}", kind), format!("{}: the {} {:?} is not in the loaded drawing, or not in its place: saved {:?}, loaded {:?}", where_(), kind, x.name,
                            xs.iter().map(|x| &x.name).collect::<Vec<_>>(), ys.iter().map(|x| &x.name).collect::<Vec<_>>()));
                    }
                }
            }
        } else {
            let mut want: Vec<&Item> = vec![];
            for x in &xs {
                match g.present(&x.kind, cell) {
                    Some(true) => want.push(x),
                    Some(false) => (),
                    None => uncertain = true,
                }
            }
            if uncertain {
                uncertain = false;
                continue;
            }
            let (a, b): (Vec<&String>, Vec<&String>) = (want.iter().map(|x| &x.kind).collect(), ys.iter().map(|y| &y.kind).collect());
            if a != b {
                let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                return bad(
                    format!("sequence of {} {}", coll, a.get(i).map(|s| s.as_str()).unwrap_or("-")),
                    format!("{}: {} saved {:?}, loaded {:?}", where_(), coll, a, b),
                );
            }
            pairs.extend(want.into_iter().zip(ys.iter()));
        }
        for (x, y) in pairs {
            for (p, lost) in compare(&x.v, &y.v) {
                if let Some(m) = lost {
                    // a file without handles gives every item a new one; what the next one is, is C12's question
                    if p.contains("handle") && (nohandles || *coll == "header") {
                        continue;
                    }
                    if g.claims(&x.kind, &p, cell) {
                        return bad(format!("lost {} {}", x.kind, p), format!("{}: {} lost{} {}", where_(), x.kind, if x.name.is_empty() { String::new() } else { format!(" (of {})", x.name) }, m.chars().take(300).collect::<String>()));
                    }
                }
            }
        }
    }
    Ok(())
}
pub fn gen_disk() -> DiskPlan {
    DiskPlan { max_chunk: pick(&[0usize, 0, 1000, 4096, 97]), p_short: pick(&[0u64, 0, 60]), p_intr: pick(&[0u64, 0, 40]), seed: subseed(), ..Default::default() }
}
/// Saves to the simulated disk, meeting a few failures on the way; returns after an acknowledged save.
pub fn store(d: &Drawing, f: Format, p: &str) -> Check {
    for _ in 0..below(3) {
        let mut plan = gen_disk();
        match below(3) {
            0 => plan.capacity = Some(below(60_000) as usize),
            1 => plan.fail_at = Some((below(12), pick(&[libc::EIO, libc::ENOSPC]), chance(1, 2))),
            _ => {
                plan.fail_kind = 3;
                plan.fail_at = Some((0, libc::EACCES, false));
            }
        }
        note(|| format!("save to a failing disk: capacity {:?}, failing operation {:?}", plan.capacity, plan.fail_at));
        world().disk.set_plan(plan);
        let r = lib("save_file", || save_file(d, f, p))?;
        if r.is_ok() {
            probe("failing disk saved after all");
            world().disk.set_plan(gen_disk());
            return Ok(());
        }
        nontrivial();
        fault(Fault::RetryAfterFault);
    }
    world().disk.set_plan(gen_disk());
    let r = lib("save_file", || save_file(d, f, p))?;
    ensure!(r.is_ok(), "healthy disk refused", "the disk is healthy, the save failed: {:?}", r);
    Ok(())
}
/// C10: what an acknowledged save stored is what a later load finds.
pub fn c10() -> Check {
    let g = golden();
    let flavor = pick(&[Flavor::Plain, Flavor::Plain, Flavor::Text, Flavor::Wild]);
    let gen_cell = || {
        let ver = if chance(1, 6) { below_usize(gen::VERSIONS.len()) } else { below_usize(11) };
        (ver, below_usize(2))
    };
    let (mut ver, mut fmt) = gen_cell();
    let density = pick(&[20u64, 60, 128, 230, 256]);
    // the kinds of items this run uses
    let mut pool: Vec<usize> = vec![];
    for _ in 0..1 + below(4) {
        let k = below_usize(n_kinds());
        if g.present(&kind_name(k), cell(ver, fmt, flavor)).is_some() {
            pool.push(k);
        }
    }
    let mut d = lib("building a drawing", || start_drawing(ver))?;
    let has = |pool: &[usize], n: &str| pool.iter().any(|k| kind_name(*k) == n);
    if has(&pool, "E:Polyline") || has(&pool, "E:Insert") {
        // these would be taken for parts of the entity before them
        pool.retain(|k| !matches!(kind_name(*k).as_str(), "E:Seqend" | "E:Vertex" | "E:Attribute"));
    }
    if pool.is_empty() {
        pool.push(0);
    }
    let p = "/dxfsim/drawing.dxf";
    let mut names = 0;
    for hop in 0..1 + below(3) {
        if hop > 0 && chance(1, 2) {
            let (v, f) = gen_cell();
            if pool.iter().all(|k| g.present(&kind_name(*k), cell(v, f, flavor)).is_some()) {
                (ver, fmt) = (v, f);
            }
        }
        let c = cell(ver, fmt, flavor);
        d.header.version = gen::VERSIONS[ver];
        if d.header.version < AcadVersion::R13 {
            d.header.handles_enabled = true;
        }
        for v in d.view_ports_mut() {
            // an R2007 or later file has the coordinate system, but not the flag that says so (DESIGN.md, section 3)
            v.has_own_ucs = true;
        }
        let n = if hop == 0 { 1 + below(6) } else { below(4) };
        for _ in 0..n {
            let k = pool[below_usize(pool.len())];
            names += 1;
            lib("building a drawing", || {
                if kind_name(k).starts_with("E:") && chance(1, 5) {
                    let mut b: dxf::Block = gen::near(&dxf::Block { entities: vec![], ..Default::default() }, flavor, density);
                    b.name = format!("BLK{}", names);
                    let mut e = gen::entity(k - 0, flavor, density);
                    gen::give_children(&mut d, &mut e, flavor, density);
                    b.entities = vec![e];
                    d.add_block(b);
                } else {
                    add_kind(&mut d, k, flavor, density, names)
                }
            })?;
        }
        note(|| format!("hop {}: {:?} {}: {} entities, {} objects, {} blocks of {:?}", hop, d.header.version, ["text", "binary"][fmt], d.entities().count(), d.objects().count(), d.blocks().count(),
            pool.iter().map(|k| kind_name(*k)).collect::<Vec<_>>()));
        crate::seam::event(b'k', c as u64, pool[0] as u64);
        store(&d, [Format::Text, Format::Binary][fmt], p)?;
        world().disk.set_plan(gen_disk());
        let restart = chance(1, 2);
        let load = || lib("load_file", || Drawing::load_file(p));
        let l = if restart {
            fault(Fault::Restart);
            nontrivial();
            crate::sched::fresh(load)?
        } else {
            load()?
        };
        let l = match l {
            Ok(l) => l,
            Err(e) => {
                if pool.iter().all(|k| g.claims(&kind_name(*k), "!loads", c)) {
                    return bad("saved file refused", format!("{:?} {}: an acknowledged save cannot be loaded: {:?}", d.header.version, ["text", "binary"][fmt], e));
                }
                return Ok(());
            }
        };
        judge(&d, &l, c, hop == 0 && !has(&pool, "Header") && chance(3, 4))?;
        d = l;
    }
    Ok(())
}

//! C08, C09, C13, C14, C16: what the surroundings (hash seeds, clocks, time zones, other threads, memory, stored
//! bytes) may and may not do to the library.
use crate::choice::{below, below_usize, chance, pick, range, subseed};
use crate::engine::{bad, lib, nontrivial, note, probe, Check};
use crate::ensure;
use crate::gen::{self, Flavor};
use crate::io::{ReadPlan, SimReader, SimWriter, WritePlan};
use crate::s_round::{add_kind, kind_name, n_kinds};
use crate::sched::{self, fresh};
use crate::seam::{self, event, fault, private_random, world, Fault};
use crate::workload::*;
use chrono::{DateTime, Local, NaiveDateTime, TimeZone, Utc};
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::objects::*;
use dxf::{Block, Drawing, DxfError, DxfResult};
use std::sync::atomic::Ordering::Relaxed;

fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}
fn around(a: &[u8], i: usize) -> String {
    let lo = i.saturating_sub(60).min(a.len());
    String::from_utf8_lossy(&a[lo..(i + 60).min(a.len())]).replace("\r\n", "|")
}
fn some_shape() -> crate::workload::Shape {
    crate::workload::Shape { flavor: pick(&[Flavor::Plain, Flavor::Text, Flavor::Wild]), max_items: pick(&[1u64, 3, 8]) }
}

// ---------------------------------------------------------------------------------------------------
// C16

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ty {
    Str,
    Short,
    Int,
    Long,
    Double,
    Bool,
    Bin,
}
/// The type of the values of a group code, after the DXF reference.
fn type_of(code: i32) -> Option<Ty> {
    Some(match code {
        0..=9 | 100..=102 | 105 | 300..=309 | 320..=369 | 390..=399 | 410..=419 | 430..=439 | 470..=481 | 999..=1009 => Ty::Str,
        10..=59 | 110..=149 | 210..=239 | 460..=469 | 1010..=1059 => Ty::Double,
        60..=79 | 170..=179 | 270..=289 | 370..=389 | 400..=409 | 1060..=1070 => Ty::Short,
        90..=99 | 420..=429 | 440..=459 | 1071 => Ty::Int,
        160..=169 => Ty::Long,
        290..=299 => Ty::Bool,
        310..=319 => Ty::Bin,
        _ => return None,
    })
}
fn offset_of(e: &DxfError) -> Option<usize> {
    match e {
        DxfError::ParseFloatError(_, o) | DxfError::ParseIntError(_, o) | DxfError::ParseError(o) | DxfError::UnexpectedCode(_, o) | DxfError::UnexpectedByte(_, o)
        | DxfError::UnexpectedEnumValue(o) | DxfError::ExpectedTableType(o) | DxfError::WrongValueType(o) => Some(*o),
        _ => None,
    }
}
/// C16: one line of a text file damaged so that it cannot be read for what it should be: the load says so, and where.
pub fn c16() -> Check {
    let d = build(some_shape())?;
    let Ok(b) = save_vec(&d, Format::Text)? else { return Ok(()) };
    if load_slice(&b)?.is_err() {
        probe("saved file refused");
        return Ok(());
    }
    let mut lines: Vec<Vec<u8>> = vec![];
    {
        let _q = seam::Quiet::new();
        let mut rest = &b[..];
        while let Some(i) = rest.windows(2).position(|w| w == b"\r\n") {
            lines.push(rest[..i].to_vec());
            rest = &rest[i + 2..];
        }
    }
    let n = lines.len() / 2;
    // anywhere, but half of the time in the later half, where the items are
    let start = if chance(1, 2) { below_usize(n) } else { n / 4 + below_usize(n - n / 4) };
    let codes: Vec<i32> = (0..n).map(|i| String::from_utf8_lossy(&lines[2 * i]).trim().parse::<i32>().unwrap_or(-1)).collect();
    let code_at = |i: usize| codes[i];
    let what;
    let pair;
    let value_damaged = chance(3, 4);
    if value_damaged {
        // a kind of value that is rare in files is as likely as a common one, half of the time
        let rare = pick(&[Ty::Short, Ty::Int, Ty::Long, Ty::Double, Ty::Bool, Ty::Bin]);
        let only = chance(1, 2) && codes.iter().any(|c| type_of(*c) == Some(rare));
        let is_num = |i: &usize| type_of(code_at(*i)).is_some_and(|t| t != Ty::Str && (!only || t == rare));
        let Some(i) = (start..n).find(is_num).or_else(|| (0..start).rev().find(is_num)) else { return Ok(()) };
        pair = i;
        let t = type_of(code_at(i)).unwrap();
        let junk: &[&str] = match t {
            Ty::Bin => &["0G", "xyz", "--", "12 34", "\u{e9}\u{e9}"],
            Ty::Int => &["", "abc", "1x", "1,5", "2147483648", "-2147483649", "99999999999999999999", "0x10", "1 2", "- 1", "1.5", "#"],
            Ty::Long => &["", "abc", "1x", "9223372036854775808", "99999999999999999999", "0x10", "1 2", "1.5"],
            _ => &["", "abc", "1x", "1,5", "0x10", "1 2", "- 1", "1..5", "1e", "#", "$12"],
        };
        let j = pick(junk);
        what = format!("{:?} value {:?}", t, j);
        lines[2 * i + 1] = j.as_bytes().to_vec();
        fault(Fault::StoredValueReplaced);
    } else {
        pair = start.max(1);
        let j = pick(&["", "  ", "\t", "x", "1.5", "99999999999", "-1", "80", "85", "103", "104", "106", "109", "150", "159", "180", "209", "240", "269", "482", "998", "1072", "5000", "-5", "0x0", "5 5"]);
        what = format!("code {:?}", j);
        lines[2 * pair] = j.as_bytes().to_vec();
        fault(Fault::StoredRecordLost);
    }
    note(|| format!("pair {} of {} (code {:?}): {}", pair, n, code_at(pair), what));
    event(b'x', pair as u64, n as u64);
    let eol: &[u8] = if chance(1, 4) { b"\n" } else { b"\r\n" };
    let bad_bytes: Vec<u8> = lines.iter().flat_map(|l| [&l[..], eol].concat()).collect();
    nontrivial();
    let r = match below(3) {
        0 => load_slice(&bad_bytes)?,
        1 => {
            let mut r = SimReader::new(&bad_bytes, ReadPlan::gen(bad_bytes.len()));
            load_from(&mut r)?
        }
        _ => {
            world().disk.put("/dxfsim/in.dxf", bad_bytes.clone());
            lib("load_file", || Drawing::load_file("/dxfsim/in.dxf"))?
        }
    };
    let kind = if value_damaged { "value" } else { "code" };
    match r {
        Ok(_) => bad(format!("unreadable {} accepted", kind), format!("{:?}: {} on line {} of {} was read without an error", d.header.version, what, 2 * pair + 2, lines.len())),
        Err(e) => {
            // lines are counted from 1
            if let Some(o) = offset_of(&e) {
                ensure!(o == 2 * pair + 1 || o == 2 * pair + 2, format!("wrong line reported for a {}", kind), "{} on lines {} and {}, reported at {}: {}", what, 2 * pair + 1, 2 * pair + 2, o, e);
                probe("line reported");
            }
            let shown = lib("Display of an error", || e.to_string())?;
            ensure!(!shown.is_empty(), "empty message", "the error {:?} has no text", e);
            Ok(())
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// C08

#[derive(Clone)]
enum Edit {
    Entity(Entity),
    Object(Object),
    Block(Block),
    RemoveEntity(usize),
    RemoveLayer(usize),
    RemoveObject(usize),
    Normalize,
    Version(AcadVersion),
    Cycle(Format),
    Clear,
}
fn gen_edit(flavor: Flavor, density: u64, i: u64) -> Edit {
    match below(12) {
        0..=3 => Edit::Entity(gen::entity(below_usize(gen::ENTITY_KINDS.len()), flavor, density)),
        4 | 5 => Edit::Object(gen::object(below_usize(gen::OBJECT_KINDS.len()), flavor, density)),
        6 => {
            let mut b: Block = gen::near(&Block { entities: vec![], ..Default::default() }, flavor, density);
            b.name = format!("B{}", i);
            b.entities = (0..below(3)).map(|_| gen::entity(below_usize(gen::ENTITY_KINDS.len()), flavor, density)).collect();
            Edit::Block(b)
        }
        7 => match below(4) {
            0 => Edit::RemoveEntity(below_usize(4)),
            1 => Edit::RemoveLayer(below_usize(4)),
            2 => Edit::RemoveObject(below_usize(4)),
            _ => Edit::Clear,
        },
        8 => Edit::Normalize,
        9 => Edit::Version(gen_version()),
        10 => {
            // a collection that is kept by hash
            let n = pick(&["Dictionary", "DictionaryWithDefault", "DictionaryVariable"]);
            let k = gen::OBJECT_KINDS.iter().position(|x| x.0 == n).unwrap_or(0);
            Edit::Object(gen::object(k, flavor, 256))
        }
        _ => Edit::Cycle(pick(&[Format::Text, Format::Binary])),
    }
}
/// The same value put together anew in this process, so that nothing in it depends on where it came from.
fn rebuilt<T: serde::Serialize + serde::de::DeserializeOwned>(x: T) -> T {
    serde_json::to_value(&x).ok().and_then(|v| serde_json::from_value(v).ok()).unwrap_or(x)
}
/// Applies the edits to a new drawing and saves it: everything the caller gets to see.
fn history(edits: &[Edit], f: Format, header: &dxf::Header) -> Check<Vec<Vec<u8>>> {
    let mut d = lib("creating a drawing", Drawing::new)?;
    d.header = header.clone();
    lib("normalize", || d.normalize())?;
    let mut out = vec![];
    for e in edits {
        match e.clone() {
            Edit::Entity(e) => lib("add_entity", || drop(d.add_entity(rebuilt(e))))?,
            Edit::Object(o) => lib("add_object", || drop(d.add_object(rebuilt(o))))?,
            Edit::Block(b) => lib("add_block", || drop(d.add_block(rebuilt(b))))?,
            Edit::RemoveEntity(i) => lib("remove_entity", || drop(d.remove_entity(i)))?,
            Edit::RemoveLayer(i) => lib("remove_layer", || drop(d.remove_layer(i)))?,
            Edit::RemoveObject(i) => lib("remove_object", || drop(d.remove_object(i)))?,
            Edit::Normalize => lib("normalize", || d.normalize())?,
            Edit::Version(v) => d.header.version = v,
            Edit::Clear => lib("clear", || d.clear())?,
            Edit::Cycle(f) => {
                let Ok(b) = save_vec(&d, f)? else { continue };
                let l = load_slice(&b)?;
                out.push(b);
                if let Ok(l) = l {
                    d = l;
                    // a version that has no place for these in its files makes them up from the clock
                    (d.header.creation_date, d.header.update_date) = (header.creation_date, header.update_date);
                    (d.header.creation_date_universal, d.header.update_date_universal) = (header.creation_date_universal, header.update_date_universal);
                    (d.header.fingerprint_guid, d.header.version_guid) = (header.fingerprint_guid, header.version_guid);
                }
            }
        }
    }
    if let Ok(b) = save_vec(&d, f)? {
        out.push(b);
    }
    Ok(out)
}
/// C08: the same edits make the same files, whatever the process, the thread, the time and the hash seeds.
pub fn c08() -> Check {
    let flavor = pick(&[Flavor::Plain, Flavor::Text, Flavor::Wild]);
    let density = pick(&[20u64, 128, 256]);
    let f = gen_format();
    let (edits, header) = lib("building a drawing", || {
        let mut d = Drawing::new();
        gen_header(&mut d, flavor, density);
        d.header.version = gen_version();
        for x in [&mut d.header.ucs_name, &mut d.header.ucs_definition_name, &mut d.header.ortho_ucs_reference, &mut d.header.paperspace_ucs_name] {
            if chance(1, 2) {
                *x = pick(&["U", "A", "", "ZZ", "M"]).to_string();
            }
        }
        let n = range(1, 8);
        ((0..n).map(|i| gen_edit(flavor, density, i)).collect::<Vec<_>>(), d.header.clone())
    })?;
    note(|| format!("{} edits, version {:?}, {:?}", edits.len(), header.version, f));
    let want = fresh(|| history(&edits, f, &header))?;
    for _ in 0..2 {
        // another process: other hash keys and random numbers, another time, perhaps another zone
        fault(Fault::HashSeedChange);
        fault(Fault::Restart);
        nontrivial();
        if chance(1, 2) {
            fault(Fault::ClockJump);
            world().now_ns = seam::BASE_NS + (below(1 << 40) as i128 - (1 << 38)) * 1_000_000;
        }
        let s = subseed();
        let noise = below(3);
        let got = fresh(|| {
            private_random(s);
            // a process that has done other work before
            for _ in 0..noise {
                let _ = std::collections::HashMap::<u8, u8>::new();
                let _ = lib("creating a drawing", Drawing::new)?;
            }
            history(&edits, f, &header)
        })?;
        event(b'd', got.len() as u64, got.last().map(|b| b.len()).unwrap_or(0) as u64);
        ensure!(got.len() == want.len(), "outcomes differ", "{} saves succeeded, then {}", want.len(), got.len());
        for (i, (a, b)) in want.iter().zip(&got).enumerate() {
            let k = first_diff(a, b);
            ensure!(a == b, format!("files differ {:?}", f), "save {} of the same edits, {:?}: {} bytes and {} bytes, first difference at {}: {:?} <> {:?}", i, header.version, a.len(), b.len(), k, around(a, k), around(b, k));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
// C09

/// A time zone file: local mean time first, then a few changes of the clocks.
fn zone_file() -> Vec<u8> {
    let offsets: Vec<i32> = (0..range(1, 4)).map(|_| (below(105) as i32 - 48) * 900 + if chance(1, 4) { below(900) as i32 } else { 0 }).collect();
    let mut times: Vec<i64> = (0..below(5)).map(|_| below(6_500_000_000) as i64 - 2_400_000_000).collect();
    if chance(1, 2) {
        // the clocks move around the beginning of 1900
        times.push(-2_208_988_800 - offsets[0] as i64 - [0, 1800, 3599, 86400][below_usize(4)]);
    }
    times.sort();
    times.dedup();
    let idx: Vec<u8> = times.iter().map(|_| below(offsets.len() as u64) as u8).collect();
    let mut out = vec![];
    let head = |out: &mut Vec<u8>, times: u32, types: u32, chars: u32| {
        out.extend(b"TZif2");
        out.extend([0u8; 15]);
        for x in [0u32, 0, 0, times, types, chars] {
            out.extend(x.to_be_bytes());
        }
    };
    head(&mut out, 0, 1, 4);
    out.extend([0, 0, 0, 0, 0, 0]);
    out.extend(b"AAA\0");
    head(&mut out, times.len() as u32, offsets.len() as u32, 4 * offsets.len() as u32);
    for t in &times {
        out.extend(t.to_be_bytes());
    }
    out.extend(&idx);
    for (i, o) in offsets.iter().enumerate() {
        out.extend(o.to_be_bytes());
        out.push((i % 2) as u8);
        out.push(4 * i as u8);
    }
    for i in 0..offsets.len() {
        out.extend([b'A' + i as u8, b'A', b'A', 0]);
    }
    out.extend(b"\n\n");
    out
}
const ZONES: &[&str] = &[
    "UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "NPT-5:45", "<+14>-14", "<-12>12", "AEST-10AEDT,M10.1.0,M4.1.0/3",
    "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "XXX-1:23:45", "YYY11:59:59", "ZZZ-0:00:01",
];
fn set_zone() -> String {
    let _q = seam::Quiet::new();
    fault(Fault::ZoneChange);
    let z = if chance(1, 3) {
        world().disk.put("/dxfsim/zone", zone_file());
        ":/dxfsim/zone".to_string()
    } else {
        pick(ZONES).to_string()
    };
    std::env::set_var("TZ", &z);
    z
}
fn gen_clock() -> i128 {
    let s: i128 = match below(4) {
        0 => 1_700_000_000 + below(400_000_000) as i128,
        1 => below(4_000_000_000) as i128,
        2 => pick(&[0i128, 1, 2_147_483_647, 2_147_483_648, 4_294_967_295, 4_102_444_800, 253_402_300_799, 951_782_400]),
        // close to where the clocks of a zone change
        _ => pick(&[1_710_054_000i128, 1_730_613_600, 1_711_846_800, 1_729_994_400, 1_728_144_000, 1_712_419_200]) + below(9000) as i128 - 4500,
    };
    s.max(0) * 1_000_000_000 + below(1_000_000_000) as i128
}
/// The dates of a drawing, as wall clock times (whole seconds) with their names; UTC ones last.
fn dates(d: &Drawing) -> Vec<(String, NaiveDateTime)> {
    let _q = seam::Quiet::new();
    let s = |t: NaiveDateTime| t.and_utc().timestamp();
    let back = |s: i64| DateTime::<Utc>::from_timestamp(s, 0).unwrap().naive_utc();
    let mut v = vec![];
    let h = &d.header;
    v.push(("creation_date".to_string(), back(s(h.creation_date.naive_local()))));
    v.push(("update_date".to_string(), back(s(h.update_date.naive_local()))));
    v.push(("creation_date_universal".to_string(), back(s(h.creation_date_universal.naive_utc()))));
    v.push(("update_date_universal".to_string(), back(s(h.update_date_universal.naive_utc()))));
    for o in d.objects() {
        match &o.specific {
            ObjectType::LayerIndex(x) => v.push(("LayerIndex.time_stamp".into(), back(s(x.time_stamp.naive_local())))),
            ObjectType::SpatialIndex(x) => v.push(("SpatialIndex.timestamp".into(), back(s(x.timestamp.naive_local())))),
            ObjectType::SunStudy(x) => {
                for t in &x.dates {
                    v.push(("SunStudy.dates".into(), back(s(t.naive_local()))));
                }
            }
            _ => (),
        }
    }
    v
}
/// The value after a header variable's name in a text file.
fn header_value(b: &[u8], name: &str) -> Option<f64> {
    let s = String::from_utf8_lossy(b);
    let i = s.find(&format!("\r\n{}\r\n", name))?;
    s[i + 4 + name.len()..].split("\r\n").nth(1)?.trim().parse().ok()
}
/// C09: dates through files, in every zone, at every time.
pub fn c09() -> Check {
    std::env::set_var("TZ", "UTC0");
    let r = c09_run();
    std::env::set_var("TZ", "UTC0");
    r
}
fn c09_run() -> Check {
    let w = world();
    w.now_ns = gen_clock();
    w.tick_ns = pick(&[0i128, 1, 1_000_000, 999_999_999, 3_600_000_000_000]);
    let z = set_zone();
    let now = w.now_ns;
    let ver = gen_version();
    let f = pick(&[Format::Text, Format::Binary]);
    let set = below(3);
    let in_file = fresh(|| -> Check<Option<(Vec<(String, NaiveDateTime)>, Vec<u8>)>> {
        let mut d = lib("creating a drawing", Drawing::new)?;
        d.header.version = ver;
        // what a user sets, besides what the clock says
        let arbitrary = |lo: i64, hi: i64| {
            let s = lo + (below((hi - lo) as u64)) as i64;
            (Local.timestamp_opt(s, below(1_000_000_000) as u32).unwrap(), Utc.timestamp_opt(s, 0).unwrap())
        };
        if set >= 1 {
            // 1901 to 2100, or the years 1 to 9999
            let g = || if set == 1 { arbitrary(-2_177_452_800, 4_102_444_800) } else { arbitrary(-62_000_000_000, 253_000_000_000) };
            let (a, b) = (g(), g());
            (d.header.creation_date, d.header.creation_date_universal) = a;
            (d.header.update_date, d.header.update_date_universal) = b;
            lib("add_object", || {
                d.add_object(Object::new(ObjectType::LayerIndex(LayerIndex { time_stamp: g().0, ..Default::default() })));
                d.add_object(Object::new(ObjectType::SpatialIndex(SpatialIndex { timestamp: g().0, ..Default::default() })));
                d.add_object(Object::new(ObjectType::SunStudy(SunStudy { dates: (0..below(3)).map(|_| g().0).collect(), ..Default::default() })));
            })?;
        }
        let Ok(b) = save_vec(&d, f)? else { return Ok(None) };
        Ok(Some((dates(&d), b)))
    })?;
    let Some((want, b)) = in_file else { return Ok(()) };
    note(|| format!("zone {}, clock {} s + {} ns per reading, version {:?} {:?}: {}", z, now / 1_000_000_000, world().tick_ns, ver, f, want.iter().map(|x| format!("{} {}", x.0, x.1)).collect::<Vec<_>>().join(", ")));
    event(b'z', now as u64, crate::choice::fnv(crate::choice::FNV0, z.as_bytes()));
    let epoch = DateTime::<Utc>::from_timestamp(-2_208_988_800, 0).unwrap().naive_utc();
    if f == Format::Text {
        for (var, i) in [("$TDCREATE", 0), ("$TDUPDATE", 1), ("$TDUCREATE", 2), ("$TDUUPDATE", 3)] {
            if let Some(v) = header_value(&b, var) {
                let w = 2_415_021.0 + (want[i].1 - epoch).num_seconds() as f64 / 86400.0;
                ensure!((v - w).abs() * 86400.0 < 0.6, format!("stored {}", var), "zone {}: {} is {} in the file, {} is {}", z, var, v, want[i].1, w);
                probe("stored date");
            }
        }
    }
    // time passes; the file is read in the same zone or in another, in a new process
    world().now_ns = gen_clock();
    fault(Fault::ClockJump);
    let same = chance(1, 2);
    let z2 = if same { z.clone() } else { set_zone() };
    fault(Fault::Restart);
    nontrivial();
    let got = fresh(|| load_slice(&b).map(|r| r.map(|d| (dates(&d), d))))?;
    let (got, d) = match got {
        Ok(g) => g,
        Err(e) => return bad("refused", format!("zone {}, then {}: {}", z, z2, e)),
    };
    let has = |v: &str| b.windows(v.len()).any(|w| w == v.as_bytes());
    let stored = [has("$TDCREATE"), has("$TDUPDATE"), has("$TDUCREATE"), has("$TDUUPDATE")];
    let objects = got.len() == want.len();
    for (i, (n, t)) in want.iter().enumerate() {
        if i < 4 && !stored[i] || i >= 4 && !objects || *t < epoch {
            continue;
        }
        let utc = i == 2 || i == 3;
        let g = got[i].1;
        if utc || same {
            ensure!(g == *t, format!("{} changed", n), "zone {}, then {}: {} was {}, is {}", z, z2, n, t, g);
        } else {
            // a wall clock time that the clocks of the other zone skip becomes another one, less than a day away
            let exists = fresh(|| Local.from_local_datetime(t).earliest().is_some());
            let off = (g - *t).num_seconds().abs();
            ensure!(if exists { off == 0 } else { off <= 86400 }, format!("{} changed with the zone", n), "zone {}, then {}: {} was {}, is {}", z, z2, n, t, g);
        }
    }
    // and it can be saved again there
    let again = fresh(|| save_vec(&d, f))?;
    ensure!(again.is_ok(), "save refused", "zone {}: {:?}", z2, again.err());
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
// C13

#[derive(Clone, Copy, Debug)]
enum Job {
    LoadSlice,
    LoadReader,
    LoadFile,
    SaveWriter,
    SaveFile,
    New,
    Edit,
}
struct Ctx<'a> {
    job: Job,
    d: &'a Drawing,
    f: Format,
    b: &'a [u8],
    rp: ReadPlan,
    wp: WritePlan,
    path: String,
    nested: Option<Box<Ctx<'a>>>,
    nest_at: u64,
    seed: u64,
}
fn outcome<T>(r: DxfResult<T>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(v) => f(v),
        Err(e) => format!("error: {:?}", e),
    }
}
fn loaded(d: Drawing) -> String {
    let _q = seam::Quiet::new();
    canonical(&d)
}
impl Ctx<'_> {
    /// What the caller of the library sees of this job, and of the one nested in it, if that is to run.
    fn run(&self, nest: bool) -> Check<Vec<String>> {
        let really = nest;
        let mut inner: Check<Vec<String>> = Ok(vec![]);
        let nest = |at: u64, inner: &mut Check<Vec<String>>, done: &mut bool| {
            if really && at >= self.nest_at && !*done {
                *done = true;
                if let Some(n) = &self.nested {
                    fault(Fault::NestedCall);
                    *inner = seam::with_private_random(n.seed, || n.run(true));
                }
            }
        };
        let mut done = false;
        let own = match self.job {
            Job::LoadSlice => outcome(load_slice(self.b)?, loaded),
            Job::LoadReader => {
                let mut r = SimReader::new(self.b, self.rp.clone());
                r.hook = Some(Box::new(|at| nest(at, &mut inner, &mut done)));
                let l = lib("load", || Drawing::load(&mut r))?;
                drop(r);
                outcome(l, loaded)
            }
            Job::LoadFile => outcome(lib("load_file", || Drawing::load_file(&self.path))?, loaded),
            Job::SaveWriter => {
                let mut w = SimWriter::new(self.wp.clone());
                w.hook = Some(Box::new(|at| nest(at, &mut inner, &mut done)));
                let r = lib("save", || save(self.d, self.f, &mut w))?;
                let data = std::mem::take(&mut w.data);
                drop(w);
                outcome(r, |_| format!("{:?}", data))
            }
            Job::SaveFile => {
                let p = format!("{}.out", self.path);
                let r = lib("save_file", || save_file(self.d, self.f, &p))?;
                outcome(r, |_| format!("{:?}", world().disk.get(&p)))
            }
            Job::New => loaded(lib("creating a drawing", Drawing::new)?),
            Job::Edit => {
                let d = lib("editing", || {
                    let mut d = Drawing::new();
                    d.header.version = self.d.header.version;
                    for e in self.d.entities() {
                        d.add_entity(e.clone());
                    }
                    for o in self.d.objects() {
                        d.add_object(o.clone());
                    }
                    d.normalize();
                    d
                })?;
                loaded(d)
            }
        };
        let mut out = vec![own];
        out.extend(inner?);
        Ok(out)
    }
}
/// C13: calls that overlap in time, on several threads or one inside another, do not influence each other.
pub fn c13() -> Check {
    world().tick_ns = 0;
    let n = 1 + below_usize(4);
    let shared = chance(1, 2);
    let mut inputs: Vec<(Drawing, Format, Vec<u8>)> = vec![];
    for i in 0..if shared { 1 } else { n + 1 } {
        let d = build(some_shape())?;
        let f = gen_format();
        let Ok(b) = save_vec(&d, f)? else { return Ok(()) };
        let b = if chance(1, 4) { crate::damage::damage(b, f, 1) } else { b };
        world().disk.put(&format!("/dxfsim/in{}", i), b.clone());
        inputs.push((d, f, b));
    }
    let gen_ctx = |i: usize, jobs: &[Job]| {
        let k = if shared { 0 } else { i };
        let (d, f, b) = &inputs[k];
        Ctx {
            job: pick(jobs), d, f: *f, b, rp: ReadPlan::gen(b.len()), wp: WritePlan::gen(b.len()),
            path: format!("/dxfsim/in{}", k), nested: None, nest_at: 0, seed: subseed(),
        }
    };
    let all = [Job::LoadSlice, Job::LoadReader, Job::LoadReader, Job::LoadFile, Job::SaveWriter, Job::SaveWriter, Job::SaveFile, Job::New, Job::Edit];
    let mut ctxs: Vec<Ctx> = vec![];
    for i in 0..n {
        let mut c = gen_ctx(i, &all);
        if shared && matches!(c.job, Job::SaveFile) {
            c.job = Job::SaveWriter; // to one file from two threads would be the caller's mistake
        }
        if matches!(c.job, Job::LoadReader | Job::SaveWriter) && chance(1, 2) {
            let mut inner = gen_ctx(if shared { 0 } else { n }, &[Job::LoadSlice, Job::SaveWriter, Job::New, Job::Edit]);
            inner.seed = c.seed;
            c.nested = Some(Box::new(inner));
            c.nest_at = pick(&[0u64, 1, 2, 5, 40]);
        }
        ctxs.push(c);
    }
    note(|| ctxs.iter().map(|c| format!("{:?}{} {:?} {} bytes", c.job, c.nested.as_ref().map(|n| format!("({:?} at call {})", n.job, c.nest_at)).unwrap_or_default(), c.f, c.b.len())).collect::<Vec<_>>().join(", "));
    let solo: Vec<Vec<String>> = ctxs
        .iter()
        .map(|c| {
            let alone = |c: &Ctx| {
                fresh(|| {
                    private_random(c.seed);
                    c.run(false)
                })
            };
            let mut v = alone(c)?;
            if let Some(n) = &c.nested {
                v.extend(alone(n)?);
            }
            Ok(v)
        })
        .collect::<Check<_>>()?;
    let mean = pick(&[3u64, 20, 100, 1000]);
    let tasks: Vec<Box<dyn FnOnce() -> Check<Vec<String>> + Send + '_>> = ctxs
        .iter()
        .map(|c| {
            Box::new(move || {
                private_random(c.seed);
                c.run(true)
            }) as Box<dyn FnOnce() -> Check<Vec<String>> + Send + '_>
        })
        .collect();
    let (together, switches) = sched::run(tasks, mean);
    if switches > 0 || ctxs.iter().any(|c| c.nested.is_some()) {
        nontrivial();
    }
    for (i, r) in together.into_iter().enumerate() {
        let r = r?;
        for (k, (a, b)) in solo[i].iter().zip(&r).enumerate() {
            if a != b {
                let at = first_diff(a.as_bytes(), b.as_bytes());
                return bad(
                    format!("{:?} influenced", ctxs[i].job),
                    format!("thread {} of {}, {:?}{}: alone {:?}, with the others {:?} ({} switches)", i, n, ctxs[i].job, if k > 0 { ", nested call" } else { "" }, around(a.as_bytes(), at), around(b.as_bytes(), at), switches),
                );
            }
        }
        ensure!(solo[i].len() >= r.len(), "nested call missing", "thread {}: {:?}", i, ctxs[i].job);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
// C14

struct Cost {
    calls: u64,
    bytes: u64,
    peak: u64,
    left: i64,
}
fn cost<R>(f: impl FnOnce() -> Check<R>) -> Check<(R, Cost)> {
    seam::alloc_reset(3 << 30, 500_000_000);
    let r = f();
    let c = Cost { calls: seam::ALLOC_CALLS.load(Relaxed), bytes: seam::ALLOC_BYTES.load(Relaxed), peak: seam::ALLOC_PEAK.load(Relaxed), left: seam::ALLOC_LIVE.load(Relaxed) as i64 };
    seam::alloc_reset(3 << 30, 500_000_000);
    Ok((r?, c))
}
/// Loads from a counting reader; the drawing, the cost, and the calls to the reader.
fn load_cost(b: &[u8]) -> Check<(DxfResult<Drawing>, Cost, u64, u64, u64)> {
    let mut r = SimReader::new(b, ReadPlan::plain());
    r.max_calls = 64 + 4 * b.len() as u64;
    let (l, c) = cost(|| load_from(&mut r))?;
    Ok((l, c, r.calls, r.after_end, r.pos as u64))
}
const PER_BYTE: u64 = 2000;
const FIXED: u64 = 4 << 20;
/// C14: what loading and saving take grows with the size of what is loaded and saved, and no faster.
pub fn c14() -> Check {
    let flavor = pick(&[Flavor::Plain, Flavor::Text]);
    let density = pick(&[20u64, 128, 256]);
    let ver = gen_version();
    let f = gen_format();
    let k = below_usize(n_kinds() - 2);
    let small = range(2, 12);
    let factor = pick(&[4u64, 8, 16]);
    note(|| format!("{} and {} times {}, version {:?} {:?}", small, small * factor, kind_name(k), ver, f));
    event(b'k', k as u64, small * factor);
    // the same item many times, as a file may have it
    let thumbnail = chance(1, 4);
    let item_seed = lib("building a drawing", || {
        let mut d = Drawing::new();
        d.header.version = ver;
        add_kind(&mut d, k, flavor, density, 1);
        d
    })?;
    let many = |n: u64| -> Check<Drawing> {
        lib("building a drawing", || {
            let mut d = Drawing::new();
            d.header.version = ver;
            if thumbnail {
                d.thumbnail = Some(image::DynamicImage::ImageRgb8(image::RgbImage::from_fn(64, 4 * n as u32, |x, y| image::Rgb([x as u8, y as u8, (x ^ y) as u8]))));
            }
            for i in 0..n {
                for e in item_seed.entities() {
                    d.add_entity(e.clone());
                }
                for o in item_seed.objects() {
                    d.add_object(o.clone());
                }
                for b in item_seed.blocks() {
                    let mut b = b.clone();
                    b.name = format!("{}{}", b.name, i);
                    d.add_block(b);
                }
                if kind_name(k).starts_with("T:") {
                    for x in item_seed.layers().skip(1) {
                        d.add_layer(dxf::tables::Layer { name: format!("{}{}", x.name, i), ..x.clone() });
                    }
                    for x in item_seed.line_types().skip(3) {
                        d.add_line_type(dxf::tables::LineType { name: format!("{}{}", x.name, i), ..x.clone() });
                    }
                    for x in item_seed.styles().skip(2) {
                        d.add_style(dxf::tables::Style { name: format!("{}{}", x.name, i), ..x.clone() });
                    }
                }
            }
            d
        })
    };
    let measure = |n: u64| -> Check<Option<(u64, Cost, Cost)>> {
        let d = many(n)?;
        let (s, sc) = cost(|| save_vec(&d, f))?;
        let Ok(b) = s else { return Ok(None) };
        let (l, lc, calls, after, read) = load_cost(&b)?;
        let Ok(l) = l else { return Ok(None) };
        drop(l);
        ensure!(after <= 8, "reads after the end", "{} reads after the reader had said that it is at its end", after);
        ensure!(calls <= b.len() as u64 + 64, "reads", "{} reads for {} bytes", calls, b.len());
        ensure!(read == b.len() as u64 || f != Format::Text, "file not read to its end", "{} of {} bytes read", read, b.len());
        Ok(Some((b.len() as u64, sc, lc)))
    };
    let (Some((b1, s1, l1)), Some((b2, s2, l2))) = (measure(small)?, measure(small * factor)?) else { return Ok(()) };
    nontrivial();
    for (what, c1, c2) in [("save", &s1, &s2), ("load", &l1, &l2)] {
        ensure!(c2.peak <= FIXED + PER_BYTE * b2, format!("memory of a {}", what), "{} of {} bytes took {} bytes of memory", what, b2, c2.peak);
        // growing the input `factor` times may grow the cost that many times, and half as much again for the growth of buffers
        ensure!(2 * c2.peak <= 3 * factor * c1.peak + (1 << 20), format!("memory of a {} grows faster than its input", what), "{} of {} bytes took {} bytes of memory, of {} bytes {}", what, b1, c1.peak, b2, c2.peak);
        ensure!(2 * c2.calls <= 3 * factor * c1.calls + 4000, format!("work of a {} grows faster than its input", what), "{} of {} bytes took {} allocations, of {} bytes {}", what, b1, c1.calls, b2, c2.calls);
        ensure!(2 * c2.bytes <= 3 * factor * c1.bytes + (1 << 20), format!("work of a {} grows faster than its input", what), "{} of {} bytes allocated {} bytes in all, of {} bytes {}", what, b1, c1.bytes, b2, c2.bytes);
    }
    // what a load took is given back with the drawing, however often it is repeated and whatever names the files have
    let rounds = pick(&[3u64, 8, 16]);
    let renamed = chance(1, 2);
    let mut files = Vec::new();
    for i in 0..=rounds {
        let mut d = many(small)?;
        if renamed && i > 0 {
            lib("building a drawing", || {
                for (j, e) in d.entities_mut().enumerate() {
                    e.common.layer = format!("LAYER OF FILE {:04} {:04}", i, j);
                }
                for (j, e) in d.blocks_mut().enumerate() {
                    e.name = format!("BLOCK OF FILE {:04} {:04}", i, j);
                }
                d.header.project_name = format!("PROJECT OF FILE {:04}", i);
            })?;
        }
        let Ok(b) = save_vec(&d, f)? else { return Ok(()) };
        files.push(b);
    }
    let round = |b: &[u8]| -> Check {
        let r = load_slice(b)?;
        if let Ok(d) = r {
            drop(save_vec(&d, f)?);
        }
        Ok(())
    };
    round(&files[0])?;
    round(&files[1])?;
    let (_, c) = cost(|| files[1..].iter().try_for_each(|b| round(b)))?;
    ensure!(c.left <= 4096, "memory kept", "{} bytes of memory are not given back after {} loads and saves", c.left, rounds);
    let b = files.swap_remove(0);
    // counts in the file are only claims
    if chance(1, 2) {
        let b = crate::damage::inflate(b, f);
        let (r, c, ..) = load_cost(&b)?;
        fault(Fault::StoredValueReplaced);
        ensure!(c.peak <= FIXED + PER_BYTE * b.len() as u64, "memory of a load with inflated counts", "{} bytes took {} bytes of memory ({})", b.len(), c.peak, if r.is_ok() { "loaded" } else { "refused" });
    }
    Ok(())
}

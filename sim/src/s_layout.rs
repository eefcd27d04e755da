//! C19: what a text file says decides what is loaded, not how it is laid out.
use crate::choice::{below, below_usize, chance, pick, range, subseed};
use crate::damage::{join, lines};
use crate::engine::{lib, nontrivial, note, probe, Check};
use crate::ensure;
use crate::gen::Flavor;
use crate::io::{ReadPlan, SimReader};
use crate::s_io::{diff_text, freeze};
use crate::sched::fresh;
use crate::seam::{event, fault, world, DiskPlan, Fault};
use crate::workload::*;
use dxf::enums::AcadVersion;
use dxf::{Drawing, DxfResult};
use serde_json::Value;

type Pair = (Vec<u8>, Vec<u8>);
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Str,
    Double,
    Short,
    Int,
    Long,
    Hex,
}
fn ty(code: i32) -> Ty {
    match code {
        10..=59 | 110..=149 | 210..=239 | 460..=469 | 1010..=1059 => Ty::Double,
        60..=79 | 170..=179 | 270..=289 | 290..=299 | 370..=389 | 400..=409 | 1060..=1070 => Ty::Short,
        90..=99 | 420..=429 | 440..=459 | 1071 => Ty::Int,
        160..=169 => Ty::Long,
        310..=319 => Ty::Hex,
        _ => Ty::Str,
    }
}
fn code_of(p: &Pair) -> i32 {
    std::str::from_utf8(&p.0).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(-1)
}
fn name_of(p: &Pair) -> String {
    String::from_utf8_lossy(&p.1).into_owned()
}
fn is(p: &Pair, code: i32, v: &str) -> bool {
    code_of(p) == code && p.1 == v.as_bytes()
}
fn pair(code: i32, v: &str) -> Pair {
    (code.to_string().into_bytes(), v.as_bytes().to_vec())
}
/// The same number, written in another way.
fn respell(code: i32, v: &[u8]) -> Vec<u8> {
    let Ok(s) = std::str::from_utf8(v) else { return v.to_vec() };
    let t = s.trim();
    let negative = t.starts_with('-');
    let digits = !t.is_empty() && t.trim_start_matches('-').bytes().all(|c| c.is_ascii_digit());
    let zeros = |t: &str| if negative { format!("-00{}", &t[1..]) } else { format!("00{}", t) };
    let out = match ty(code) {
        Ty::Double => {
            let Ok(x) = t.parse::<f64>() else { return v.to_vec() };
            if !x.is_finite() {
                return v.to_vec();
            }
            match below(7) {
                0 => format!("{:e}", x),
                1 => format!("{:E}", x),
                2 if t.contains('.') && !t.contains(['e', 'E']) => format!("{}00", t),
                3 if !negative => format!("+{}", t),
                4 => zeros(t),
                5 if t.ends_with(".0") => t[..t.len() - 2].to_string(),
                6 if t.ends_with(".0") => t[..t.len() - 1].to_string(),
                _ => format!("{:?}", x),
            }
        }
        Ty::Short if digits => match below(4) {
            0 => format!("{}.0", t),
            1 if !negative => format!("+{}", t),
            2 => format!("{}.", t),
            _ => zeros(t),
        },
        Ty::Int | Ty::Long if digits => match below(2) {
            0 if !negative => format!("+{}", t),
            _ => zeros(t),
        },
        Ty::Hex => t.to_ascii_lowercase(),
        _ => return v.to_vec(),
    };
    out.into_bytes()
}
/// The same characters, with the numbers of the escaped ones in lower case.
fn respell_escapes(v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    let mut i = 0;
    while i + 7 <= v.len() {
        if v[i..].starts_with(b"\\U+") && v[i + 3..i + 7].iter().all(u8::is_ascii_hexdigit) {
            v[i + 3..i + 7].make_ascii_lowercase();
            i += 7;
        } else {
            i += 1;
        }
    }
    v
}
fn blanks(v: &[u8]) -> Vec<u8> {
    let mut x = vec![b' '; below_usize(4)];
    if chance(1, 8) {
        x.push(b'\t');
    }
    x.extend_from_slice(v);
    x.extend(std::iter::repeat(b' ').take(below_usize(3)));
    x
}
/// A few pairs that belong to something unknown.
fn filler(out: &mut Vec<Pair>, plain: bool) {
    for _ in 0..below(6) {
        out.push(match below(9) {
            0 => pair(1, "unknown"),
            1 => pair(40, "1.25"),
            2 => pair(70, "7"),
            3 => pair(10, "-3.5"),
            4 if !plain => pair(5, "FFFFF"),
            5 => pair(310, "00FF"),
            6 if !plain => pair(100, "AcDbUnknown"),
            7 => pair(290, "1"),
            _ => pair(8, "nowhere"),
        });
    }
}
/// Inserts things the library does not know, between the things of a file.
fn strangers(v: &mut Vec<Pair>) {
    // places: in front of pair `i`, and what may go there
    #[derive(Clone, Copy)]
    enum Place {
        Section,
        Variable,
        Table,
        Entity,
        Object,
    }
    let mut places: Vec<(usize, Place)> = vec![];
    let mut section = String::new();
    let mut last = String::new();
    let mut in_block = false;
    for i in 0..v.len() {
        let p = &v[i];
        let c = code_of(p);
        if c == 0 {
            let n = name_of(p);
            match n.as_str() {
                // there are entities of that name, too
                "SECTION" if section.is_empty() => {
                    places.push((i, Place::Section));
                    section = v.get(i + 1).map(name_of).unwrap_or_default();
                    in_block = false;
                }
                "EOF" if section.is_empty() => places.push((i, Place::Section)),
                _ => match section.as_str() {
                    "TABLES" if n == "TABLE" || n == "ENDSEC" => places.push((i, Place::Table)),
                    "OBJECTS" => places.push((i, Place::Object)),
                    "ENTITIES" | "BLOCKS" => {
                        let part = matches!(n.as_str(), "ATTRIB" | "VERTEX" | "SEQEND" | "MTEXT");
                        let whole = matches!(last.as_str(), "ATTRIB" | "ATTDEF" | "POLYLINE" | "VERTEX" | "INSERT");
                        if !part && !whole && (section == "ENTITIES" || in_block) {
                            places.push((i, Place::Entity));
                        }
                        if section == "BLOCKS" {
                            in_block = match n.as_str() {
                                "BLOCK" => true,
                                "ENDBLK" | "ENDSEC" => false,
                                _ => in_block,
                            };
                        }
                    }
                    _ => {}
                },
            }
            if section == "HEADER" && n == "ENDSEC" {
                places.push((i, Place::Variable));
            }
            if n == "ENDSEC" {
                section.clear();
            }
            last = n;
        } else if c == 9 && section == "HEADER" {
            places.push((i, Place::Variable));
        }
    }
    let mut at: Vec<(usize, Place)> = (0..range(1, 4)).filter_map(|_| places.get(below_usize(places.len().max(1))).copied()).collect();
    at.sort_by_key(|x| std::cmp::Reverse(x.0));
    for (i, p) in at {
        let mut x = vec![];
        match p {
            Place::Section => {
                x.extend([pair(0, "SECTION"), pair(2, pick(&["XYZZY", "ACDSDATA", "unknown section"]))]);
                for _ in 0..below(3) {
                    x.push(pair(0, pick(&["XYZZY", "LINE", "LAYER", "TABLE"])));
                    filler(&mut x, false);
                }
                x.push(pair(0, "ENDSEC"));
            }
            Place::Variable => {
                x.push(pair(9, pick(&["$XYZZY", "$ACADVERX", "$"])));
                x.push(match below(4) {
                    0 => pair(40, "2.5"),
                    1 => pair(70, "3"),
                    2 => pair(1, "unknown"),
                    _ => pair(10, "1.0"),
                });
            }
            Place::Table => {
                x.extend([pair(0, "TABLE"), pair(2, "XYZZY")]);
                filler(&mut x, false);
                for _ in 0..below(3) {
                    x.push(pair(0, "XYZZY"));
                    filler(&mut x, false);
                }
                x.push(pair(0, "ENDTAB"));
            }
            Place::Entity => {
                x.push(pair(0, pick(&["XYZZY", "ACAD_STRANGER", "LINEX"])));
                filler(&mut x, false);
            }
            Place::Object => {
                x.push(pair(0, pick(&["XYZZY", "ACDBSTRANGER", "DICTIONARYX"])));
                filler(&mut x, false);
            }
        }
        v.splice(i..i, x);
    }
}
fn comments(v: &mut Vec<Pair>) {
    for _ in 0..range(1, 12) {
        let i = below_usize(v.len() + 1);
        let n = if chance(1, 8) { pick(&[2usize, 4, 10, 40, 100]) } else { 1 };
        let c = pair(999, pick(&["a comment", "", "0", "EOF", "ENDSEC", "SECTION", " ", "}", "1e5", "caf\u{e9}"]));
        v.splice(i..i, std::iter::repeat(c).take(n));
    }
}
/// A text file with things in it that the library does not know.
pub fn foreign(b: Vec<u8>) -> Vec<u8> {
    let v = lines(&b);
    let mut v: Vec<Pair> = v.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0].clone(), c[1].clone())).collect();
    strangers(&mut v);
    if chance(1, 3) {
        comments(&mut v);
    }
    let flat: Vec<Vec<u8>> = v.into_iter().flat_map(|p| [p.0, p.1]).collect();
    join(&flat, b"\r\n")
}
fn without_offsets(v: &mut Value) {
    match v {
        Value::Object(m) => {
            if m.contains_key("code") && m.contains_key("value") {
                m.remove("offset");
            }
            m.values_mut().for_each(without_offsets);
        }
        Value::Array(a) => a.iter_mut().for_each(without_offsets),
        _ => {}
    }
}
fn view(r: &DxfResult<Drawing>) -> String {
    let _q = crate::seam::Quiet::new();
    match r {
        Ok(d) => {
            let mut v = snapshot(d);
            without_offsets(&mut v);
            format!("{}\n{:?}", v, d.header)
        }
        Err(e) => format!("refused: {:?}", e),
    }
}
/// C19: the layout of a text file, and what it holds besides, make no difference.
pub fn c19() -> Check {
    let flavor = pick(&[Flavor::Plain, Flavor::Text]);
    let d = build(Shape { flavor, max_items: 8 })?;
    let Ok(b) = save_vec(&d, Format::Text)? else { return Ok(()) };
    freeze();
    let want = load_slice(&b)?;
    if want.is_err() {
        probe("the plain file is refused");
        return Ok(());
    }
    let want = view(&want);
    for _ in 0..range(1, 2) {
        let v = lines(&b);
        let mut v: Vec<Pair> = v.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0].clone(), c[1].clone())).collect();
        let mask = 1 + below(255);
        let mut what = vec![];
        if mask & 1 != 0 {
            strangers(&mut v);
            what.push("strangers");
        }
        if mask & 2 != 0 {
            let p = pick(&[8u64, 64, 255]);
            let mut prev0 = false;
            let escapes = d.header.version < AcadVersion::R2007;
            for x in v.iter_mut() {
                let c = code_of(x);
                if chance(p, 256) {
                    x.1 = match ty(c) {
                        _ if c == 5 && prev0 => x.1.to_ascii_lowercase(),
                        Ty::Str if escapes => respell_escapes(&x.1),
                        _ => respell(c, &x.1),
                    };
                }
                prev0 = c == 0;
            }
            what.push("numbers");
        }
        if mask & 4 != 0 {
            let p = pick(&[8u64, 64, 255]);
            for x in v.iter_mut() {
                let c = code_of(x);
                if chance(p, 256) {
                    x.0 = blanks(&x.0);
                }
                if !matches!(ty(c), Ty::Str | Ty::Hex) && chance(p, 256) {
                    x.1 = blanks(&x.1);
                }
            }
            what.push("blanks");
        }
        if mask & 8 != 0 {
            comments(&mut v);
            what.push("comments");
        }
        let flat: Vec<Vec<u8>> = v.into_iter().flat_map(|p| [p.0, p.1]).collect();
        let mut x = vec![];
        if mask & 16 != 0 {
            x.extend_from_slice(&[0xEF, 0xBB, 0xBF]);
            what.push("byte order mark");
        }
        match (mask >> 5) & 3 {
            0 | 1 => x.extend(join(&flat, b"\r\n")),
            2 => {
                x.extend(join(&flat, b"\n"));
                what.push("LF");
            }
            _ => {
                for l in &flat {
                    x.extend_from_slice(l);
                    x.extend_from_slice(if chance(1, 2) { b"\n" } else { b"\r\n" });
                }
                what.push("mixed line ends");
            }
        }
        if mask & 128 != 0 {
            while matches!(x.last(), Some(b'\n' | b'\r')) {
                x.pop();
            }
            what.push("no last line end");
        }
        fault(Fault::StoredRelaid);
        event(b'l', mask, x.len() as u64);
        note(|| format!("laid out anew: {}", what.join(", ")));
        nontrivial();
        let got = if chance(2, 3) {
            let plan = ReadPlan::gen(x.len());
            let mut r = SimReader::new(&x, plan);
            freeze();
            load_from(&mut r)?
        } else {
            let p = "/dxfsim/other.dxf";
            world().disk.put(p, x.clone());
            world().disk.set_plan(DiskPlan { max_chunk: pick(&[0usize, 1, 100]), p_short: pick(&[0u64, 120]), p_intr: pick(&[0u64, 60]), seed: subseed(), ..Default::default() });
            fault(Fault::Restart);
            fresh(|| {
                freeze();
                lib("load_file", || Drawing::load_file(p))
            })?
        };
        let got = view(&got);
        ensure!(got == want, "layout changed the result", "{}: {}", what.join(", "), diff_text(&want, &got));
    }
    Ok(())
}

//! C01 to C06: streams, files, and what happens when they fail.
use crate::choice::{below, chance, pick, range, subseed};
use crate::engine::{bad, lib, nontrivial, note, probe, Check};
use crate::ensure;
use crate::gen::Flavor;
use crate::io::*;
use crate::seam::{event, fault, world, DiskPlan, Fault};
use crate::workload::*;
use dxf::enums::AcadVersion;
use dxf::{Drawing, DxfError};
use std::io::ErrorKind;

fn shape() -> Shape {
    Shape { flavor: if chance(1, 2) { Flavor::Text } else { Flavor::Plain }, max_items: pick(&[2u64, 6, 12]) }
}
/// A drawing, the format to save it in, and the bytes an undisturbed save produces.
fn drawing_and_bytes() -> Check<Option<(Drawing, Format, Vec<u8>)>> {
    let f = gen_format();
    let d = if f == Format::Dxb && chance(3, 4) { crate::s_more::dxb_drawing()? } else { build(shape())? };
    note(|| format!("drawing: version {:?}, {} entities, {} objects, {} blocks; format {:?}", d.header.version,
        d.entities().count(), d.objects().count(), d.blocks().count(), f));
    match save_vec(&d, f)? {
        Ok(b) => Ok(Some((d, f, b))),
        Err(_) => {
            probe("undisturbed save refused");
            Ok(None)
        }
    }
}
fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}

// ---------------------------------------------------------------------------------------------------
/// C01: whatever pieces the writer takes the bytes in, an acknowledged save delivered exactly the whole file.
pub fn c01() -> Check {
    let Some((d, f, want)) = drawing_and_bytes()? else { return Ok(()) };
    if below(4) < 3 {
        let plan = WritePlan::gen(want.len());
        note(|| format!("writer: {:?}", plan));
        let mut w = SimWriter::new(plan);
        let twice = chance(1, 8);
        let r = lib("save", || save(&d, f, &mut w))?;
        if w.shorts + w.intrs > 0 {
            nontrivial();
        }
        if w.intrs > 0 { probe("interrupted write"); }
        if w.shorts > 0 { probe("short write"); }
        ensure!(r.is_ok(), "healthy writer refused", "a save to a writer that only takes short writes and interruptions failed: {:?}", r);
        ensure!(w.data == want, "bytes differ", "{} bytes delivered, {} expected, first difference at {}", w.data.len(), want.len(), first_diff(&w.data, &want));
        if twice {
            // the same writer again: the second copy follows the first one
            let r = lib("save", || save(&d, f, &mut w))?;
            ensure!(r.is_ok(), "healthy writer refused", "the second save failed: {:?}", r);
            ensure!(w.data[want.len()..] == want[..], "bytes differ", "the second save to the same writer delivered something else");
        }
    } else {
        let p = "/dxfsim/out.dxf";
        let plan = DiskPlan { max_chunk: pick(&[0usize, 1, 7, 100, 4096]), p_short: pick(&[0u64, 60, 200]), p_intr: pick(&[0u64, 40, 120]), seed: subseed(), ..Default::default() };
        note(|| format!("file: chunk {}, short {}, interrupted {}", plan.max_chunk, plan.p_short, plan.p_intr));
        if plan.max_chunk > 0 || plan.p_short > 0 || plan.p_intr > 0 {
            nontrivial();
        }
        if chance(1, 2) {
            let n = below(2 * want.len() as u64 + 10) as usize;
            world().disk.put(p, vec![b'#'; n]);
        }
        world().disk.set_plan(plan);
        let r = lib("save_file", || save_file(&d, f, p))?;
        ensure!(r.is_ok(), "healthy disk refused", "a save to a healthy disk failed: {:?}", r);
        let got = world().disk.get(p);
        ensure!(got.as_deref() == Some(&want[..]), "bytes differ", "the file holds {:?} bytes, {} expected, first difference at {:?}", got.as_ref().map(|g| g.len()), want.len(), got.as_ref().map(|g| first_diff(g, &want)));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
fn io_kind(e: &DxfError) -> Option<ErrorKind> {
    match e {
        DxfError::IoError(e) => Some(e.kind()),
        _ => None,
    }
}
/// C02: a writer that fails is reported, what it took is a prefix of the file, and a retry delivers the whole.
pub fn c02() -> Check {
    let Some((d, f, want)) = drawing_and_bytes()? else { return Ok(()) };
    let before = canonical(&d);
    for _ in 0..1 + below(4) {
        let mut plan = WritePlan::gen(want.len());
        let at = gen_offset(want.len());
        let kind = if chance(1, 6) { None } else { Some(gen_hard()) };
        plan.error = Some((at, kind, gen_sticky()));
        note(|| format!("writer: {:?}", plan));
        let mut w = SimWriter::new(plan);
        let r = lib("save", || save(&d, f, &mut w))?;
        let errors = w.errors;
        if errors > 0 {
            nontrivial();
            if at == 0 { probe("error before the first byte"); }
            if at + 1 == want.len() { probe("error before the last byte"); }
            let expect = kind.unwrap_or(ErrorKind::WriteZero);
            match &r {
                Ok(()) => return bad("failed write acknowledged", format!("the writer failed after {} of {} bytes ({:?}), the save returned Ok", at, want.len(), expect)),
                Err(e) => match io_kind(e) {
                    Some(k) => ensure!(k == expect, "wrong error", "the writer failed with {:?}, the save with {:?}", expect, e),
                    None => return bad("wrong error", format!("the writer failed with {:?}, the save with {:?}", expect, e)),
                },
            }
        } else {
            ensure!(r.is_ok(), "healthy writer refused", "no fault was injected, the save failed: {:?}", r);
            ensure!(w.data == want, "bytes differ", "Ok with {} of {} bytes", w.data.len(), want.len());
        }
        ensure!(want.starts_with(&w.data), "not a prefix", "after a failure at {} the writer holds {} bytes that are not a prefix of the file (first difference at {})", at, w.data.len(), first_diff(&w.data, &want));
        fault(Fault::RetryAfterFault);
        let again = save_vec(&d, f)?;
        match again {
            Ok(b) => ensure!(b == want, "retry differs", "the retry wrote {} bytes, {} expected", b.len(), want.len()),
            Err(e) => return bad("retry refused", format!("the retry on a healthy writer failed: {:?}", e)),
        }
    }
    ensure!(canonical(&d) == before, "drawing changed", "a failed save changed the drawing");
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
/// C03: a file save is acknowledged only when the whole file is on the disk.
pub fn c03() -> Check {
    let Some((d, f, want)) = drawing_and_bytes()? else { return Ok(()) };
    let p = "/dxfsim/dir/out.dxf";
    let old = match below(4) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(want.clone()),
        _ => Some(vec![b'#'; range(1, 3 * want.len() as u64 + 5) as usize]),
    };
    if let Some(o) = &old {
        world().disk.put(p, o.clone());
    }
    for attempt in 0..1 + below(3) {
        let mut plan = DiskPlan { max_chunk: pick(&[0usize, 0, 1000, 4096, 333]), p_short: pick(&[0u64, 0, 60]), p_intr: pick(&[0u64, 0, 40]), seed: subseed(), ..Default::default() };
        match below(6) {
            0 => (),
            1 => {
                // full disk: mostly so that only the very end does not fit
                let used: usize = if old.is_some() && attempt == 0 { 0 } else { 0 };
                let cap = if chance(1, 2) { want.len().saturating_sub(range(1, 200) as usize) } else { gen_offset(want.len()) };
                plan.capacity = Some(used + cap);
            }
            2 => {
                plan.fail_kind = 1;
                let e = pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::ENODEV]);
                // the number of write calls is about the size over the buffer size
                let calls = (want.len() / 8192 + 2) as u64;
                plan.fail_at = Some((below(calls), e, chance(1, 2)));
            }
            3 => {
                plan.fail_kind = 3;
                plan.fail_at = Some((0, pick(&[libc::EACCES, libc::ENOENT, libc::EMFILE, libc::EROFS, libc::ENOSPC]), chance(1, 2)));
            }
            4 => {
                plan.fail_kind = 1;
                plan.max_chunk = pick(&[512usize, 1000, 4096]);
                let calls = (want.len() / plan.max_chunk + 2) as u64;
                plan.fail_at = Some((below(calls), libc::EIO, true));
            }
            _ => {
                plan.fail_kind = 0;
                plan.fail_at = Some((below(want.len() as u64 / 8192 + 4), libc::EIO, chance(1, 2)));
            }
        }
        note(|| format!("disk: capacity {:?}, failing operation {:?} (kind {}), chunk {}", plan.capacity, plan.fail_at, plan.fail_kind, plan.max_chunk));
        world().disk.set_plan(plan);
        let r = lib("save_file", || save_file(&d, f, p))?;
        let hard = world().disk.hard_errors;
        let open = world().disk.open_fds();
        ensure!(open == 0, "file left open", "{} files are still open after the save", open);
        if hard > 0 {
            nontrivial();
        }
        let got = world().disk.get(p);
        match &r {
            Ok(()) => {
                ensure!(got.as_deref() == Some(&want[..]), "acknowledged but not stored", "the save returned Ok with {} disk errors, but the file holds {:?} of {} bytes (first difference at {:?})", hard, got.as_ref().map(|g| g.len()), want.len(), got.as_ref().map(|g| first_diff(g, &want)));
            }
            Err(e) => {
                ensure!(hard > 0, "healthy disk refused", "the disk is healthy, the save failed: {:?}", e);
                ensure!(io_kind(e).is_some(), "wrong error", "the disk failed, the save reported {:?}", e);
                probe("failed file save reported");
            }
        }
    }
    world().disk.set_plan(DiskPlan::default());
    fault(Fault::RetryAfterFault);
    let r = lib("save_file", || save_file(&d, f, p))?;
    ensure!(r.is_ok(), "retry refused", "the retry on a healthy disk failed: {:?}", r);
    let got = world().disk.get(p);
    ensure!(got.as_deref() == Some(&want[..]), "retry differs", "after a retry the file holds {:?} bytes, {} expected", got.as_ref().map(|g| g.len()), want.len());
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
fn sim_result(r: &dxf::DxfResult<Drawing>) -> String {
    match r {
        Ok(d) => canonical(d),
        Err(e) => format!("Err({:?})", e),
    }
}
/// Values a file does not carry are filled in from the clock and the random source: both stand still while loads are compared.
pub fn freeze() {
    let w = world();
    w.tick_ns = 0;
    w.now_ns = crate::seam::BASE_NS;
    w.rng = crate::choice::Rng::new(7);
}
fn brief(s: &str) -> String {
    s.chars().take(160).collect()
}
/// Bytes to load: a saved drawing, sometimes as another program would have written it, sometimes damaged.
pub fn gen_input() -> Check<Option<(Vec<u8>, Format)>> {
    let Some((_, f, mut b)) = drawing_and_bytes()? else { return Ok(None) };
    if f == Format::Text {
        if chance(1, 4) {
            b = crate::s_layout::foreign(b);
        }
        b = crate::damage::restyle(b);
    }
    if chance(1, 5) {
        b = crate::damage::damage(b, f, 1);
    }
    Ok(Some((b, f)))
}
const ENCODINGS: &[&encoding_rs::Encoding] = &[
    encoding_rs::WINDOWS_1252, encoding_rs::UTF_8, encoding_rs::SHIFT_JIS, encoding_rs::GB18030, encoding_rs::EUC_KR, encoding_rs::WINDOWS_1251, encoding_rs::BIG5,
];
/// C04: what a load returns depends on the bytes only, not on how they arrive.
pub fn c04() -> Check {
    let Some((b, f)) = gen_input()? else { return Ok(()) };
    let enc = if chance(1, 3) { pick(ENCODINGS) } else { encoding_rs::WINDOWS_1252 };
    let default_enc = enc == encoding_rs::WINDOWS_1252 && chance(1, 2);
    freeze();
    let want = lib("load", || {
        let mut c = std::io::Cursor::new(&b[..]);
        if default_enc { Drawing::load(&mut c) } else { Drawing::load_with_encoding(&mut c, enc) }
    })?;
    let want_ok = want.is_ok();
    let want = sim_result(&want);
    if want_ok { probe("reference load ok"); } else { probe("reference load refused"); }
    for _ in 0..1 + below(3) {
        if below(4) < 3 {
            let plan = ReadPlan::gen(b.len());
            note(|| format!("{} bytes of {:?}, reader: {:?}", b.len(), f, plan));
            let mut r = SimReader::new(&b, plan);
            freeze();
            let got = lib("load", || {
                if default_enc { Drawing::load(&mut r) } else { Drawing::load_with_encoding(&mut r, enc) }
            })?;
            if r.shorts + r.intrs > 0 {
                nontrivial();
            }
            let got = sim_result(&got);
            ensure!(got == want, "delivery changed the result", "undisturbed: {} ... in pieces: {}", brief(&want), diff_text(&want, &got));
        } else {
            let p = "/dxfsim/in.dxf";
            world().disk.put(p, b.clone());
            let plan = DiskPlan { max_chunk: pick(&[0usize, 1, 7, 100, 4096]), p_short: pick(&[0u64, 60, 200]), p_intr: pick(&[0u64, 40, 120]), seed: subseed(), ..Default::default() };
            note(|| format!("{} bytes of {:?} from a file: chunk {}, short {}, interrupted {}", b.len(), f, plan.max_chunk, plan.p_short, plan.p_intr));
            if plan.max_chunk > 0 || plan.p_short > 0 || plan.p_intr > 0 {
                nontrivial();
            }
            world().disk.set_plan(plan);
            freeze();
            let got = lib("load_file", || {
                if default_enc { Drawing::load_file(p) } else { Drawing::load_file_with_encoding(p, enc) }
            })?;
            let open = world().disk.open_fds();
            ensure!(open == 0, "file left open", "{} files are still open after the load", open);
            let got = sim_result(&got);
            ensure!(got == want, "delivery changed the result", "from memory: {} ... from a file: {}", brief(&want), diff_text(&want, &got));
        }
    }
    Ok(())
}
pub fn diff_text(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| -> String {
        let lo = s.char_indices().map(|x| x.0).filter(|&x| x <= i.saturating_sub(60)).last().unwrap_or(0);
        s[lo..].chars().take(140).collect()
    };
    format!("...{} <> ...{}", cut(a), cut(b))
}

// ---------------------------------------------------------------------------------------------------
/// C05: a reader that fails makes the load fail with that error; its failure is never taken for data or for the end.
pub fn c05() -> Check {
    let Some((b, f)) = gen_input()? else { return Ok(()) };
    freeze();
    let want = sim_result(&load_slice(&b)?);
    for _ in 0..1 + below(4) {
        if below(4) < 3 {
            let mut plan = ReadPlan::gen(b.len());
            let at = gen_offset(b.len());
            let kind = gen_hard();
            plan.error = Some((at, kind, gen_sticky()));
            note(|| format!("{} bytes of {:?}, reader: {:?}", b.len(), f, plan));
            let mut r = SimReader::new(&b, plan);
            freeze();
            let got = load_from(&mut r)?;
            if r.errors > 0 {
                nontrivial();
                if at < 22 { probe("error within the prelude"); }
                if at == b.len() { probe("error instead of end of input"); }
                match &got {
                    Ok(_) => return bad("failed read taken for data", format!("the reader failed at byte {} of {} with {:?}, the load returned a drawing", at, b.len(), kind)),
                    Err(e) if kind == ErrorKind::UnexpectedEof => {
                        let _ = e;
                    }
                    Err(e) => ensure!(io_kind(e) == Some(kind), "wrong error", "the reader failed at byte {} with {:?}, the load with {:?}", at, kind, e),
                }
            } else {
                // the load never got to the fault: it must be as if there were none
                let got = sim_result(&got);
                ensure!(got == want, "delivery changed the result", "{}", diff_text(&want, &got));
            }
        } else {
            let p = "/dxfsim/in.dxf";
            world().disk.put(p, b.clone());
            let e = pick(&[libc::EIO, libc::EACCES, libc::EISDIR, libc::ENOENT, libc::EMFILE, libc::ETIMEDOUT]);
            let kinds = pick(&[2u8, 2, 3]);
            let at = if kinds == 3 { 0 } else { below(b.len() as u64 / 8192 + 3) };
            let sticky = chance(1, 2);
            world().disk.set_plan(DiskPlan { fail_kind: kinds, fail_at: Some((at, e, sticky)), max_chunk: pick(&[0usize, 0, 100, 1000]), seed: subseed(), ..Default::default() });
            note(|| format!("{} bytes of {:?} from a file; operation {} of kind {} fails with errno {}", b.len(), f, at, kinds, e));
            freeze();
            let got = lib("load_file", || Drawing::load_file(p))?;
            ensure!(world().disk.open_fds() == 0, "file left open", "a file is still open after the load");
            let kind = std::io::Error::from_raw_os_error(e).kind();
            if world().disk.hard_errors > 0 {
                nontrivial();
                match &got {
                    Ok(_) => return bad("failed read taken for data", format!("file operation {} failed with {:?}, the load returned a drawing", at, kind)),
                    Err(x) => ensure!(io_kind(x) == Some(kind), "wrong error", "the disk failed with {:?}, the load with {:?}", kind, x),
                }
            } else {
                let got = sim_result(&got);
                ensure!(got == want, "delivery changed the result", "{}", diff_text(&want, &got));
            }
        }
    }
    // a missing file
    world().disk.set_plan(DiskPlan::default());
    let got = lib("load_file", || Drawing::load_file("/dxfsim/no-such-file.dxf"))?;
    match got {
        Err(DxfError::IoError(e)) if e.kind() == ErrorKind::NotFound => (),
        r => return bad("missing file", format!("loading a missing file gave {}", brief(&sim_result(&r)))),
    }
    // after the faults are gone the same bytes load as before
    fault(Fault::RetryAfterFault);
    freeze();
    let got = sim_result(&load_slice(&b)?);
    ensure!(got == want, "retry differs", "{}", diff_text(&want, &got));
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
fn find_all(hay: &[u8], needle: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut i = 0;
    while i + needle.len() <= hay.len() {
        if &hay[i..i + needle.len()] == needle {
            v.push(i);
            i += needle.len();
        } else {
            i += 1;
        }
    }
    v
}
/// The sections of a file as the library writes it: where each one's first content may start, and where it is complete.
fn sections(b: &[u8], f: Format) -> Vec<(usize, usize)> {
    let (start, end): (&[u8], &[u8]) = match f {
        Format::Text => (b"  0\r\nSECTION\r\n", b"  0\r\nENDSEC\r\n"),
        Format::Binary => (b"SECTION\0", b"ENDSEC\0"),
        Format::Dxb => return vec![],
    };
    let s = find_all(b, start);
    let e = find_all(b, end);
    if s.len() != e.len() {
        return vec![];
    }
    s.iter().zip(&e).map(|(a, z)| (a + start.len(), z + end.len())).collect()
}
fn check_prefix(full: &[u8], secs: &[(usize, usize)], f: Format, cut: usize) -> Check {
    freeze();
    let got = load_slice(&full[..cut])?;
    if f == Format::Dxb {
        ensure!(got.is_err() || cut == full.len() || cut == 0, "torn file accepted", "a DXB file cut at {} of {} bytes loads", cut, full.len());
        return Ok(());
    }
    let k = secs.iter().filter(|s| s.1 <= cut).count();
    let slack = 2; // the line end after the last marker
    if let Some(s) = secs.get(k) {
        if cut > s.0 && cut + slack < s.1 {
            probe("cut inside a section");
            ensure!(got.is_err(), "torn file accepted", "a file cut at {} of {} bytes, inside its section {}, loads", cut, full.len(), k);
            return Ok(());
        }
    }
    probe("cut between sections");
    if let Ok(d) = got {
        probe("cut between sections loads");
        let one_more = secs.get(k).map_or(false, |s| cut + slack >= s.1);
        let mut fits = false;
        let mut last = String::new();
        for n in [k, k + 1] {
            if n == k + 1 && !one_more {
                break;
            }
            let mut whole = full[..if n == 0 { secs.first().map_or(cut, |s| s.0.min(cut)).min(cut) } else { secs[n - 1].1 }].to_vec();
            if n == 0 {
                whole = if f == Format::Text { vec![] } else { full[..full.len().min(22)].to_vec() };
            }
            freeze();
            let want = load_slice(&whole)?;
            let want = sim_result(&want);
            let have = canonical(&d);
            if want == have {
                fits = true;
                break;
            }
            last = diff_text(&want, &have);
        }
        ensure!(fits, "torn file altered the drawing", "a file cut at {} of {} bytes ({} whole sections) loads as something else than its whole sections: {}", cut, full.len(), k, last);
    }
    Ok(())
}
/// C06: a save that never finished is recognised, or loads as exactly the sections that are complete.
pub fn c06() -> Check {
    let Some((d, f, full)) = drawing_and_bytes()? else { return Ok(()) };
    let secs = sections(&full, f);
    if secs.is_empty() && f != Format::Dxb {
        return Ok(());
    }
    if below(3) < 2 {
        for _ in 0..1 + below(6) {
            let cut = if chance(1, 3) && !secs.is_empty() {
                // near a section boundary
                let s = secs[below(secs.len() as u64) as usize];
                let base = if chance(1, 2) { s.0 } else { s.1 };
                (base as i64 + range(0, 40) as i64 - 20).clamp(0, full.len() as i64) as usize
            } else {
                gen_offset(full.len())
            };
            note(|| format!("{:?} file of {} bytes cut at {}", f, full.len(), cut));
            fault(Fault::StoredTruncated);
            event(b'c', cut as u64, full.len() as u64);
            nontrivial();
            check_prefix(&full, &secs, f, cut)?;
        }
    } else {
        // a crash while the file is being written over an older one
        let p = "/dxfsim/out.dxf";
        let old: Option<Vec<u8>> = if chance(1, 2) { None } else { Some(vec![b'#'; below(2 * full.len() as u64 + 1) as usize]) };
        if let Some(o) = &old {
            world().disk.put(p, o.clone());
        }
        let chunk = pick(&[0usize, 100, 1000, 4096]);
        let ops = if chunk == 0 { full.len() as u64 / 8192 + 3 } else { full.len() as u64 / chunk as u64 + 3 };
        let plan = DiskPlan { max_chunk: chunk, crash_at: Some(below(ops)), torn: pick(&[256u64, 0, 1, 77, 128, 255]), seed: subseed(), ..Default::default() };
        note(|| format!("crash at disk operation {:?} (torn {}/256) of a {:?} save of {} bytes", plan.crash_at, plan.torn, f, full.len()));
        world().disk.set_plan(plan);
        let r = lib("save_file", || save_file(&d, f, p))?;
        ensure!(r.is_ok(), "healthy disk refused", "the save failed: {:?}", r);
        let snap = world().disk.snapshot.take();
        if let Some(snap) = snap {
            nontrivial();
            fault(Fault::Restart);
            match snap.get(p) {
                None => ensure!(old.is_none(), "old file lost", "a crash left no file where there was one"),
                Some(c) if Some(c) == old.as_ref() => probe("crash left the old file"),
                Some(c) => {
                    ensure!(full.starts_with(c), "not a prefix", "after a crash the file holds {} bytes that are no prefix of the new file (first difference at {})", c.len(), first_diff(c, &full));
                    probe("crash left a prefix");
                    check_prefix(&full, &secs, f, c.len())?;
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
/// C07: no stored bytes make the library panic, hang or exhaust memory, neither while loading nor while saving what was loaded.
pub fn c07() -> Check {
    let (f, b) = if chance(1, 12) {
        // hardly anything but a preview image
        let d = lib("building a drawing", || {
            let mut d = Drawing::new();
            d.header.version = pick(&[AcadVersion::R2000, AcadVersion::R2007, AcadVersion::R2018]);
            gen_thumbnail(&mut d);
            d
        })?;
        let f = pick(&[Format::Text, Format::Text, Format::Binary]);
        let Ok(b) = save_vec(&d, f)? else { return Ok(()) };
        // most of the damage is to fall on the image
        if f == Format::Text && chance(3, 4) {
            (f, crate::damage::text_damage_hex(&b))
        } else {
            (f, b)
        }
    } else {
        let Some((_, f, b)) = drawing_and_bytes()? else { return Ok(()) };
        (f, if f == Format::Text && chance(1, 4) { crate::s_layout::foreign(b) } else { b })
    };
    let n = pick(&[1u64, 1, 2, 3, 6]);
    let b = crate::damage::damage(b, f, n);
    note(|| format!("{} bytes of {:?} with {} pieces of damage", b.len(), f, n));
    event(b'd', crate::choice::fnv(crate::choice::FNV0, &b), b.len() as u64);
    nontrivial();
    survive(&b)
}
/// Memory and work that loading `n` bytes may take.
pub fn budget(n: usize) -> (u64, u64) {
    (64 << 20, 2_000_000 + 200 * n as u64)
}
fn survive(b: &[u8]) -> Check {
    let (m, c) = budget(b.len());
    crate::seam::alloc_reset(m, c);
    let r = load_slice(b)?;
    crate::seam::alloc_reset(3 << 30, 500_000_000);
    let mut d = match r {
        Err(_) => {
            probe("damaged file refused");
            return Ok(());
        }
        Ok(d) => d,
    };
    probe("damaged file loads");
    if chance(1, 3) {
        d.header.version = gen_version();
    }
    if chance(1, 3) {
        lib("normalize", || d.normalize())?;
    }
    for f in FORMATS {
        crate::seam::alloc_reset(m * 4, c * 4);
        let s = save_vec(&d, *f)?;
        if let Ok(s) = s {
            if s.len() > 8 << 20 {
                return bad("output without bound", format!("{} bytes read, {} bytes written", b.len(), s.len()));
            }
            if *f == Format::Text || chance(1, 4) {
                let _ = load_slice(&s)?;
            }
        }
        crate::seam::alloc_reset(3 << 30, 500_000_000);
    }
    Ok(())
}

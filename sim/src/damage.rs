//! Stored damage: what a disk, a transfer or another program can do to a file between a save and a load.
use crate::choice::{below, below_usize, chance, pick, range};
use crate::seam::{fault, Fault};
use crate::workload::Format;

/// The lines of a text file, without their ends.
pub fn lines(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = b.split(|c| *c == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l).to_vec()).collect();
    if v.last().map_or(false, |l| l.is_empty()) {
        v.pop();
    }
    v
}
pub fn join(v: &[Vec<u8>], eol: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for l in v {
        out.extend_from_slice(l);
        out.extend_from_slice(eol);
    }
    out
}
/// The same text file as another program might have laid it out.
pub fn restyle(b: Vec<u8>) -> Vec<u8> {
    match below(8) {
        0..=3 => b,
        4 => join(&lines(&b), b"\n"),
        5 => {
            let mut x = vec![0xEF, 0xBB, 0xBF];
            x.extend_from_slice(&b);
            x
        }
        6 => {
            // comments between the pairs
            let mut v = lines(&b);
            for _ in 0..range(1, 4) {
                let at = 2 * below_usize(v.len() / 2 + 1);
                let at = at.min(v.len());
                v.splice(at..at, [b"999".to_vec(), b"a comment".to_vec()]);
            }
            join(&v, b"\r\n")
        }
        _ => {
            // no line end after the last line
            let mut v = b;
            while v.last().map_or(false, |c| *c == b'\n' || *c == b'\r') {
                v.pop();
            }
            v
        }
    }
}
const VALUES: &[&str] = &[
    "", "0", "1", "-1", "2147483647", "-2147483648", "99999999999999999999", "32767", "-32768", "65535", "1e308", "-1e308", "1e999", "NaN", "inf",
    "0.0", "-0.0", "abc", "{", "}", "{ACAD", "ENDSEC", "SECTION", "EOF", "SEQEND", "FFFFFFFFFFFFFFFF", "7FFFFFFFFFFFFFFF", "FFFFFFFF", "G", "ZZ",
    "\\U+", "\\U+12", "\\U+D800", "\\U+0041", "^", "^\u{e9}", "AC1015", "AC1032", "AC1009", "AC9999", "2415020", "1e7", "5373484", "1e-300", "-2415020.5",
    "AcDbEntity", "0 ", " 1", "4294967295", "{00000000-0000-0000-0000-000000000000}", "AB", "ABC", "18446744073709551615", "9223372036854775807", "255", "256", "257",
];
const CODES: &[&str] = &[
    "0", "1", "2", "3", "5", "6", "8", "10", "20", "30", "38", "39", "40", "41", "42", "43", "48", "50", "60", "62", "63", "66", "67", "70", "71", "72", "73", "74", "75", "90", "91", "92", "93", "94", "95",
    "98", "100", "102", "105", "160", "170", "210", "280", "290", "300", "310", "330", "340", "350", "360", "370", "390", "410", "420", "430", "440",
    "999", "1000", "1001", "1002", "1003", "1004", "1005", "1010", "1040", "1070", "1071", "-1", "-5", "100000", "1072", "470", "480", "148",
];
pub fn text_damage_hex(b: &[u8]) -> Vec<u8> {
    text_damage_of(b, 13)
}
fn text_damage(b: &[u8]) -> Vec<u8> {
    let k = below(18);
    text_damage_of(b, k)
}
fn text_damage_of(b: &[u8], kind: u64) -> Vec<u8> {
    let mut v = lines(b);
    let pairs = v.len() / 2;
    if pairs == 0 {
        return b.to_vec();
    }
    // a record is what lies between two codes 0
    let starts: Vec<usize> = (0..pairs).filter(|&i| v[2 * i].iter().filter(|c| **c != b' ').eq(b"0".iter())).collect();
    let rec = |k: usize| -> (usize, usize) { (2 * starts[k], starts.get(k + 1).map_or(v.len(), |s| 2 * s)) };
    // header and tables are most of a small file; the rest gets its share here
    let tail = starts.iter().position(|&i| v.get(2 * i + 3).map_or(false, |n| n == b"BLOCKS" || n == b"ENTITIES")).unwrap_or(0);
    let some_record = |starts: &[usize]| -> usize {
        if chance(3, 4) {
            tail + below_usize(starts.len() - tail)
        } else {
            below_usize(starts.len())
        }
    };
    let some_pair = |v: &Vec<Vec<u8>>| -> usize {
        if starts.is_empty() || chance(1, 3) {
            return below_usize(pairs);
        }
        let (a, z) = rec(some_record(&starts));
        let z = z.min(v.len() / 2 * 2);
        a / 2 + below_usize(((z - a) / 2).max(1))
    };
    match kind {
        14 | 15 if !starts.is_empty() => {
            // all of one code lost in a record
            let (a, z) = rec(some_record(&starts));
            let n = (z - a) / 2;
            if n > 1 {
                let code = v[a + 2 * (1 + below_usize(n - 1))].clone();
                let r: Vec<Vec<u8>> = v[a..a + 2 * n].chunks(2).filter(|p| p[0] != code).flat_map(|p| p.to_vec()).collect();
                v.splice(a..a + 2 * n, r);
            }
            fault(Fault::StoredRecordLost);
        }
        16 if !starts.is_empty() => {
            // the pairs of a record in another order
            let (a, z) = rec(some_record(&starts));
            let n = (z - a) / 2;
            for _ in 0..n {
                let (i, j) = (1 + below_usize(n), 1 + below_usize(n));
                if i < n && j < n {
                    v.swap(a + 2 * i, a + 2 * j);
                    v.swap(a + 2 * i + 1, a + 2 * j + 1);
                }
            }
            fault(Fault::StoredRecordSwapped);
        }
        17 if !starts.is_empty() => {
            // a record ends early
            let (a, z) = rec(some_record(&starts));
            let n = (z - a) / 2;
            let keep = below_usize(n + 1);
            v.drain(a + 2 * keep..z);
            fault(Fault::StoredRangeLost);
        }
        0 | 1 | 2 => {
            let i = 2 * some_pair(&v) + 1;
            v[i] = pick(VALUES).as_bytes().to_vec();
            fault(Fault::StoredValueReplaced);
        }
        3 | 4 => {
            let i = 2 * some_pair(&v);
            v[i] = pick(CODES).as_bytes().to_vec();
            fault(Fault::StoredValueReplaced);
        }
        5 => {
            // a pair lost
            let i = 2 * some_pair(&v);
            v.drain(i..i + 2);
            fault(Fault::StoredRecordLost);
        }
        6 => {
            // a pair twice
            let i = 2 * some_pair(&v);
            let p: Vec<_> = v[i..i + 2].to_vec();
            let at = 2 * some_pair(&v);
            let n = pick(&[1usize, 1, 2, 40]);
            for _ in 0..n {
                v.splice(at..at, p.clone());
            }
            fault(Fault::StoredRecordDup);
        }
        7 if !starts.is_empty() => {
            let (a, z) = rec(below_usize(starts.len()));
            v.drain(a..z);
            fault(Fault::StoredRecordLost);
        }
        8 if !starts.is_empty() => {
            let (a, z) = rec(below_usize(starts.len()));
            let r: Vec<_> = v[a..z].to_vec();
            let (to, _) = rec(below_usize(starts.len()));
            v.splice(to..to, r);
            fault(Fault::StoredRecordDup);
        }
        9 => {
            // a line lost: codes and values change places
            let i = below_usize(v.len());
            v.remove(i);
            fault(Fault::StoredRangeLost);
        }
        12 if chance(1, 8) => {
            // groups within groups
            let i = if starts.is_empty() { 0 } else { rec(below_usize(starts.len())).1 };
            let code = pick(&["102", "1002"]);
            let n = pick(&[3usize, 100, 300, 4000, 4000, 50_000]);
            let mut x: Vec<Vec<u8>> = vec![];
            if code == "1002" {
                x.extend([b"1001".to_vec(), b"ACAD".to_vec()]);
            }
            for _ in 0..n {
                x.extend([code.as_bytes().to_vec(), b"{".to_vec()]);
            }
            if chance(1, 2) {
                for _ in 0..n {
                    x.extend([code.as_bytes().to_vec(), b"}".to_vec()]);
                }
            }
            v.splice(i..i, x);
            fault(Fault::StoredRecordDup);
        }
        13 => {
            // binary data
            let hex: Vec<usize> = (0..pairs).filter(|&i| v[2 * i].iter().filter(|c| **c != b' ').eq(b"310".iter())).collect();
            if !hex.is_empty() {
                let i = if chance(1, 2) { hex[hex.len() - 1] } else { hex[below_usize(hex.len())] };
                let l = &mut v[2 * i + 1];
                for _ in 0..range(1, 3) {
                    let at = match below(3) {
                        0 => below_usize(5),
                        1 => 2 * below_usize(10), // a number of a bitmap's header
                        _ => below_usize(l.len() / 2 + 1),
                    };
                    let n = pick(&[1usize, 2, 4, 4]);
                    let to = pick(&[b'F', b'F', b'0', b'7', b'8', b'1']);
                    for b in l.iter_mut().skip(4 * at / 2 * 2).take(2 * n) {
                        *b = to;
                    }
                }
                if chance(1, 6) {
                    let n = below_usize(l.len() + 1);
                    l.truncate(n);
                }
                fault(Fault::StoredByteSet);
            }
        }
        11 => {
            // the next handle to be given out
            if let Some(i) = (0..pairs.saturating_sub(1)).find(|&i| v[2 * i + 1] == b"$HANDSEED") {
                v[2 * i + 3] = pick(&["FFFFFFFFFFFFFFFF", "FFFFFFFFFFFFFFFE", "0", "1", "FFFFFFFF", ""]).as_bytes().to_vec();
                fault(Fault::StoredValueReplaced);
            }
        }
        10 => {
            // an invented pair
            let i = 2 * some_pair(&v) + 2 * below_usize(2);
            let i = i.min(v.len());
            v.splice(i..i, [pick(CODES).as_bytes().to_vec(), pick(VALUES).as_bytes().to_vec()]);
            fault(Fault::StoredValueReplaced);
        }
        _ => {
            // two pairs change places
            let (i, j) = (2 * some_pair(&v), 2 * some_pair(&v));
            v.swap(i, j);
            v.swap(i + 1, j + 1);
            fault(Fault::StoredRecordSwapped);
        }
    }
    join(&v, if b.windows(2).any(|w| w == b"\r\n") { b"\r\n" } else { b"\n" })
}
fn byte_damage(mut b: Vec<u8>) -> Vec<u8> {
    if b.is_empty() {
        return b;
    }
    let at = crate::io::gen_offset(b.len() - 1);
    let len = pick(&[1usize, 2, 4, 8, 16, 64, 512]).min(b.len() - at);
    match below(8) {
        0 => {
            b[at] ^= 1 << below(8);
            fault(Fault::StoredBitFlip);
        }
        1 => {
            b[at] = pick(&[0u8, 0xFF, 0x7F, 0x80, b'\n', b' ', b'-', b'9', b'0', 0xFE]);
            fault(Fault::StoredByteSet);
        }
        2 => {
            b[at..at + len].iter_mut().for_each(|x| *x = 0);
            fault(Fault::StoredRangeZeroed);
        }
        3 => {
            b.drain(at..at + len);
            fault(Fault::StoredRangeLost);
        }
        4 => {
            let r = b[at..at + len].to_vec();
            let to = below_usize(b.len() + 1);
            b.splice(to..to, r);
            fault(Fault::StoredRangeDup);
        }
        5 => {
            let to = below_usize(b.len());
            let n = len.min(b.len() - to).min(if to > at { to - at } else { at - to });
            for i in 0..n {
                b.swap(at + i, to + i);
            }
            fault(Fault::StoredRangeSwapped);
        }
        6 => {
            b[at..at + len].iter_mut().for_each(|x| *x = 0xFF);
            fault(Fault::StoredByteSet);
        }
        _ => {
            b.truncate(at);
            fault(Fault::StoredTruncated);
        }
    }
    b
}
/// Applies `n` pieces of damage.
pub fn damage(mut b: Vec<u8>, f: Format, n: u64) -> Vec<u8> {
    for _ in 0..n {
        b = if f == Format::Text && chance(4, 5) { text_damage(&b) } else { byte_damage(b) };
    }
    b
}
/// A file whose counts promise far more than it holds.
pub fn inflate(b: Vec<u8>, f: Format) -> Vec<u8> {
    if f != Format::Text {
        return b;
    }
    let mut v = lines(&b);
    let every = 1 + below(4);
    for i in 0..v.len() / 2 {
        let code: i32 = String::from_utf8_lossy(&v[2 * i]).trim().parse().unwrap_or(0);
        let big = match code {
            70..=79 | 170..=179 => "32767",
            90..=99 => "2000000000",
            160..=169 => "9000000000000000000",
            _ => continue,
        };
        if i > 20 && below(every) == 0 {
            v[2 * i + 1] = big.as_bytes().to_vec();
        }
    }
    join(&v, b"\r\n")
}

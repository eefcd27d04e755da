//! C21: DXB files of other programs, which use the whole of the format: the items, and the running state they depend on.
use crate::choice::{below, chance, pick, range};
use crate::engine::{bad, lib, nontrivial, note, Check};
use crate::ensure;
use crate::io::{ReadPlan, SimReader};
use crate::sched::fresh;
use crate::seam::{event, fault, world, Fault};
use crate::workload::*;
use dxf::entities::*;
use dxf::{Color, Drawing, Point};

type P3 = (f64, f64, f64);
/// A small DXB program, and what it means.
struct Model {
    out: Vec<u8>,
    integer: bool,
    scale: f64,
    layer: String,
    color: i16,
    last: P3,
    trace: (P3, P3),
    want: Vec<String>,
}
impl Model {
    fn w(&mut self, v: i16) {
        self.out.extend_from_slice(&v.to_le_bytes());
    }
    fn n(&mut self) -> f64 {
        if self.integer {
            let k = match below(4) {
                0 => pick(&[0i16, 1, -1, i16::MAX, i16::MIN, 255, 256, -256]),
                _ => below(65536) as u16 as i16,
            };
            self.w(k);
            f64::from(k) * self.scale
        } else {
            let v = match below(4) {
                0 => pick(&[0.0f32, 1.0, -1.0, 0.1, 1e30, -1e-30, 16777216.0]),
                _ => (below(1 << 24) as f32 - 8_388_608.0) / 256.0,
            };
            self.out.extend_from_slice(&v.to_le_bytes());
            f64::from(v)
        }
    }
    fn angle(&mut self) -> f64 {
        if self.integer {
            let k = below(360_000_001) as i32;
            self.out.extend_from_slice(&k.to_le_bytes());
            f64::from(k) / 1_000_000.0
        } else {
            self.n()
        }
    }
    fn bulge(&mut self) -> f64 {
        if self.integer {
            let k = match below(4) {
                0 => pick(&[0i32, 1, -1, 65536, i32::MAX, i32::MIN]),
                _ => below(1 << 20) as i32 - (1 << 19),
            };
            self.out.extend_from_slice(&k.to_le_bytes());
            f64::from(k) / 65536.0
        } else {
            self.n()
        }
    }
    fn p2(&mut self) -> P3 {
        (self.n(), self.n(), 0.0)
    }
    fn p3(&mut self) -> P3 {
        (self.n(), self.n(), self.n())
    }
    fn item(&mut self, t: u8) {
        self.out.push(t);
    }
    fn scaled(&mut self, s: f64) {
        if self.scale != s {
            self.item(128);
            self.out.extend_from_slice(&s.to_le_bytes());
            self.scale = s;
        }
    }
    fn done(&mut self, s: String) {
        self.want.push(format!("{} on {:?} in {}", s, self.layer, self.color));
    }
    fn step(&mut self) {
        match below(17) {
            0 => {
                let i = below(2) == 1;
                self.item(135);
                self.w(if i { 0 } else { 1 });
                self.integer = i;
            }
            1 => {
                let s = pick(&[1.0, 0.5, 0.25, 10.0, 0.1, 3.0]);
                self.scaled(s);
            }
            2 => {
                self.item(129);
                let l = pick(&["0", "A", "walls", "caf\u{e9}", "layer with spaces", "", "x\u{ff}", "\u{80}\u{85}\u{9f}", "\u{1}\u{7f}\t", "a very long layer name, longer than the others are"]);
                self.out.extend(l.chars().map(|c| c as u32 as u8));
                self.out.push(0);
                self.layer = l.to_string();
            }
            3 => {
                self.item(136);
                let c = pick(&[0i16, 1, 7, 255, 256, 42]);
                self.w(c);
                self.color = c;
            }
            4 | 5 => {
                self.item(pick(&[1, 21]));
                let (a, b) = (self.p3(), self.p3());
                self.last = b;
                self.done(format!("Line {:?} {:?}", a, b));
            }
            6 | 7 => {
                let flat = chance(1, 2);
                self.item(if flat { 130 } else { 137 });
                let a = self.last;
                let b = if flat { self.p2() } else { self.p3() };
                self.last = b;
                self.done(format!("Line {:?} {:?}", a, b));
            }
            8 => {
                self.item(2);
                let a = self.p2();
                self.done(format!("Point {:?}", a));
            }
            9 => {
                self.item(3);
                let (a, r) = (self.p2(), self.n());
                self.done(format!("Circle {:?} {:?}", a, r));
            }
            10 => {
                self.item(8);
                let (a, r) = (self.p2(), self.n());
                let (s, e) = (self.angle(), self.angle());
                self.done(format!("Arc {:?} {:?} {:?} {:?}", a, r, s, e));
            }
            11 | 12 => {
                let trace = chance(1, 2);
                self.item(if trace { 9 } else { 11 });
                let (a, b, c, d) = (self.p2(), self.p2(), self.p2(), self.p2());
                if trace {
                    self.trace = (c, d);
                }
                self.done(format!("{} {:?} {:?} {:?} {:?}", if trace { "Trace" } else { "Solid" }, a, b, c, d));
            }
            13 => {
                self.item(131);
                let (a, b) = self.trace;
                let (c, d) = (self.p2(), self.p2());
                self.trace = (c, d);
                self.done(format!("Trace {:?} {:?} {:?} {:?}", a, b, c, d));
            }
            14 => {
                self.item(22);
                let (a, b, c, d) = (self.p3(), self.p3(), self.p3(), self.p3());
                self.done(format!("Face3D {:?} {:?} {:?} {:?}", a, b, c, d));
            }
            _ => {
                let closed = chance(1, 2);
                self.item(19);
                self.w(if closed { 1 } else { 0 });
                let mut v = vec![];
                for _ in 0..range(1, 4) {
                    self.item(20);
                    let p = self.p2();
                    let (mut bulge, mut width) = (0.0, (0.0, 0.0));
                    let first = chance(1, 2);
                    for k in 0..2 {
                        if (k == 0) == first {
                            if chance(1, 2) {
                                self.item(133);
                                bulge = self.bulge();
                            }
                        } else if chance(1, 2) {
                            self.item(134);
                            width = (self.n(), self.n());
                        }
                    }
                    v.push((p, bulge, width));
                }
                self.item(17);
                self.done(format!("Polyline {} {:?}", closed, v));
            }
        }
    }
}
fn p(p: &Point) -> P3 {
    (p.x, p.y, p.z)
}
fn view(e: &Entity) -> String {
    let s = match &e.specific {
        EntityType::Arc(a) => format!("Arc {:?} {:?} {:?} {:?}", p(&a.center), a.radius, a.start_angle, a.end_angle),
        EntityType::Circle(c) => format!("Circle {:?} {:?}", p(&c.center), c.radius),
        EntityType::Face3D(f) => format!("Face3D {:?} {:?} {:?} {:?}", p(&f.first_corner), p(&f.second_corner), p(&f.third_corner), p(&f.fourth_corner)),
        EntityType::Line(l) => format!("Line {:?} {:?}", p(&l.p1), p(&l.p2)),
        EntityType::ModelPoint(m) => format!("Point {:?}", p(&m.location)),
        EntityType::Polyline(l) => {
            let v: Vec<_> = l.vertices().map(|v| (p(&v.location), v.bulge, (v.starting_width, v.ending_width))).collect();
            format!("Polyline {} {:?}", l.is_closed(), v)
        }
        EntityType::Solid(f) => format!("Solid {:?} {:?} {:?} {:?}", p(&f.first_corner), p(&f.second_corner), p(&f.third_corner), p(&f.fourth_corner)),
        EntityType::Trace(f) => format!("Trace {:?} {:?} {:?} {:?}", p(&f.first_corner), p(&f.second_corner), p(&f.third_corner), p(&f.fourth_corner)),
        o => format!("{:?}", o),
    };
    let c = &e.common.color;
    let c = if *c == Color::by_layer() {
        256
    } else if *c == Color::by_block() {
        0
    } else {
        c.index().map_or(-1, i16::from)
    };
    format!("{} on {:?} in {}", s, e.common.layer, c)
}
/// C21: a DXB file means what its items say.
pub fn c21() -> Check {
    let mut m = Model { out: b"AutoCAD DXB 1.0\r\n\x1A\x00".to_vec(), integer: true, scale: 1.0, layer: "0".into(), color: 256, last: (0.0, 0.0, 0.0), trace: ((0.0, 0.0, 0.0), (0.0, 0.0, 0.0)), want: vec![] };
    let base = if chance(1, 4) {
        if chance(1, 2) {
            m.item(135);
            m.w(1);
            m.integer = false;
        }
        m.item(132);
        let b = m.p2();
        Some(format!("{:?}", b))
    } else {
        None
    };
    let steps = range(1, pick(&[4, 12, 30]));
    for _ in 0..steps {
        m.step();
    }
    m.item(0);
    if chance(1, 6) {
        // whatever follows the end does not belong to the drawing
        m.out.extend((0..below(5)).map(|_| below(256) as u8).collect::<Vec<_>>());
    }
    note(|| format!("{} bytes: {}", m.out.len(), m.want.join("; ")));
    event(b'd', m.out.len() as u64, m.want.len() as u64);
    nontrivial();
    let b = &m.out;
    let r = match below(3) {
        0 => load_slice(b)?,
        1 => {
            let mut r = SimReader::new(b, ReadPlan::gen(b.len()));
            load_from(&mut r)?
        }
        _ => {
            let f = "/dxfsim/other.dxb";
            world().disk.put(f, b.clone());
            fault(Fault::Restart);
            fresh(|| lib("load_file", || Drawing::load_file(f)))?
        }
    };
    let d = match r {
        Ok(d) => d,
        Err(e) => return bad("refused", format!("{}: {:?}", e, m.want)),
    };
    let got: Vec<String> = match &base {
        Some(at) => {
            ensure!(d.entities().count() == 0 && d.blocks().count() == 1, "block", "{} entities and {} blocks from a file of one block", d.entities().count(), d.blocks().count());
            let x = d.blocks().next().unwrap();
            ensure!(format!("{:?}", p(&x.base_point)) == *at, "base point", "{} was read as {:?}", at, p(&x.base_point));
            x.entities.iter().map(view).collect()
        }
        None => {
            ensure!(d.blocks().count() == 0, "block", "{} blocks from a file without one", d.blocks().count());
            d.entities().map(view).collect()
        }
    };
    for i in 0..m.want.len().max(got.len()) {
        let (a, b) = (m.want.get(i), got.get(i));
        if a != b {
            let kind = a.or(b).unwrap().split(' ').next().unwrap().to_string();
            return bad(format!("misread {}", kind), format!("item {}: {:?} was read as {:?}", i, a, b));
        }
    }
    Ok(())
}

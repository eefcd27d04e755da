//! C22: the flags of an item are independent of one another and keep their values.
use crate::choice::{below, below_usize, chance, pick, range};
use crate::engine::{bad, lib, nontrivial, note, Check};
use crate::ensure;
use crate::sched::fresh;
use crate::seam::{event, fault, Fault};
use crate::workload::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::enums::ViewMode;
use dxf::tables::ViewPort;
use dxf::{Block, Class, Drawing};

/// A kind of item with flags; a drawing has `SLOTS` items of it.
pub struct Item {
    name: &'static str,
    flags: &'static [&'static str],
    slots: usize,
    add: fn(&mut Drawing),
    get: fn(&Drawing, usize) -> Option<Vec<bool>>,
    set: fn(&mut Drawing, usize, usize, bool) -> bool,
    show: fn(&Drawing, usize) -> String,
}
const SLOTS: usize = 2;

macro_rules! set_nth {
    ($x:expr, $t:ident, $n:expr, $val:expr, $($s:ident),*) => {{
        let table: &[fn(&mut $t, bool)] = &[$($t::$s),*];
        table[$n]($x, $val);
    }};
}
macro_rules! header_flags {
    ($v:expr, $t:ident, $($g:ident $s:ident),*) => {{
        use dxf::Header;
        $v.push(Item {
            name: "Header",
            flags: &[$(stringify!($g)),*],
            slots: 1,
            add: |_| {},
            get: |d, _| Some(vec![$(d.header.$g()),*]),
            set: |d, _, n, val| { set_nth!(&mut d.header, $t, n, val, $($s),*); true },
            show: |d, _| format!("{:?}", d.header),
        })
    }};
}
macro_rules! block_flags {
    ($v:expr, $t:ident, $($g:ident $s:ident),*) => {
        $v.push(Item {
            name: "Block",
            flags: &[$(stringify!($g)),*],
            slots: SLOTS,
            add: |d| for n in 0..SLOTS { d.add_block(Block { name: format!("FLAGGED{}", n), ..Default::default() }); },
            get: |d, i| d.blocks().filter(|b| b.name.starts_with("FLAGGED")).nth(i).map(|x| vec![$(x.$g()),*]),
            set: |d, i, n, val| match d.blocks_mut().filter(|b| b.name.starts_with("FLAGGED")).nth(i) {
                Some(x) => { set_nth!(x, $t, n, val, $($s),*); true }
                None => false,
            },
            show: |d, i| format!("{:?}", d.blocks().filter(|b| b.name.starts_with("FLAGGED")).nth(i)),
        })
    };
}
macro_rules! class_flags {
    ($v:expr, $t:ident, $($g:ident $s:ident),*) => {
        $v.push(Item {
            name: "Class",
            flags: &[$(stringify!($g)),*],
            slots: SLOTS,
            add: |d| for n in 0..SLOTS { d.classes.push(Class { record_name: format!("FLAGGED{}", n), ..Default::default() }); },
            get: |d, i| d.classes.iter().nth(i).map(|x| vec![$(x.$g()),*]),
            set: |d, i, n, val| match d.classes.iter_mut().nth(i) {
                Some(x) => { set_nth!(x, $t, n, val, $($s),*); true }
                None => false,
            },
            show: |d, i| format!("{:?}", d.classes.iter().nth(i)),
        })
    };
}
macro_rules! view_flags {
    ($v:expr, $t:ident, $($g:ident $s:ident),*) => {
        $v.push(Item {
            name: "ViewPort",
            flags: &[$(stringify!($g)),*],
            slots: SLOTS,
            add: |d| for n in 0..SLOTS { d.add_view_port(ViewPort { name: format!("FLAGGED{}", n), ..Default::default() }); },
            get: |d, i| d.view_ports().filter(|b| b.name.starts_with("FLAGGED")).nth(i).map(|x| vec![$(x.view_mode.$g()),*]),
            set: |d, i, n, val| match d.view_ports_mut().filter(|b| b.name.starts_with("FLAGGED")).nth(i) {
                Some(x) => { set_nth!(&mut x.view_mode, $t, n, val, $($s),*); true }
                None => false,
            },
            show: |d, i| format!("{:?}", d.view_ports().filter(|b| b.name.starts_with("FLAGGED")).nth(i)),
        })
    };
}
macro_rules! entity_flags {
    ($v:expr, $t:ident, $($g:ident $s:ident),*) => {
        $v.push(Item {
            name: stringify!($t),
            flags: &[$(stringify!($g)),*],
            slots: SLOTS,
            add: |d| for _ in 0..SLOTS { d.add_entity(Entity::new(EntityType::$t(Default::default()))); },
            get: |d, i| d.entities().filter_map(|e| match &e.specific { EntityType::$t(x) => Some(x), _ => None }).nth(i).map(|x| vec![$(x.$g()),*]),
            set: |d, i, n, val| match d.entities_mut().filter_map(|e| match &mut e.specific { EntityType::$t(x) => Some(x), _ => None }).nth(i) {
                Some(x) => { set_nth!(x, $t, n, val, $($s),*); true }
                None => false,
            },
            show: |d, i| format!("{:?}", d.entities().filter(|e| matches!(&e.specific, EntityType::$t(_))).nth(i)),
        })
    };
}
macro_rules! object_flags {
    ($v:expr, $t:ident, $($g:ident $s:ident),*) => {
        $v.push(Item {
            name: stringify!($t),
            flags: &[$(stringify!($g)),*],
            slots: SLOTS,
            add: |d| for _ in 0..SLOTS { d.add_object(Object::new(ObjectType::$t(Default::default()))); },
            get: |d, i| d.objects().filter_map(|e| match &e.specific { ObjectType::$t(x) => Some(x), _ => None }).nth(i).map(|x| vec![$(x.$g()),*]),
            set: |d, i, n, val| match d.objects_mut().filter_map(|e| match &mut e.specific { ObjectType::$t(x) => Some(x), _ => None }).nth(i) {
                Some(x) => { set_nth!(x, $t, n, val, $($s),*); true }
                None => false,
            },
            show: |d, i| format!("{:?}", d.objects().filter(|e| matches!(&e.specific, ObjectType::$t(_))).nth(i)),
        })
    };
}
#[path = "flags_list.rs"]
mod list;

/// Saves and loads, as another process would.
fn again(d: &Drawing, f: Format) -> Check<Option<Drawing>> {
    let Ok(b) = save_vec(d, f)? else { return Ok(None) };
    fault(Fault::Restart);
    Ok(fresh(|| load_slice(&b))?.ok())
}
/// Which flags of this item the format has at all in this version.
fn kept(it: &Item, d: &Drawing, f: Format) -> Check<Vec<bool>> {
    let mut kept = vec![true; it.flags.len()];
    for val in [true, false] {
        let mut d = d.clone();
        for s in 0..it.slots {
            for n in 0..it.flags.len() {
                lib("setting a flag", || (it.set)(&mut d, s, n, val))?;
            }
        }
        let Some(l) = again(&d, f)? else { return Ok(vec![false; it.flags.len()]) };
        for s in 0..it.slots {
            let (Some(a), Some(b)) = ((it.get)(&l, s), (it.get)(&d, s)) else { return Ok(vec![false; it.flags.len()]) };
            for n in 0..it.flags.len() {
                kept[n] &= a[n] == b[n];
            }
        }
    }
    Ok(kept)
}
/// C22: each flag is what it was last set to, whatever else was set, saved or loaded in between.
pub fn c22() -> Check {
    let items = list::all();
    let it = &items[below_usize(items.len())];
    let ver = gen_version();
    let f = if chance(1, 2) { Format::Text } else { Format::Binary };
    let mut d = lib("building a drawing", || {
        let mut d = Drawing::new();
        d.header.version = ver;
        (it.add)(&mut d);
        d
    })?;
    let kept = kept(it, &d, f)?;
    note(|| format!("{} version {:?} {:?}{}", it.name, ver, f, if kept.contains(&false) { format!(", not kept: {:?}", it.flags.iter().zip(&kept).filter(|x| !x.1).map(|x| x.0).collect::<Vec<_>>()) } else { String::new() }));
    let some = kept.contains(&true);
    event(b'f', it.flags.len() as u64, kept.iter().filter(|x| **x).count() as u64);
    let read = |d: &Drawing| -> Check<Vec<Vec<bool>>> {
        let mut v = vec![];
        for s in 0..it.slots {
            match lib("reading the flags", || (it.get)(d, s))? {
                Some(x) => v.push(x),
                None => return bad("item is gone", format!("{} {}", it.name, s)),
            }
        }
        Ok(v)
    };
    let first = read(&d)?;
    let before: Vec<String> = (0..it.slots).map(|s| (it.show)(&d, s)).collect();
    let mut model = first.clone();
    nontrivial();
    let mut loaded = false;
    for step in 0..range(2, pick(&[6, 30])) {
        let (s, n, val) = (below_usize(it.slots), below_usize(it.flags.len()), chance(1, 2));
        match below(10) {
            0 if some => {
                event(b'l', step, 0);
                note(|| "save and load".into());
                match again(&d, f)? {
                    Some(l) => d = l,
                    None => return bad("file refused", format!("{} with {:?}", it.name, model)),
                }
                loaded = true;
                let now = read(&d)?;
                for s in 0..it.slots {
                    for n in 0..it.flags.len() {
                        if !kept[n] {
                            model[s][n] = now[s][n];
                        }
                    }
                }
            }
            1 => {
                // a copy does not share anything with the drawing
                let mut c = d.clone();
                lib("setting a flag", || (it.set)(&mut c, s, n, !model[s][n]))?;
            }
            _ => {
                event(b's', (s * 64 + n) as u64, val as u64);
                note(|| format!("{} {} of item {} is set to {}", it.name, it.flags[n], s, val));
                lib("setting a flag", || (it.set)(&mut d, s, n, val))?;
                model[s][n] = val;
            }
        }
        let got = read(&d)?;
        for s in 0..it.slots {
            for n in 0..it.flags.len() {
                ensure!(got[s][n] == model[s][n], format!("flag {} of {}", it.flags[n], it.name), "{} of item {} of {} is {} after step {}", it.flags[n], s, it.slots, got[s][n], step);
            }
        }
    }
    if !loaded {
        // setting every flag back makes the item what it was
        for s in 0..it.slots {
            for n in 0..it.flags.len() {
                lib("setting a flag", || (it.set)(&mut d, s, n, first[s][n]))?;
            }
            let now = (it.show)(&d, s);
            ensure!(now == before[s], format!("setting flags of {} changed something else", it.name), "{} is {}", before[s], now);
        }
    }
    Ok(())
}

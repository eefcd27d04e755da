//! Generation of drawings.  Values of any type the library can (de)serialise are produced by a serde
//! `Deserializer` that answers every request with a choice of the simulator; no knowledge of field names
//! or of the set of types is needed, so every field of every kind of item is exercised.
use crate::choice::{below, below_usize, chance, pick, range};
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::objects::*;
use dxf::tables::*;
use dxf::{Block, Drawing};
use serde::de::{self, DeserializeOwned, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::Serialize;
use serde_json::Value;
use std::fmt;

#[derive(Clone, Copy, PartialEq)]
pub enum Flavor {
    /// Values every format and version of the library is expected to carry unharmed.
    Plain,
    /// Also unusual but legal text: control characters, carets, non-ASCII, backslashes, blanks.
    Text,
    /// Extremes as well.
    Wild,
}

#[derive(Debug)]
pub struct GErr(String);
impl fmt::Display for GErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for GErr {}
impl de::Error for GErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        GErr(m.to_string())
    }
}

/// Whether lists of bytes may be longer than one chunk of a binary file, so that they come back as two.
pub static LONG_BYTES: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Clone, Copy)]
pub struct GenDe {
    pub flavor: Flavor,
    depth: u32,
    field: &'static str,
    /// Answer with the emptiest value (used for private scratch fields that a user cannot set).
    minimal: bool,
    /// A list with no items would not be a thing a file can hold.
    nonempty: bool,
    /// Integers are 0 or 1.
    bit: bool,
    /// A list of bytes, whose length may exceed what one chunk of a file holds.
    bytes: bool,
}
/// Private fields that nevertheless hold what a user stored through the API.
pub fn settable(name: &str) -> bool {
    !name.starts_with("__")
        || (name.ends_with("_handle") && name != "__seqend_handle")
}
struct Exp<'a, V>(&'a V);
impl<'de, V: Visitor<'de>> fmt::Display for Exp<'_, V> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.expecting(f)
    }
}

pub const WORDS: &[&str] = &[
    "", "0", "A", "layer-1", "BYLAYER", "CONTINUOUS", "STANDARD", "some text", "x y z", "TEST_NAME", "a.b.c", "1.5",
    "ABCDEF", "*U1", "{brace}", "semi;colon", "100%", "\"quoted\"", "under_score", "long-ish name with several words in it",
];
pub const TEXTS: &[&str] = &[
    "caf\u{e9}", "\u{4e16}\u{754c}", "^", "a^b", "^J", "line1\nline2", "tab\there", "cr\rlf\n", "\u{1}\u{1f}", "back\\slash in the middle of it",
    " leading", "trailing ", "  ", "\u{20ac}uro", "\\P paragraph \\P", "\u{ff}", "%%d %%c", "\u{3b1}\u{3b2}\u{3b3}", "^ ^", "a^ ",
    "\u{1f600} face", "\\P\u{e9}t\u{e9}", "ends in \\", "\\U+not", "\\\u{e9}", "C:\\new\\U",
];
pub fn gen_string(flavor: Flavor) -> String {
    let k = below(24);
    match k {
        0..=15 => pick(WORDS).to_string(),
        16 if chance(1, 2) => {
            // lengths around the limits that chunked text uses
            let n = pick(&[1u64, 127, 128, 249, 250, 251, 255, 256, 500, 501, 750, 2050, 4100]) as usize;
            let c = b'a' + below(26) as u8;
            let odd = if flavor == Flavor::Plain || chance(1, 2) { '-' } else { pick(&['\u{e9}', '\u{4e16}', '\u{1f600}', '\u{20ac}']) };
            let every = pick(&[37usize, 10, 2]);
            (0..n).map(|i| if i % every == every - 1 { odd } else { c as char }).collect()
        }
        _ if flavor == Flavor::Plain => format!("w{}", below(1000)),
        17 | 18 => {
            const CHARS: &[char] = &['a', 'Z', '0', '9', ' ', '^', '\\', '{', '}', '%', '.', ';', '\u{e9}', '\u{20ac}', '\u{4e16}', '\u{1f600}', '\t', '\u{7f}', '"', '\u{a0}'];
            (0..1 + below(12)).map(|_| pick(CHARS)).collect()
        }
        _ => {
            let mut s = pick(TEXTS).to_string();
            if chance(1, 4) {
                s.push_str(pick(WORDS));
            }
            s
        }
    }
}
fn gen_f64(flavor: Flavor) -> f64 {
    let k = below(16);
    match k {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => 0.5,
        4 => below(1000) as f64,
        5 => -(below(100000) as f64) / 64.0,
        6 => below(1 << 20) as f64 / 1024.0,
        7 => 1.0e-6,
        8 => 1234567.875,
        9 => 0.1,
        10 => 359.25,
        11 => 12.0 + below(100) as f64 / 8.0,
        12 => 3.141592653589,
        13 if chance(1, 2) => pick(&[123456789012.25, -9876543210.5, 1.0e10, 4503599627370496.0, 1.0e-9, 0.001, -0.0625, 65536.0, -32769.0, 2147483648.0, 1.0e16]),
        _ if flavor != Flavor::Wild => below(4096) as f64 / 16.0,
        13 => 1.0e20,
        14 => -1.0e-12,
        _ => 1.0e15,
    }
}
fn gen_int(min: i64, max: i64, flavor: Flavor) -> i64 {
    let v = match below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => below(16) as i64,
        4 => below(128) as i64,
        5 => below(1000) as i64,
        6 => -1,
        7 => 7,
        _ if flavor != Flavor::Wild => below(256) as i64,
        8 => max,
        9 => min,
        10 => -(below(1000) as i64),
        _ => below(70000) as i64,
    };
    v.clamp(min, max)
}
fn gen_len(depth: u32) -> usize {
    if depth > 6 {
        return 0;
    }
    match below(8) {
        0 if depth <= 1 && chance(1, 12) => 10 + below_usize(60),
        0..=2 => 0,
        3 | 4 => 1,
        5 => 2,
        6 => 3,
        _ => 4 + below_usize(3),
    }
}

macro_rules! ints {
    ($($m:ident $v:ident $t:ident),*) => { $(
        fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
            if self.minimal { return v.$v(0); }
            if self.bit { return v.$v(below(2) as $t); }
            v.$v(gen_int($t::MIN as i64, (($t::MAX as u128).min(i64::MAX as u128)) as i64, self.flavor) as $t)
        }
    )* };
}

impl<'de> Deserializer<'de> for GenDe {
    type Error = GErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        Err(GErr(format!("any: {}", Exp(&v))))
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        v.visit_bool(!self.minimal && chance(1, 2))
    }
    ints!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
          deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32);
    fn deserialize_u8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        v.visit_u8(if self.minimal { 0 } else { below(256) as u8 })
    }
    fn deserialize_u64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        if self.minimal {
            return v.visit_u64(0);
        }
        // all u64 of the library are handles or seconds
        v.visit_u64(match below(6) {
            0 => 0,
            1 => range(1, 32),
            2 => range(1, 4096),
            3 => 0xABCD,
            _ if self.flavor != Flavor::Wild => range(1, 0xFFFF),
            4 => 0x1234_5678_9ABC,
            _ => 0x7FFF_FFFF_FFFF_FFF0,
        })
    }
    fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        v.visit_f32(if self.minimal { 0.0 } else { gen_f64(self.flavor) as f32 })
    }
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        v.visit_f64(if self.minimal { 0.0 } else { gen_f64(self.flavor) })
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        v.visit_char((b'a' + below(26) as u8) as char)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        let e = format!("{}", Exp(&v));
        let e = e.to_lowercase();
        if self.minimal && !e.contains("uuid") && !e.contains("date") && !e.contains("time") {
            return v.visit_str("");
        }
        if e.contains("uuid") {
            let mut s = String::from("00000000-0000-4000-8000-0000");
            s.push_str(&format!("{:08x}", below(1 << 32)));
            return v.visit_string(s);
        }
        if e.contains("date") || e.contains("time") {
            return v.visit_string(gen_date());
        }
        v.visit_string(gen_string(self.flavor))
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        self.deserialize_byte_buf(v)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        let n = if self.minimal { 0 } else { gen_len(self.depth) };
        v.visit_byte_buf((0..n).map(|_| below(256) as u8).collect())
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        if self.minimal || self.depth > 6 || chance(1, 2) {
            v.visit_none()
        } else {
            v.visit_some(GenDe { depth: self.depth + 1, ..self })
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, GErr> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, v: V) -> Result<V::Value, GErr> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        let mut n = if self.minimal { 0 } else { gen_len(self.depth) };
        if self.nonempty && n == 0 {
            n = 1;
        }
        if self.bytes && !self.minimal && chance(1, 4) {
            n = if LONG_BYTES.load(std::sync::atomic::Ordering::Relaxed) { pick(&[127usize, 128, 254, 255, 256, 300]) } else { pick(&[127usize, 128, 129, 254, 255]) };
            let seed = crate::choice::subseed();
            return v.visit_seq(Bytes { rng: crate::choice::Rng::new(seed), left: n });
        }
        v.visit_seq(Items { de: GenDe { depth: self.depth + 1, nonempty: false, ..self }, left: n })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, GErr> {
        v.visit_seq(Items { de: GenDe { depth: self.depth + 1, ..self }, left: len })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _n: &'static str, len: usize, v: V) -> Result<V::Value, GErr> {
        self.deserialize_tuple(len, v)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        let n = if self.minimal { 0 } else { gen_len(self.depth) };
        v.visit_map(Entries { de: GenDe { depth: self.depth + 1, ..self }, left: n, i: 0 })
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        name: &'static str,
        fields: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, GErr> {
        if name == "CodePair" {
            return v.visit_map(Pair { i: 0, code: 0, flavor: self.flavor });
        }
        if name == "Duration" {
            return v.visit_map(Dur { i: 0, flavor: self.flavor });
        }
        v.visit_map(Fields { de: GenDe { depth: self.depth + 1, nonempty: name == "ExtensionGroup", ..self }, fields, i: 0 })
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _n: &'static str,
        variants: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, GErr> {
        let mut i = if self.minimal { 0 } else { below_usize(variants.len()) };
        if self.depth > 8 {
            i = 0; // the first variant is never one that nests
        }
        v.visit_enum(Var { de: GenDe { depth: self.depth + 1, ..self }, name: variants[i] })
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        v.visit_str(self.field)
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        v.visit_unit()
    }
}
/// A code pair whose value has the type its code demands.
struct Pair {
    i: usize,
    code: usize,
    flavor: Flavor,
}
const PAIR_CODES: &[(i64, &str)] = &[
    (1, "Str"), (40, "Double"), (70, "Short"), (90, "Integer"), (160, "Long"), (290, "Boolean"), (310, "Binary"), (330, "Str"), (300, "Str"),
    (11, "Double"), (280, "Short"),
];
impl<'de> MapAccess<'de> for Pair {
    type Error = GErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, GErr> {
        if self.i >= 3 {
            return Ok(None);
        }
        let f = ["code", "value", "offset"][self.i];
        seed.deserialize(GenDe { flavor: self.flavor, depth: 0, field: f, minimal: false, nonempty: false, bit: false, bytes: false }).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, GErr> {
        self.i += 1;
        match self.i {
            1 => {
                self.code = below_usize(PAIR_CODES.len());
                seed.deserialize(de::value::I64Deserializer::<GErr>::new(PAIR_CODES[self.code].0))
            }
            2 => seed.deserialize(OneVar(Var {
                de: GenDe { flavor: self.flavor, depth: 3, field: "", minimal: false, nonempty: false, bit: PAIR_CODES[self.code].1 == "Boolean", bytes: false },
                name: PAIR_CODES[self.code].1,
            })),
            _ => seed.deserialize(de::value::I64Deserializer::<GErr>::new(0)),
        }
    }
}
struct OneVar(Var);
impl<'de> Deserializer<'de> for OneVar {
    type Error = GErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
        v.visit_enum(self.0)
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Dur {
    i: usize,
    flavor: Flavor,
}
impl<'de> MapAccess<'de> for Dur {
    type Error = GErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, GErr> {
        if self.i >= 2 {
            return Ok(None);
        }
        let f = ["secs", "nanos"][self.i];
        seed.deserialize(GenDe { flavor: self.flavor, depth: 0, field: f, minimal: false, nonempty: false, bit: false, bytes: false }).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, GErr> {
        self.i += 1;
        let v = match self.i {
            1 if chance(1, 4) => pick(&[86_400i64, 4_294_967_295, 4_294_967_296, 5_000_000_000, 1 << 40]),
            1 => below(100_000) as i64,
            _ => 0,
        };
        let de = de::value::I64Deserializer::<GErr>::new(v);
        seed.deserialize(de)
    }
}
struct Bytes {
    rng: crate::choice::Rng,
    left: usize,
}
impl<'de> SeqAccess<'de> for Bytes {
    type Error = GErr;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, GErr> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(de::value::U8Deserializer::<GErr>::new(self.rng.next() as u8)).map(Some)
    }
}
struct Items {
    de: GenDe,
    left: usize,
}
impl<'de> SeqAccess<'de> for Items {
    type Error = GErr;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, GErr> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(self.de).map(Some)
    }
}
struct Entries {
    de: GenDe,
    left: usize,
    i: usize,
}
impl<'de> MapAccess<'de> for Entries {
    type Error = GErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, GErr> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        self.i += 1;
        let k = format!("KEY_{}_{}", self.i, below(50));
        seed.deserialize(de::value::StringDeserializer::<GErr>::new(k)).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, GErr> {
        seed.deserialize(self.de)
    }
}
struct Fields {
    de: GenDe,
    fields: &'static [&'static str],
    i: usize,
}
impl<'de> MapAccess<'de> for Fields {
    type Error = GErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, GErr> {
        if self.i >= self.fields.len() {
            return Ok(None);
        }
        seed.deserialize(GenDe { field: self.fields[self.i], ..self.de }).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, GErr> {
        let minimal = self.de.minimal || !settable(self.fields[self.i]);
        self.i += 1;
        seed.deserialize(GenDe { minimal, ..self.de })
    }
}
struct Var {
    de: GenDe,
    name: &'static str,
}
impl<'de> EnumAccess<'de> for Var {
    type Error = GErr;
    type Variant = VarAcc;
    fn variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<(S::Value, VarAcc), GErr> {
        let v = seed.deserialize(GenDe { field: self.name, ..self.de })?;
        Ok((v, VarAcc { de: GenDe { bytes: matches!(self.name, "Binary" | "BinaryData"), ..self.de } }))
    }
}
struct VarAcc {
    de: GenDe,
}
impl<'de> VariantAccess<'de> for VarAcc {
    type Error = GErr;
    fn unit_variant(self) -> Result<(), GErr> {
        Ok(())
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<S::Value, GErr> {
        seed.deserialize(self.de)
    }
    fn tuple_variant<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, GErr> {
        self.de.deserialize_tuple(len, v)
    }
    fn struct_variant<V: Visitor<'de>>(self, fields: &'static [&'static str], v: V) -> Result<V::Value, GErr> {
        v.visit_map(Fields { de: self.de, fields, i: 0 })
    }
}

pub fn gen_date() -> String {
    // whole seconds between 1901 and 2099, UTC
    let y = 1901 + below(199);
    format!(
        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}+00:00",
        y,
        1 + below(12),
        1 + below(28),
        below(24),
        below(60),
        below(60)
    )
}

pub fn arbitrary<T: DeserializeOwned>(flavor: Flavor) -> T {
    let de = GenDe { flavor, depth: 0, field: "", minimal: false, nonempty: false, bit: false, bytes: false };
    match T::deserialize(de) {
        Ok(v) => v,
        Err(e) => panic!("SIMULATOR: cannot generate {}: {}", std::any::type_name::<T>(), e),
    }
}

/// Takes each field of `base` from `other` with probability `num/256`.
pub fn cross(base: &mut Value, other: &Value, num: u64) {
    match (base, other) {
        (Value::Object(b), Value::Object(o)) if b.len() == o.len() && b.keys().eq(o.keys()) => {
            if b.len() == 1 && b.values().next().map_or(false, |v| !v.is_object()) {
                // a one-field enum variant or wrapper
                if chance(num, 256) {
                    *b = o.clone();
                }
                return;
            }
            for (k, bv) in b.iter_mut() {
                if !settable(k) {
                    continue;
                }
                cross(bv, &o[k], num);
            }
        }
        (b, o) => {
            if b != o && chance(num, 256) {
                *b = o.clone();
            }
        }
    }
}
/// A value of `T` that is `default` with some of its fields replaced by generated ones.
pub fn near<T: Serialize + DeserializeOwned>(default: &T, flavor: Flavor, density: u64) -> T {
    let r: T = arbitrary(flavor);
    near_from(default, &r, density)
}
pub fn near_from<T: Serialize + DeserializeOwned>(default: &T, r: &T, density: u64) -> T {
    let mut b = serde_json::to_value(default).unwrap();
    let o = serde_json::to_value(r).unwrap();
    cross(&mut b, &o, density);
    serde_json::from_value(b).unwrap_or_else(|e| panic!("SIMULATOR: cannot rebuild {}: {}", std::any::type_name::<T>(), e))
}

macro_rules! kinds {
    ($en:ident: $($n:ident),* $(,)?) => {
        paste_kinds!($en: $($n),*);
    };
}
macro_rules! paste_kinds {
    (EntityType: $($n:ident),*) => {
        pub const ENTITY_KINDS: &[(&str, fn() -> EntityType, fn(Flavor) -> EntityType)] =
            &[$((stringify!($n), || EntityType::$n(Default::default()), |f| EntityType::$n(arbitrary(f)))),*];
    };
    (ObjectType: $($n:ident),*) => {
        pub const OBJECT_KINDS: &[(&str, fn() -> ObjectType, fn(Flavor) -> ObjectType)] =
            &[$((stringify!($n), || ObjectType::$n(Default::default()), |f| ObjectType::$n(arbitrary(f)))),*];
    };
}
kinds!(EntityType: Line, Arc, Circle, Face3D, Solid3D, ProxyEntity, ArcAlignedText, AttributeDefinition, Attribute, Body,
    RotatedDimension, RadialDimension, DiameterDimension, AngularThreePointDimension, OrdinateDimension, Ellipse, Helix,
    Image, Insert, Leader, Light, LwPolyline, MLine, MText, OleFrame, Ole2Frame, ModelPoint, Polyline, Ray, Region,
    RText, Section, Seqend, Shape, Solid, Spline, Text, Tolerance, Trace, DgnUnderlay, DwfUnderlay, PdfUnderlay, Vertex,
    Wipeout, XLine);
kinds!(ObjectType: PlaceHolder, AcadProxyObject, DictionaryWithDefault, NavisWorksModelDefinition, DataTable, Dictionary,
    DictionaryVariable, DimensionAssoc, Field, GeoData, Group, IdBuffer, ImageDefinition, ImageDefinitionReactor,
    LayerFilter, LayerIndex, Layout, LightList, Material, MLeaderStyle, MLineStyle, ObjectPointer, PlotSettings,
    RapidRTRenderEnvironment, RapidRenderSettings, RasterVariables, MentalRayRenderSettings, RenderEnvironment,
    RenderGlobal, SectionManager, SectionSettings, SortentsTable, SpatialFilter, SpatialIndex, SunStudy, TableStyle,
    UnderlayDefinition, VbaProject, VisualStyle, WipeoutVariables, XRecordObject);

pub const VERSIONS: &[AcadVersion] = &[
    AcadVersion::R2000, AcadVersion::R10, AcadVersion::R11, AcadVersion::R12, AcadVersion::R13, AcadVersion::R14,
    AcadVersion::R2004, AcadVersion::R2007, AcadVersion::R2010, AcadVersion::R2013, AcadVersion::R2018, AcadVersion::R9,
    AcadVersion::Version_2_6, AcadVersion::Version_2_5, AcadVersion::Version_2_22, AcadVersion::Version_2_21, AcadVersion::Version_2_10,
    AcadVersion::Version_2_05, AcadVersion::Version_1_40, AcadVersion::Version_1_2, AcadVersion::Version_1_0,
];

pub fn entity(kind: usize, flavor: Flavor, density: u64) -> Entity {
    let (_, dflt, arb) = ENTITY_KINDS[kind];
    let specific = near_from(&dflt(), &arb(flavor), density);
    let common: EntityCommon = near(&EntityCommon::default(), flavor, density / 2);
    let mut e = Entity::new(specific);
    e.common = common;
    e
}
/// Adds a generated entity, with its children, through the API.
pub fn add_entity(d: &mut Drawing, kind: usize, flavor: Flavor, density: u64) {
    let mut e = entity(kind, flavor, density);
    give_children(d, &mut e, flavor, density);
    d.add_entity(e);
}
pub fn give_children(d: &mut Drawing, e: &mut Entity, flavor: Flavor, density: u64) {
    match e.specific {
        EntityType::Insert(ref mut i) => {
            for _ in 0..gen_len(0) {
                let a: Attribute = near(&Attribute::default(), flavor, density);
                i.add_attribute(d, a);
            }
        }
        EntityType::Polyline(ref mut p) => {
            for _ in 0..gen_len(0) {
                let mut v: Vertex = near(&Vertex::default(), flavor, density);
                // what kind of vertex it is follows from the polyline
                v.set_is_3d_polyline_vertex(p.is_3d_polyline());
                v.set_is_3d_polygon_mesh(p.is_3d_polygon_mesh());
                p.add_vertex(d, v);
            }
        }
        _ => (),
    }
}
pub fn object(kind: usize, flavor: Flavor, density: u64) -> Object {
    let (_, dflt, arb) = OBJECT_KINDS[kind];
    let specific = near_from(&dflt(), &arb(flavor), density);
    let specific = match specific {
        // the declared size of a data table is the size of its contents
        ObjectType::DataTable(mut t) => {
            // a column without a value has no type, and no place for its name
            t.row_count = 1 + below_usize(3);
            t.column_count = 1 + below_usize(3);
            t.column_names = (0..t.column_count).map(|i| format!("col{}", i)).collect();
            let proto: Vec<dxf::DataTableValue> = (0..t.column_count).map(|_| arbitrary(flavor)).collect();
            t.values = (0..t.row_count)
                .map(|_| proto.iter().map(|p| Some(same_shape(p, flavor))).collect())
                .collect();
            ObjectType::DataTable(t)
        }
        ObjectType::GeoData(mut g) => {
            // indices are whole numbers
            for i in &mut g.face_indices {
                (i.x, i.y, i.z) = (i.x.trunc() % 1e9, i.y.trunc() % 1e9, i.z.trunc() % 1e9);
            }
            ObjectType::GeoData(g)
        }
        ObjectType::RenderEnvironment(mut r) => {
            (r.fog_color_red, r.fog_color_green, r.fog_color_blue) = (r.fog_color_red % 256, r.fog_color_green % 256, r.fog_color_blue % 256);
            ObjectType::RenderEnvironment(r)
        }
        s => s,
    };
    let common: ObjectCommon = near(&ObjectCommon::default(), flavor, density / 2);
    let mut o = Object::new(specific);
    o.common = common;
    o
}
fn same_shape(p: &dxf::DataTableValue, flavor: Flavor) -> dxf::DataTableValue {
    for _ in 0..6 {
        let v: dxf::DataTableValue = arbitrary(flavor);
        if std::mem::discriminant(&v) == std::mem::discriminant(p) {
            return v;
        }
    }
    p.clone()
}
pub fn block(flavor: Flavor, density: u64) -> Block {
    let mut b: Block = near(&Block { entities: vec![], ..Default::default() }, flavor, density);
    b.entities.clear();
    b.name = format!("BLK{}", below(50));
    for _ in 0..below(3) {
        b.entities.push(entity(below_usize(ENTITY_KINDS.len()), flavor, density));
    }
    b
}
pub fn drawing_default() -> Drawing {
    Drawing::new()
}
pub const TABLE_KINDS: &[&str] = &["AppId", "BlockRecord", "DimStyle", "Layer", "LineType", "Style", "Ucs", "View", "ViewPort"];
pub fn add_table_item(d: &mut Drawing, kind: usize, flavor: Flavor, density: u64, name: &str) {
    macro_rules! t {
        ($t:ident, $f:ident) => {{
            let mut x: $t = near(&$t::default(), flavor, density);
            x.name = name.to_string();
            d.$f(x);
        }};
    }
    match kind {
        0 => t!(AppId, add_app_id),
        1 => t!(BlockRecord, add_block_record),
        2 => t!(DimStyle, add_dim_style),
        3 => {
            let mut x: Layer = near(&Layer::default(), flavor, density);
            // a layer that is off is one whose stored color is negative
            x.color = dxf::Color::from_index(x.color.index().unwrap_or(7).max(1));
            x.name = name.to_string();
            d.add_layer(x);
        }
        4 => t!(LineType, add_line_type),
        5 => t!(Style, add_style),
        6 => t!(Ucs, add_ucs),
        7 => {
            let mut x: View = near(&View::default(), flavor, density);
            // the coordinate system is part of the view only if it says so
            x.is_associated_ucs_present = true;
            x.name = name.to_string();
            d.add_view(x);
        }
        _ => {
            let mut x: ViewPort = near(&ViewPort::default(), flavor, density);
            x.has_own_ucs = true;
            x.name = name.to_string();
            d.add_view_port(x);
        }
    }
}

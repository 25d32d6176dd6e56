//! Builds a value of any `Deserialize` type from a tape of bytes, so that structured inputs
//! shrink as byte strings do (an exhausted tape yields zeros, `None` and empty sequences).
use serde::de::{self, DeserializeOwned, DeserializeSeed, IntoDeserializer, Visitor};

#[derive(Debug)]
pub struct E(String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for E {}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

pub struct Tape<'a> {
    b: &'a [u8],
    i: usize,
    depth: usize,
    /// largest value of a 32-bit signed field, except for one in sixteen (0: anything goes)
    pub enum_max: i32,
    pub wild: bool,
}
impl<'a> Tape<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Tape { b, i: 0, depth: 0, enum_max: 4, wild: false }
    }
    pub fn done(&self) -> bool {
        self.i >= self.b.len()
    }
    pub fn u8(&mut self) -> u8 {
        let v = self.b.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 256 {
            self.u8() as usize % n.max(1)
        } else {
            (self.u8() as usize * 256 + self.u8() as usize) % n
        }
    }
    pub fn flag(&mut self) -> bool {
        self.u8() & 1 == 1
    }
    pub fn u64(&mut self) -> u64 {
        match self.u8() % 8 {
            0 | 1 | 2 => self.u8() as u64,
            3 => u64::from_be_bytes([0, 0, 0, 0, self.u8(), self.u8(), self.u8(), self.u8()]),
            4 => u64::MAX - self.u8() as u64,
            5 => (u32::MAX as u64).wrapping_add(self.u8() as u64).wrapping_sub(128),
            6 => (1u64 << (self.u8() % 64)).wrapping_add(self.u8() as u64).wrapping_sub(2),
            _ => {
                let mut x = [0u8; 8];
                for b in &mut x {
                    *b = self.u8()
                }
                u64::from_be_bytes(x)
            }
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.u8() % 4 {
            0 | 1 => self.u8() as u32,
            2 => u32::MAX - self.u8() as u32,
            _ => u32::from_be_bytes([self.u8(), self.u8(), self.u8(), self.u8()]),
        }
    }
    pub fn i32(&mut self) -> i32 {
        let t = self.u8();
        if self.wild && t % 16 == 15 {
            return i32::from_be_bytes([self.u8(), self.u8(), self.u8(), self.u8()]);
        }
        self.below(self.enum_max as usize + 1) as i32
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let t = self.u8();
        let n = match t % 6 {
            0 => 0,
            1 => 20,
            2 => 32,
            3 => 1 + (t as usize / 6) % 4,
            4 => 64,
            _ => t as usize / 6,
        };
        let seed = [self.u8(), self.u8()];
        match n {
            0 => vec![],
            _ if t % 7 == 0 => vec![seed[0]; n],
            _ => super::gens::fill(n, seed[0]).into_iter().map(|b| b.wrapping_add(seed[1])).collect(),
        }
    }
    pub fn string(&mut self) -> String {
        const PIECES: [&str; 16] =
            ["", "a", "bob", "follow", "https://example.com/x?y=z&q=%20", "\"quoted\\\n", "é", "🦀", "0x12", "10.1.2.3", " ", "null", "-1", "alice.eth", "<b>", "\u{7f}\u{0}"];
        let n = self.u8() % 4;
        (0..n).map(|_| PIECES[self.below(PIECES.len())]).collect()
    }
    pub fn len(&mut self, max: usize) -> usize {
        if self.done() || self.depth > 12 {
            0
        } else {
            [0, 1, 1, 2, 3, 4][self.below(6)].min(max)
        }
    }
    pub fn make<T: DeserializeOwned>(&mut self) -> T {
        T::deserialize(&mut *self).expect("arb")
    }
}

struct Names {
    n: &'static [&'static str],
    i: usize,
}
struct S<'x, 'a> {
    t: &'x mut Tape<'a>,
    left: usize,
    names: Option<Names>,
}
impl<'de, 'x, 'a> de::SeqAccess<'de> for S<'x, 'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        seed.deserialize(&mut *self.t).map(Some)
    }
}
impl<'de, 'x, 'a> de::MapAccess<'de> for S<'x, 'a> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, E> {
        match &mut self.names {
            Some(n) => {
                if n.i == n.n.len() {
                    return Ok(None);
                }
                n.i += 1;
                seed.deserialize(n.n[n.i - 1].into_deserializer()).map(Some)
            }
            None => {
                if self.left == 0 {
                    return Ok(None);
                }
                self.left -= 1;
                seed.deserialize(&mut *self.t).map(Some)
            }
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, E> {
        seed.deserialize(&mut *self.t)
    }
}
/// A sequence whose elements are bytes is drawn as a byte string; serde only tells us the element
/// type when it asks for one, so elements come from a pre-drawn string when they turn out to be u8.
struct ByteOrItems<'x, 'a> {
    t: &'x mut Tape<'a>,
    bytes: Option<std::vec::IntoIter<u8>>,
    left: usize,
    first: bool,
}
struct Probe<'y, 'x, 'a>(&'y mut ByteOrItems<'x, 'a>);
impl<'de, 'x, 'a> de::SeqAccess<'de> for ByteOrItems<'x, 'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if let Some(b) = &self.bytes {
            if b.len() == 0 {
                return Ok(None);
            }
        } else if self.left == 0 {
            return Ok(None);
        }
        seed.deserialize(Probe(self)).map(Some)
    }
}
macro_rules! fwd {
    ($($m:ident)*) => { $(fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.0.left = self.0.left.saturating_sub(1); self.0.first = false; (&mut *self.0.t).$m(v) })* };
}
impl<'de, 'y, 'x, 'a> de::Deserializer<'de> for Probe<'y, 'x, 'a> {
    type Error = E;
    fn deserialize_u8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.0.bytes.is_none() {
            // never empty here: the first element has been asked for
            let mut b = self.0.t.bytes();
            if b.is_empty() {
                b.push(0)
            }
            self.0.bytes = Some(b.into_iter());
        }
        v.visit_u8(self.0.bytes.as_mut().unwrap().next().unwrap())
    }
    fwd!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any);
    fn deserialize_unit_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, E> {
        self.0.left -= 1;
        (&mut *self.0.t).deserialize_unit_struct(n, v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, E> {
        self.0.left -= 1;
        (&mut *self.0.t).deserialize_newtype_struct(n, v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        self.0.left -= 1;
        (&mut *self.0.t).deserialize_tuple(n, v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, n: &'static str, l: usize, v: V) -> Result<V::Value, E> {
        self.0.left -= 1;
        (&mut *self.0.t).deserialize_tuple_struct(n, l, v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.0.left -= 1;
        (&mut *self.0.t).deserialize_struct(n, f, v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.0.left -= 1;
        (&mut *self.0.t).deserialize_enum(n, f, v)
    }
}
struct En<'x, 'a> {
    t: &'x mut Tape<'a>,
    name: &'static str,
}
impl<'de, 'x, 'a> de::EnumAccess<'de> for En<'x, 'a> {
    type Error = E;
    type Variant = Va<'x, 'a>;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Va<'x, 'a>), E> {
        Ok((seed.deserialize(self.name.into_deserializer())?, Va { t: self.t }))
    }
}
struct Va<'x, 'a> {
    t: &'x mut Tape<'a>,
}
impl<'de, 'x, 'a> de::VariantAccess<'de> for Va<'x, 'a> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, E> {
        seed.deserialize(&mut *self.t)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(S { t: self.t, left: n, names: None })
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_map(S { t: self.t, left: 0, names: Some(Names { n: f, i: 0 }) })
    }
}
macro_rules! prim {
    ($($m:ident $visit:ident $e:expr;)*) => { $(fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let f: fn(&mut Tape<'a>) -> _ = $e; v.$visit(f(self)) })* };
}
impl<'de, 'x, 'a> de::Deserializer<'de> for &'x mut Tape<'a> {
    type Error = E;
    prim! {
        deserialize_bool visit_bool |t| t.flag();
        deserialize_i8 visit_i8 |t| t.u8() as i8;
        deserialize_i16 visit_i16 |t| t.i32() as i16;
        deserialize_i32 visit_i32 |t| t.i32();
        deserialize_i64 visit_i64 |t| t.u64() as i64;
        deserialize_u8 visit_u8 |t| t.u8();
        deserialize_u16 visit_u16 |t| t.u32() as u16;
        deserialize_u32 visit_u32 |t| t.u32();
        deserialize_u64 visit_u64 |t| t.u64();
        deserialize_f32 visit_f32 |t| t.u32() as f32 / 16.0;
        deserialize_f64 visit_f64 |t| (t.u32() >> 4) as f64 / 16.0;
        deserialize_char visit_char |t| (b'a' + t.u8() % 26) as char;
        deserialize_str visit_string |t| t.string();
        deserialize_string visit_string |t| t.string();
        deserialize_bytes visit_byte_buf |t| t.bytes();
        deserialize_byte_buf visit_byte_buf |t| t.bytes();
    }
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("any".into()))
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        // a present value three times in four
        if self.done() || self.u8() % 4 == 0 {
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.depth += 1;
        let left = self.len(4);
        let r = v.visit_seq(ByteOrItems { t: &mut *self, bytes: None, left, first: true });
        self.depth -= 1;
        r
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(S { t: self, left: n, names: None })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(S { t: self, left: n, names: None })
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let left = self.len(3);
        v.visit_map(S { t: self, left, names: None })
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.depth += 1;
        let r = v.visit_map(S { t: &mut *self, left: 0, names: Some(Names { n: f, i: 0 }) });
        self.depth -= 1;
        r
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        let name = f[self.below(f.len())];
        v.visit_enum(En { t: self, name })
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_string(self.string())
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
}

#[cfg(test)]
mod tests {
    #[test]
    fn t() {
        for i in 0..2000u32 {
            let b = super::super::gens::fill(300, i as u8);
            let b: Vec<u8> = b.iter().map(|x| x.wrapping_add((i >> 8) as u8)).collect();
            let mut t = super::Tape::new(&b);
            let m: snapchain::proto::Message = t.make();
            if i < 3 {
                println!("{m:?}");
            }
        }
    }
}

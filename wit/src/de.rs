//! Serialisation: a recording serializer, and a deserializer that reads the same notation.
use crate::common::*;
use crate::life::*;
use serde::de::{self, DeserializeSeed, Deserializer, SeqAccess, Visitor};
use serde::ser::{self, Impossible, SerializeSeq, Serializer};
use serde::{Deserialize, Serialize};
use std::fmt::{self, Display};

macro_rules! w {
    ($tag:expr, $b:block) => {
        const _: () = {
            #[unsafe(export_name = concat!("d__C17_C09_C10_C13__", $tag))]
            pub fn f() {
                $b
                reach!(R__end);
            }
        };
    };
}

#[derive(Debug)]
pub struct E;
impl Display for E {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    #[inline(always)]
    fn custom<T: Display>(_: T) -> E {
        E
    }
}
impl de::Error for E {
    #[inline(always)]
    fn custom<T: Display>(_: T) -> E {
        E
    }
}

// The element: one number.
impl Serialize for D {
    #[inline(always)]
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(self.val())
    }
}
struct One;
impl Visitor<'_> for One {
    type Value = D;
    fn expecting(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
    #[inline(always)]
    fn visit_u64<X>(self, v: u64) -> Result<D, X> {
        Ok(dv(v))
    }
}
impl<'a> Deserialize<'a> for D {
    #[inline(always)]
    fn deserialize<X: Deserializer<'a>>(d: X) -> Result<D, X::Error> {
        d.deserialize_u64(One)
    }
}

/// Notation: '[' and ']' around a sequence, 'x' for an element; the announced lengths and the
/// elements are kept on the side.
pub struct Log {
    text: [u8; 48],
    n: usize,
    len: [usize; 16],
    nlen: usize,
    val: Vals,
}
impl Log {
    #[inline(always)]
    fn new() -> Log {
        Log { text: [0; 48], n: 0, len: [0; 16], nlen: 0, val: Vals::new() }
    }
    #[inline(always)]
    fn put(&mut self, c: u8) {
        self.text[self.n] = c;
        self.n += 1;
    }
    #[inline(always)]
    fn is(&self, s: &[u8]) -> bool {
        let mut ok = self.n == s.len();
        let mut i = 0;
        while ok && i < s.len() {
            ok = self.text[i] == s[i];
            i += 1;
        }
        ok
    }
}
struct Ser<'a>(&'a mut Log);
macro_rules! no {
    ($($f:ident: $t:ty,)*) => { $(#[inline(always)] fn $f(self, _: $t) -> Result<(), E> { Err(E) })* };
}
impl<'a> Serializer for Ser<'a> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Ser<'a>;
    type SerializeTuple = Impossible<(), E>;
    type SerializeTupleStruct = Impossible<(), E>;
    type SerializeTupleVariant = Impossible<(), E>;
    type SerializeMap = Impossible<(), E>;
    type SerializeStruct = Impossible<(), E>;
    type SerializeStructVariant = Impossible<(), E>;
    no! {
        serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8,
        serialize_u16: u16, serialize_u32: u32, serialize_f32: f32, serialize_f64: f64, serialize_char: char, serialize_str: &str,
        serialize_bytes: &[u8], serialize_unit_struct: &'static str,
    }
    #[inline(always)]
    fn serialize_u64(self, v: u64) -> Result<(), E> {
        self.0.put(b'x');
        self.0.val.push(v);
        Ok(())
    }
    #[inline(always)]
    fn serialize_seq(self, n: Option<usize>) -> Result<Ser<'a>, E> {
        claim!(C17__length_announced, n.is_some());
        self.0.put(b'[');
        let k = self.0.nlen;
        self.0.len[k] = n.unwrap_or(0);
        self.0.nlen += 1;
        Ok(self)
    }
    fn serialize_none(self) -> Result<(), E> { Err(E) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> { Err(E) }
    fn serialize_unit(self) -> Result<(), E> { Err(E) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> { Err(E) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), E> { Err(E) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> { Err(E) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> { Err(E) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Err(E) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
}
impl SerializeSeq for Ser<'_> {
    type Ok = ();
    type Error = E;
    #[inline(always)]
    fn serialize_element<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), E> {
        x.serialize(Ser(&mut *self.0))
    }
    #[inline(always)]
    fn end(self) -> Result<(), E> {
        self.0.put(b']');
        Ok(())
    }
}

/// Input: the same notation, '!' is an element that cannot be read.
pub struct In<'a> {
    text: &'a [u8],
    pos: usize,
    hint: bool,
    val: Vals,
}
impl<'a> In<'a> {
    #[inline(always)]
    fn new(text: &'a [u8], hint: bool) -> Self {
        In { text, pos: 0, hint, val: Vals::new() }
    }
    #[inline(always)]
    fn cur(&self) -> u8 {
        if self.pos < self.text.len() { self.text[self.pos] } else { 0 }
    }
    /// Number of items up to the end of the sequence.
    #[inline(always)]
    fn left(&self) -> usize {
        let (mut n, mut d, mut i) = (0, 0, self.pos);
        while i < self.text.len() {
            let c = self.text[i];
            if c == b']' {
                if d == 0 {
                    break;
                }
                d -= 1;
            } else {
                if d == 0 {
                    n += 1;
                }
                if c == b'[' {
                    d += 1;
                }
            }
            i += 1;
        }
        n
    }
}
struct De<'b, 'a>(&'b mut In<'a>);
macro_rules! nod {
    ($($f:ident)*) => { $(fn $f<V: Visitor<'x>>(self, _: V) -> Result<V::Value, E> { Err(E) })* };
}
impl<'x> Deserializer<'x> for De<'_, '_> {
    type Error = E;
    #[inline(always)]
    fn deserialize_u64<V: Visitor<'x>>(self, v: V) -> Result<V::Value, E> {
        if self.0.cur() != b'x' {
            return Err(E);
        }
        self.0.pos += 1;
        let x = fresh();
        self.0.val.push(x);
        v.visit_u64(x)
    }
    #[inline(always)]
    fn deserialize_seq<V: Visitor<'x>>(self, v: V) -> Result<V::Value, E> {
        if self.0.cur() != b'[' {
            return Err(E);
        }
        self.0.pos += 1;
        let r = v.visit_seq(De(&mut *self.0))?;
        if self.0.cur() != b']' {
            return Err(E);
        }
        self.0.pos += 1;
        Ok(r)
    }
    nod! {
        deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16
        deserialize_u32 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes
        deserialize_byte_buf deserialize_option deserialize_unit deserialize_map deserialize_identifier deserialize_ignored_any
    }
    fn deserialize_unit_struct<V: Visitor<'x>>(self, _: &'static str, _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_newtype_struct<V: Visitor<'x>>(self, _: &'static str, _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_tuple<V: Visitor<'x>>(self, _: usize, _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_tuple_struct<V: Visitor<'x>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_struct<V: Visitor<'x>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> { Err(E) }
    fn deserialize_enum<V: Visitor<'x>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> { Err(E) }
}
impl<'x> SeqAccess<'x> for De<'_, '_> {
    type Error = E;
    #[inline(always)]
    fn next_element_seed<T: DeserializeSeed<'x>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.0.cur() == b']' {
            return Ok(None);
        }
        Ok(Some(seed.deserialize(De(&mut *self.0))?))
    }
    #[inline(always)]
    fn size_hint(&self) -> Option<usize> {
        if self.0.hint { Some(self.0.left()) } else { None }
    }
}

// Writing.
#[inline(always)]
fn wrote<T: Serialize>(x: &T, text: &[u8], len: &[usize], val: &Vals) {
    let mut log = Log::new();
    let ok = x.serialize(Ser(&mut log)).is_ok();
    claim!(C17__written, ok && log.is(text));
    claim!(C17__elements_in_order, log.val.same(val));
    claim!(C17__lengths_written, log.nlen == len.len());
    for i in 0..len.len() {
        claim!(C17__lengths_written, log.len[i] == len[i]);
    }
}
/// Reads the written text back.
#[inline(always)]
fn back<S: Shape>(text: &[u8], d: &[usize]) {
    let mut i = In::new(text, true);
    match Tensor::<D, S>::deserialize(De(&mut i)) {
        Ok(t) => claim!(C10_C13_C17__read_back, has(&*t, d) && vals(&*t).same(&i.val)),
        Err(_) => claim!(C17__accepted, false),
    }
}
macro_rules! ser {
    ($tag:literal, $k:ty, $m:ty, $d:expr, $t:literal, $l:expr) => {
        w!(concat!("ser_array_", $tag), { let a = Array::<D, $k>::from_fn(|_| quiet()); let v = vals(&*a); wrote(&a, $t, &$l, &v); back::<$k>($t, &$d); });
        w!(concat!("ser_tensor_", $tag), { let a = Tensor::<D, $m>::from_fn(<$m as Shape>::from_dims(&$d), |_| quiet()); let v = vals(&*a); wrote(&a, $t, &$l, &v); back::<$m>($t, &$d); });
        w!(concat!("ser_view_", $tag), { let mut a = Tensor::<D, $m>::from_fn(<$m as Shape>::from_dims(&$d), |_| quiet()); let v = vals(&*a);
            wrote(&a.expr(), $t, &$l, &v); wrote(&a.expr_mut(), $t, &$l, &v); wrote(&a.remap::<$m, Strided>(), $t, &$l, &v); });
        w!(concat!("ser_slice_", $tag), { let a = Tensor::<D, $m>::from_fn(<$m as Shape>::from_dims(&$d), |_| quiet()); let v = vals(&*a);
            let mut log = Log::new(); claim!(C17__written, (*a).serialize(Ser(&mut log)).is_ok() && log.is($t)); claim!(C17__elements_in_order, log.val.same(&v)); });
    };
}
ser!("0", (), (), [], b"x", [0usize; 0]);
ser!("3", (C<3>,), (Dyn,), [3], b"[xxx]", [3]);
ser!("1e", (C<0>,), (Dyn,), [0], b"[]", [0]);
ser!("23", (C<2>, C<3>), (Dyn, C<3>), [2, 3], b"[[xxx][xxx]]", [2, 3, 3]);
ser!("32", (C<3>, C<2>), (Dyn, Dyn), [3, 2], b"[[xx][xx][xx]]", [3, 2, 2, 2]);
ser!("20", (C<2>, C<0>), (Dyn, Dyn), [2, 0], b"[[][]]", [2, 0, 0]);
ser!("03", (C<0>, C<3>), (Dyn, C<3>), [0, 3], b"[]", [0]);
ser!("212", (C<2>, C<1>, C<2>), (C<2>, Dyn, Dyn), [2, 1, 2], b"[[[xx]][[xx]]]", [2, 1, 2, 1, 2]);
ser!("122", (C<1>, C<2>, C<2>), (Dyn, Dyn, Dyn), [1, 2, 2], b"[[[xx][xx]]]", [1, 2, 2, 2]);
ser!("1211", (C<1>, C<2>, C<1>, C<1>), (Dyn, C<2>, Dyn, C<1>), [1, 2, 1, 1], b"[[[[x]][[x]]]]", [1, 2, 1, 1, 1, 1]);
macro_rules! serv {
    ($tag:literal, $n:expr, |$x:ident| $v:expr, [$($i:literal)*], $t:literal, $l:expr) => {
        w!(concat!("ser_part_", $tag), { let $x = Tensor::from_fn($n, |_| quiet()); let v = vals(&*$x); let mut e = Vals::new(); $(e.push(v.v[$i]);)* wrote(&$v, $t, &$l, &e); });
    };
}
serv!("perm", [2, 3], |t| t.permute([1, 0]), [0 3 1 4 2 5], b"[[xx][xx][xx]]", [3, 2, 2, 2]);
serv!("step", [2, 4], |t| t.view(.., step(.., 2)), [0 2 4 6], b"[[xx][xx]]", [2, 2, 2]);
serv!("back", [3, 2], |t| t.view(step(.., -1), ..), [4 5 2 3 0 1], b"[[xx][xx][xx]]", [3, 2, 2, 2]);
serv!("col", [3, 2], |t| t.col(1), [1 3 5], b"[xxx]", [3]);
serv!("perm3", [2, 1, 2], |t| t.permute([2, 0, 1]), [0 2 1 3], b"[[[x][x]][[x][x]]]", [2, 2, 1, 1, 2, 1, 1]);
serv!("one", [2, 2], |t| t.view(1, 0), [2], b"x", [0usize; 0]);

// Reading.
macro_rules! de {
    ($tag:literal, $s:ty, $t:literal, $d:expr) => {
        w!(concat!("de_tensor_", $tag), {
            let mut i = In::new($t, true);
            match Tensor::<D, $s>::deserialize(De(&mut i)) {
                Ok(t) => claim!(C10_C13_C17__read_back, has(&*t, &$d) && vals(&*t).same(&i.val) && i.pos == i.text.len()),
                Err(_) => claim!(C17__accepted, false),
            }
        });
        w!(concat!("de_nohint_", $tag), {
            let mut i = In::new($t, false);
            match Tensor::<D, $s>::deserialize(De(&mut i)) {
                Ok(t) => claim!(C10_C13_C17__read_back, has(&*t, &$d) && vals(&*t).same(&i.val) && i.pos == i.text.len()),
                Err(_) => claim!(C17__accepted, false),
            }
        });
    };
}
macro_rules! dek {
    ($tag:literal, $s:ty, $t:literal, $d:expr) => {
        de!($tag, $s, $t, $d);
        w!(concat!("de_array_", $tag), {
            let mut i = In::new($t, true);
            match Array::<D, $s>::deserialize(De(&mut i)) {
                Ok(t) => claim!(C10_C13_C17__read_back, has(&*t, &$d) && vals(&*t).same(&i.val) && i.pos == i.text.len()),
                Err(_) => claim!(C17__accepted, false),
            }
        });
    };
}
de!("0", (), b"x", []);
dek!("0k", (), b"x", []);
de!("1", (Dyn,), b"[xxx]", [3]);
de!("1e", (Dyn,), b"[]", [0]);
dek!("1k", (C<3>,), b"[xxx]", [3]);
dek!("1ke", (C<0>,), b"[]", [0]);
de!("2", (Dyn, Dyn), b"[[xxx][xxx]]", [2, 3]);
de!("2e", (Dyn, Dyn), b"[[][]]", [2, 0]);
de!("2u", (Dyn, Dyn), b"[[x]]", [1, 1]);
de!("2m", (Dyn, C<2>), b"[[xx][xx][xx]]", [3, 2]);
de!("2me", (Dyn, C<2>), b"[]", [0, 2]);
de!("2n", (C<3>, Dyn), b"[[xx][xx][xx]]", [3, 2]);
dek!("2k", (C<3>, C<2>), b"[[xx][xx][xx]]", [3, 2]);
dek!("2ke", (C<2>, C<0>), b"[[][]]", [2, 0]);
de!("3", (Dyn, Dyn, Dyn), b"[[[xx][xx]][[xx][xx]]]", [2, 2, 2]);
de!("3m", (Dyn, C<1>, Dyn), b"[[[xxx]][[xxx]]]", [2, 1, 3]);
de!("3n", (C<1>, Dyn, C<2>), b"[[[xx][xx][xx]]]", [1, 3, 2]);
dek!("3k", (C<2>, C<1>, C<2>), b"[[[xx]][[xx]]]", [2, 1, 2]);
de!("4", (Dyn, C<2>, Dyn, C<1>), b"[[[[x][x]][[x][x]]]]", [1, 2, 2, 1]);
macro_rules! bad {
    ($tag:literal, $s:ty, $t:literal) => {
        w!(concat!("bad_tensor_", $tag), {
            let mut i = In::new($t, true);
            claim!(C10_C13_C17__inconsistent_input_is_rejected, Tensor::<D, $s>::deserialize(De(&mut i)).is_err());
        });
        w!(concat!("bad_nohint_", $tag), {
            let mut i = In::new($t, false);
            claim!(C10_C13_C17__inconsistent_input_is_rejected, Tensor::<D, $s>::deserialize(De(&mut i)).is_err());
        });
    };
}
macro_rules! badk {
    ($tag:literal, $s:ty, $t:literal) => {
        bad!($tag, $s, $t);
        w!(concat!("bad_array_", $tag), {
            let mut i = In::new($t, true);
            claim!(C10_C13_C17__inconsistent_input_is_rejected, Array::<D, $s>::deserialize(De(&mut i)).is_err());
        });
    };
}
bad!("2short", (Dyn, Dyn), b"[[xxx][xx]]");
bad!("2long", (Dyn, Dyn), b"[[xx][xxx]]");
bad!("2third", (Dyn, Dyn), b"[[xx][xx][x]]");
bad!("2thirde", (Dyn, Dyn), b"[[xx][xx][]]");
bad!("2first", (Dyn, Dyn), b"[[][xx]]");
bad!("2comp", (Dyn, Dyn), b"[[x][xxx]]");
bad!("2flat", (Dyn, Dyn), b"[xx]");
bad!("2err", (Dyn, Dyn), b"[[xx][x!]]");
bad!("1err", (Dyn,), b"[xx!]");
bad!("2m", (Dyn, C<2>), b"[[xx][xxx]]");
bad!("2mall", (Dyn, C<2>), b"[[xxx][xxx]]");
bad!("2mless", (Dyn, C<2>), b"[[x]]");
bad!("2mempty", (Dyn, C<2>), b"[[]]");
bad!("2nmore", (C<2>, Dyn), b"[[xx][xx][xx]]");
bad!("2nless", (C<2>, Dyn), b"[[xx]]");
bad!("2nempty", (C<2>, Dyn), b"[]");
bad!("2nragged", (C<2>, Dyn), b"[[xx][x]]");
badk!("1kmore", (C<2>,), b"[xxx]");
badk!("1kless", (C<2>,), b"[x]");
badk!("1kempty", (C<2>,), b"[]");
badk!("1kzero", (C<0>,), b"[x]");
badk!("2kmore", (C<2>, C<2>), b"[[xx][xx][xx]]");
badk!("2kless", (C<2>, C<2>), b"[[xx]]");
badk!("2kempty", (C<2>, C<2>), b"[]");
badk!("2kin", (C<2>, C<2>), b"[[xx][xxx]]");
badk!("2kin1", (C<2>, C<2>), b"[[x][xxx]]");
badk!("2kswap", (C<2>, C<3>), b"[[xx][xx][xx]]");
badk!("2kerr", (C<2>, C<2>), b"[[xx][x!]]");
badk!("2kzero", (C<2>, C<0>), b"[[]]");
bad!("3mid", (Dyn, Dyn, Dyn), b"[[[xx][xx]][[xx]]]");
bad!("3in", (Dyn, Dyn, Dyn), b"[[[xx][xx]][[xx][x]]]");
bad!("3swap", (Dyn, Dyn, Dyn), b"[[[xx]][[x][x]]]");
bad!("3all", (Dyn, Dyn, Dyn), b"[[[xx]][[xxx]]]");
bad!("3m", (Dyn, C<2>, Dyn), b"[[[xx][xx]][[xx]]]");
bad!("3m1", (Dyn, C<2>, Dyn), b"[[[xx]]]");
badk!("3k", (C<1>, C<2>, C<2>), b"[[[xx][xx]][[xx][xx]]]");
badk!("3k1", (C<1>, C<2>, C<2>), b"[[[xx][xx][xx]]]");
badk!("3k2", (C<1>, C<2>, C<2>), b"[[[xxx][xxx]]]");
bad!("4", (Dyn, Dyn, Dyn, Dyn), b"[[[[x][x]][[x][x]]][[[x][x]]]]");

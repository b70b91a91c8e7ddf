from ..runner import Task
from ..check import Plan
from ..spec import *
from .c13 import canonical
from .c12 import SRC
from .c14 import spec_for, shape, ANY, DIGIT

LAYOUTS = ("i16", "i32", "i64", "i128")

# a serializer that records the single call it gets, and a deserializer that plays a recorded call back
EXTRA = r'''
use serde::{ser, de, Serialize, Serializer, Deserialize, Deserializer};
#[derive(Debug, Clone, Copy)]
pub struct Bad;
impl core::fmt::Display for Bad { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl std::error::Error for Bad {}
impl ser::Error for Bad { fn custom<T: core::fmt::Display>(_: T) -> Self { Bad } }
impl de::Error for Bad {
    fn custom<T: core::fmt::Display>(_: T) -> Self { Bad }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { Bad }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { Bad }
}
#[derive(Clone, Copy)]
pub struct Tok { pub calls: i32, pub opt: i32, pub tag: i32, pub v: i128, pub s: [u8; 64], pub n: usize }
pub fn tok() -> Tok { Tok { calls: 0, opt: 0, tag: 0, v: 0, s: [0; 64], n: 0 } }
pub const STR: i32 = 1;
pub struct Rec<'a> { pub t: &'a mut Tok, pub human: bool }
macro_rules! num { ($($f:ident $ty:ty, $tag:expr;)*) => { $(
    fn $f(self, v: $ty) -> Result<(), Bad> { self.t.calls += 1; self.t.tag = $tag; self.t.v = v as i128; Ok(()) }
)* } }
macro_rules! no { ($($f:ident ( $($a:ty),* ) -> $r:ty;)*) => { $( fn $f(self, $(_: $a),*) -> Result<$r, Bad> { Err(Bad) } )* } }
type Imp = ser::Impossible<(), Bad>;
impl<'a> Serializer for Rec<'a> {
    type Ok = (); type Error = Bad;
    type SerializeSeq = Imp; type SerializeTuple = Imp; type SerializeTupleStruct = Imp; type SerializeTupleVariant = Imp;
    type SerializeMap = Imp; type SerializeStruct = Imp; type SerializeStructVariant = Imp;
    num! { serialize_i8 i8, 8; serialize_i16 i16, 16; serialize_i32 i32, 32; serialize_i64 i64, 64; serialize_i128 i128, 128;
           serialize_u8 u8, 108; serialize_u16 u16, 116; serialize_u32 u32, 132; serialize_u64 u64, 164; serialize_u128 u128, 228; }
    fn serialize_str(self, s: &str) -> Result<(), Bad> {
        self.t.calls += 1; self.t.tag = STR;
        let b = s.as_bytes(); let mut i = 0;
        while i < b.len() { self.t.s[i] = b[i]; i += 1; }
        self.t.n = b.len(); Ok(())
    }
    fn serialize_none(self) -> Result<(), Bad> { self.t.calls += 1; self.t.opt = 2; Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Bad> { self.t.opt = 1; v.serialize(self) }
    no! { serialize_bool(bool) -> (); serialize_f32(f32) -> (); serialize_f64(f64) -> (); serialize_char(char) -> (); serialize_bytes(&[u8]) -> ();
          serialize_unit() -> (); serialize_unit_struct(&'static str) -> (); serialize_unit_variant(&'static str, u32, &'static str) -> ();
          serialize_seq(Option<usize>) -> Imp; serialize_tuple(usize) -> Imp; serialize_tuple_struct(&'static str, usize) -> Imp;
          serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Imp; serialize_map(Option<usize>) -> Imp;
          serialize_struct(&'static str, usize) -> Imp; serialize_struct_variant(&'static str, u32, &'static str, usize) -> Imp; }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), Bad> { Err(Bad) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Bad> { Err(Bad) }
    fn collect_str<T: ?Sized + core::fmt::Display>(self, _: &T) -> Result<(), Bad> { Err(Bad) }
    fn is_human_readable(&self) -> bool { self.human }
}
pub struct Play<'de> { pub t: &'de Tok, pub human: bool }
impl<'de> Play<'de> {
    #[inline(always)]
    fn value<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.t.tag {
            STR => v.visit_borrowed_str(unsafe { core::str::from_utf8_unchecked(&self.t.s[..self.t.n]) }),
            8 => v.visit_i8(self.t.v as i8), 16 => v.visit_i16(self.t.v as i16), 32 => v.visit_i32(self.t.v as i32), 64 => v.visit_i64(self.t.v as i64), 128 => v.visit_i128(self.t.v),
            108 => v.visit_u8(self.t.v as u8), 116 => v.visit_u16(self.t.v as u16), 132 => v.visit_u32(self.t.v as u32), 164 => v.visit_u64(self.t.v as u64), 228 => v.visit_u128(self.t.v as u128),
            _ => Err(Bad),
        }
    }
}
macro_rules! de { ($($f:ident)*) => { $( fn $f<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> { self.value(v) } )* } }
impl<'de> Deserializer<'de> for Play<'de> {
    type Error = Bad;
    de! { deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128 deserialize_u8 deserialize_u16 deserialize_u32
          deserialize_u64 deserialize_u128 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf
          deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.t.opt { 1 => v.visit_some(Play { t: self.t, human: self.human }), 2 => v.visit_none(), _ => Err(Bad) }
    }
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Bad> { Err(Bad) }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Bad> { Err(Bad) }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Bad> { Err(Bad) }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, Bad> { Err(Bad) }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Bad> { Err(Bad) }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Bad> { Err(Bad) }
    fn is_human_readable(&self) -> bool { self.human }
}
'''

# representation -> (is text, is optional, serialize expression, deserialize expression); X is the number (or option), T its type
REPR = {
    "text": (True, False, "X.serialize(R)", "<T>::deserialize(D)"),
    "auto": (False, False, "X.serialize(R)", "<T>::deserialize(D)"),
    "str": (True, False, "fixnum::serde::str::serialize(&X, R)", "fixnum::serde::str::deserialize::<T, _, _, _>(D)"),
    "repr": (False, False, "fixnum::serde::repr::serialize(&X, R)", "fixnum::serde::repr::deserialize::<T, _, _, _>(D)"),
    "stropt": (True, True, "fixnum::serde::str_option::serialize(&X, R)", "fixnum::serde::str_option::deserialize::<T, _, _, _>(D)"),
    "repropt": (False, True, "fixnum::serde::repr_option::serialize(&X, R)", "fixnum::serde::repr_option::deserialize::<T, _, _, _>(D)"),
}


def sizes(t, p):
    """case split by magnitude"""
    lo, hi = rng(t)
    if t in ("i16", "i32"):
        return None
    N = 10 ** p
    cuts = [0] + ([10 ** (p // 2), N] if p else [])
    cuts += [N * 10 ** k for k in range(3, len(str(hi // N)), 3)]
    cuts = sorted(set(c for c in cuts if c <= hi))
    out = []
    for i, c in enumerate(cuts):
        last = i + 1 == len(cuts)
        h = hi if last else cuts[i + 1] - 1
        out.append(("%d+" % c, lambda A, c=c, h=h: between(A[0], c, h)))
        out.append(("-%d+" % c, lambda A, c=max(c, 1), l=-lo if last else h: between(A[0], -l, -c)))
    return out


def ser_tasks(t, p, tier):
    lo, hi = rng(t)
    T = "FixedPoint<%s, U%d>" % (t, p)
    out = []
    for nm, (text, opt, se, de) in REPR.items():
        for human in (("true",) if nm == "text" else ("false",) if nm == "auto" else ("true", "false")):
            h = "h" if human == "true" else "b"
            x = "Some(%s)" % fx(t, p, 0) if opt else fx(t, p, 0)
            sx = se.replace("X", "x").replace("R)", "Rec { t: &mut t, human: %s })" % human)
            dx = de.replace("(D)", "(Play { t: &t, human: %s })" % human).replace("T", T)
            head = "let x = %s; let mut t = tok(); if %s.is_err() { return 9; } " % (x, sx)
            rec = "io.o[0] = t.calls as i128; io.o[1] = t.opt as i128; io.o[2] = t.tag as i128; io.o[3] = t.v; let mut i = 0; while i < t.n { io.so[i] = t.s[i]; i += 1; } io.m = t.n; 0"

            def spec(A, R, text=text, opt=opt):
                c = f_and(eq(R.code, 0), eq(R.o[0], 1), eq(R.o[1], 1 if opt else 0))
                if text:
                    return f_and(c, eq(R.o[2], 1), canonical(R.so, A[0], p))
                return f_and(c, eq(R.o[2], BITS[t]), eq(R.o[3], A[0]))
            sp = sizes(t, p) if text else None
            w = 2 * BITS[t] if text else 1
            out.append(Task("ser_%s%s_%s_%d" % (nm, h, t, p), head + rec, [("a", lo, hi)], spec=spec, splits=sp, weight=w))
            val = "match v { Some(v) => { io.o[0] = *v.as_bits() as i128; 0 } None => 8 }" if opt else "{ io.o[0] = *v.as_bits() as i128; 0 }"
            if not text or t in ("i16", "i32") or nm in ("text", "stropt") or tier != "quick":
                out.append(Task("rt_%s%s_%s_%d" % (nm, h, t, p), head + "match %s { Ok(v) => %s, Err(_) => 7 }" % (dx, val),
                                [("a", lo, hi)], spec=lambda A, R: f_and(eq(R.code, 0), eq(R.o[0], A[0])), splits=sp, weight=3 * w))
            if opt:
                sx0 = se.replace("X", "x").replace("R)", "Rec { t: &mut t, human: %s })" % human)
                out.append(Task("none_%s%s_%s_%d" % (nm, h, t, p),
                                "let x: Option<%s> = None; let mut t = tok(); if %s.is_err() { return 9; } io.o[0] = t.opt as i128; io.o[1] = t.calls as i128; match %s { Ok(None) => 0, Ok(_) => 8, Err(_) => 7 }" % (T, sx0, dx),
                                [], spec=lambda A, R: f_and(eq(R.code, 0), eq(R.o[0], 2), eq(R.o[1], 1))))
    return out


def de_tasks(t, p, tier):
    """what the human-readable reader accepts"""
    lo, hi = rng(t)
    T = "FixedPoint<%s, U%d>" % (t, p)
    N = 10 ** p
    out = []
    for s, tag in (("i8", 8), ("i16", 16), ("i32", 32), ("i64", 64), ("i128", 128), ("u8", 108), ("u16", 116), ("u32", 132), ("u64", 164), ("u128", 228)):
        def spec(A, R):
            v = pscale(A[0], N)
            return f_or(f_and(eq(R.code, 0), eq(R.o[0], v), between(v, lo, hi)), f_and(eq(R.code, 5), f_or(lt(v, lo), gt(v, hi))))
        out.append(Task("de_%s_%s_%d" % (s, t, p), "let mut t = tok(); t.tag = %d; t.v = io.i[0]; match <%s>::deserialize(Play { t: &t, human: true }) { Ok(v) => { io.o[0] = *v.as_bits() as i128; 0 } Err(_) => 5 }" % (tag, T),
                        [("v",) + SRC[s]], spec=spec))
    shapes = []
    d = {"i16": 5, "i32": 10, "i64": 19, "i128": 39}[t]
    most = max(d - p, 1)
    full = tier != "quick"
    ints = range(1, most + 2) if full or t in ("i16", "i32") else sorted({1, 2, most, most + 1})
    fracs = range(1, p + 3) if full or t in ("i16", "i32") else sorted({1, 2, max(p - 1, 1), max(p, 1), p + 1})
    if t == "i128" and not full:
        fracs = sorted({1, max(p, 1), p + 1})
    for s in ("", "-"):
        for i in ints:
            for f in [None] + list(fracs):
                if f is None or i + f <= 60:
                    shapes.append(("%s%d.%s" % (s, i, "" if f is None else f), shape(s, i, f)))
    for n in range(0, 4):
        shapes.append(("any%d" % n, [ANY] * n))
    for k in range(5):
        sh = shape("-", 1, 2)
        shapes.append(("-1.2@%d" % k, sh[:k] + [ANY] + sh[k + 1:]))
    for nm, de, opt in (("text", "<T>::deserialize(D)", 0), ("str", "fixnum::serde::str::deserialize::<T, _, _, _>(D)", 0), ("stropt", "fixnum::serde::str_option::deserialize::<T, _, _, _>(D)", 1)):
        dx = de.replace("(D)", "(Play { t: &t, human: true })").replace("T", T)
        b = "let mut t = tok(); t.tag = STR; t.opt = %d; let mut i = 0; while i < io.n { t.s[i] = io.s[i]; i += 1; } t.n = io.n; match %s { Ok(v) => { io.o[0] = *v%s.as_bits() as i128; 0 } Err(_) => 5 }" % (opt, dx, ".unwrap()" if opt else "")
        for lab, sh in shapes:
            if nm != "text" and lab not in ("1.", "-1.1", "2.1", "any1", "any2"):
                continue
            out.append(Task("de_%s_%s_%d" % (nm, t, p), b, nbytes=len(sh), bytes_=list(sh), spec=spec_for(t, p, False, list(sh)), splits=[(lab, None)], weight=len(sh) + 30 * sh.count(ANY) ** 2))
    return out


PREC = {"i16": (0, 2), "i32": (4,), "i64": (0, 9), "i128": (18, 38)}


def plan(tier):
    pr = PREC if tier == "quick" else QUICK_P
    pl = Plan("C17", "all numbers, present or absent, through a recording serializer of each kind; every integer of every primitive type and texts of the stated shapes given to the "
              "human-readable reader; precisions %s" % {t: list(v) for t, v in pr.items()},
              assumptions=["serde's own impls for primitive integers, &str and Option are encoded as compiled"],
              not_covered=["the float representations (their value is that of the f64 conversions)", "the quick-xml map reader", "formats' own escaping"])
    pl.crate("std", [x for t in LAYOUTS for p in pr[t] for x in ser_tasks(t, p, tier) + de_tasks(t, p, tier)], features=("i16", "i32", "i64", "i128", "serde"),
             deps='serde = { version = "1", default-features = false, features = ["std"] }', extra=EXTRA)
    return pl

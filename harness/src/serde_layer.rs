//! The serde compatibility layer and the differential fuzzing entry point, with hand-written reference semantics.
/// In the group "swrap" only the types of this file are used.
#[cfg(feature = "swrap")]
macro_rules! harness { ($name:ident, $body:block) => {} }
#[cfg(not(feature = "swrap"))]
use crate::harness;
use crate::{model::{self, bytes_of, reject, written, Model, D, E}, refmodel as rm, refmodel::RV, sx};
use oasis_cbor::{Decode, Encode, SimpleValue, Value};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[path = "/repo/difffuzz/src/lib.rs"]
pub mod difffuzz;

/// Reference semantics as seen through serde. D: E::Any where serde itself (not this library) decides.
pub trait Sm: Sized + Clone + PartialEq + Serialize + DeserializeOwned {
    fn gen() -> Self;
    fn enc(&self) -> RV;
    fn dec(r: &RV) -> D<Self>;
    fn missing() -> Option<Self> { None }
}
/// Adapter so that the comparison helper can be used.
macro_rules! same { ($($t:ty),*) => { $(impl Sm for $t {
    fn gen() -> Self { <$t as Model>::gen() }
    fn enc(&self) -> RV { Model::enc(self) }
    fn dec(r: &RV) -> D<Self> { <$t as Model>::dec(r) }
})* } }
same! { u8, u16, u32, u64, i8, i16, i32, i64, u128, bool, char, () }
impl Sm for String {
    fn gen() -> Self { <String as Model>::gen() }
    fn enc(&self) -> RV { Model::enc(self) }
    // serde's own string visitor also takes byte strings which are valid text.
    fn dec(r: &RV) -> D<Self> { match r { RV::B(b) if rm::utf8_ok(b) => Err(E::Any), r => <String as Model>::dec(r) } }
}
impl<T: Sm> Sm for Option<T> {
    fn gen() -> Self { if sx::choose(2) == 0 { None } else { Some(T::gen()) } }
    fn enc(&self) -> RV { match self { None => RV::S(22), Some(x) => x.enc() } }
    fn dec(r: &RV) -> D<Self> { match r { RV::S(22) => Ok(None), r => T::dec(r).map(Some) } }
    fn missing() -> Option<Self> { Some(None) }
}
fn lendec<T: Sm>(r: &RV, n: usize) -> D<Vec<T>> { match r { RV::A(a) => { let v = seq(a.iter().map(T::dec))?; if v.len() == n { Ok(v) } else { reject() } } _ => reject() } }
/// Rejection of any item wins over an unspecified one only if it comes first; otherwise the outcome is unspecified.
fn seq<T>(it: impl Iterator<Item = D<T>>) -> D<Vec<T>> { let mut v = Vec::new(); for x in it { v.push(x?); } Ok(v) }
impl<T: Sm> Sm for Vec<T> {
    fn gen() -> Self { let n = sx::choose(3); (0..n).map(|_| T::gen()).collect() }
    fn enc(&self) -> RV { RV::A(self.iter().map(|x| x.enc()).collect()) }
    fn dec(r: &RV) -> D<Self> { match r { RV::A(a) => seq(a.iter().map(T::dec)), _ => reject() } }
}
impl<T: Sm> Sm for [T; 2] {
    fn gen() -> Self { [T::gen(), T::gen()] }
    fn enc(&self) -> RV { RV::A(self.iter().map(|x| x.enc()).collect()) }
    fn dec(r: &RV) -> D<Self> { let mut v = lendec::<T>(r, 2)?; let b = v.pop().unwrap(); let a = v.pop().unwrap(); Ok([a, b]) }
}
fn elems(r: &RV, n: usize) -> D<Vec<RV>> { match r { RV::A(a) if a.len() == n => Ok(a.clone()), _ => reject() } }
macro_rules! tup { ($n:expr; $($t:ident $i:tt),*) => { impl<$($t: Sm),*> Sm for ($($t,)*) {
    fn gen() -> Self { ($($t::gen(),)*) }
    fn enc(&self) -> RV { RV::A(vec![$(self.$i.enc()),*]) }
    fn dec(r: &RV) -> D<Self> { let v = elems(r, $n)?; Ok(($($t::dec(&v[$i])?,)*)) }
} } }
tup! { 1; A 0 } tup! { 2; A 0, B 1 } tup! { 3; A 0, B 1, C 2 }
impl<K: Sm + Ord, V: Sm> Sm for BTreeMap<K, V> {
    fn gen() -> Self { let n = sx::choose(3); let mut m = BTreeMap::new(); for _ in 0..n { m.insert(K::gen(), V::gen()); } sx::assume(m.len() == n as usize); m }
    fn enc(&self) -> RV { RV::M(self.iter().map(|(k, v)| (k.enc(), v.enc())).collect()) }
    fn dec(r: &RV) -> D<Self> { match r { RV::M(m) => { let mut o = BTreeMap::new(); for (k, v) in m { let k = K::dec(k)?; let v = V::dec(v)?; if o.insert(k, v).is_some() { return Err(E::Any); } } Ok(o) } _ => reject() } }
}
impl<K: Sm + Ord> Sm for BTreeSet<K> {
    fn gen() -> Self { let n = sx::choose(3); let mut m = BTreeSet::new(); for _ in 0..n { m.insert(K::gen()); } sx::assume(m.len() == n as usize); m }
    fn enc(&self) -> RV { RV::A(self.iter().map(|k| k.enc()).collect()) }
    fn dec(r: &RV) -> D<Self> { match r { RV::A(m) => { let mut o = BTreeSet::new(); for k in m { if !o.insert(K::dec(k)?) { return Err(E::Any); } } Ok(o) } _ => reject() } }
}
/// Bytes (as serde_bytes does it).
#[derive(Clone, PartialEq)]
pub struct Bytes(Vec<u8>);
impl Serialize for Bytes { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } }
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<T: serde::Deserializer<'de>>(d: T) -> Result<Self, T::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("bytes") }
            fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<Bytes, E> { Ok(Bytes(v.to_vec())) }
            fn visit_byte_buf<E: serde::de::Error>(self, v: Vec<u8>) -> Result<Bytes, E> { Ok(Bytes(v)) }
        }
        if sx::param(7, 0) == 0 { d.deserialize_byte_buf(V) } else { d.deserialize_bytes(V) }
    }
}
impl Sm for Bytes {
    fn gen() -> Self { let n = sx::choose(3); Bytes(sx::bytes(n as usize)) }
    fn enc(&self) -> RV { RV::B(self.0.clone()) }
    fn dec(r: &RV) -> D<Self> { match r { RV::B(b) => Ok(Bytes(b.clone())), _ => reject() } }
}
fn t(s: &str) -> RV { RV::T(s.as_bytes().to_vec()) }

/// Fields of a struct by name.
fn fields(r: &RV, names: &[&str], deny: bool) -> D<Vec<Option<RV>>> {
    let m = match r { RV::M(m) => m, _ => return reject() };
    let mut out: Vec<Option<RV>> = names.iter().map(|_| None).collect();
    // Field indices and byte strings as names are up to serde.
    if m.iter().any(|(k, _)| matches!(k, RV::U(_) | RV::B(_))) { return Err(E::Any); }
    for (k, v) in m {
        let k = match k { RV::T(k) => k, _ => return reject() };
        match names.iter().position(|n| n.as_bytes() == &k[..]) {
            Some(i) => { if out[i].is_some() { return reject(); } out[i] = Some(v.clone()); }
            None => if deny { return reject(); },
        }
    }
    Ok(out)
}
fn field<T: Sm>(f: &mut Vec<Option<RV>>) -> D<T> { match f.remove(0) { Some(v) => T::dec(&v), None => T::missing().ok_or(E::Reject) } }
/// Errors are reported in order of appearance: any field's rejection is a rejection, unless another field is unspecified.
macro_rules! sstruct {
    ($name:ident, $deny:expr; $($f:ident : $ft:ty = $k:expr),* $(,)?) => {
        impl Sm for $name {
            fn gen() -> Self { $name { $($f: <$ft as Sm>::gen()),* } }
            fn enc(&self) -> RV { RV::M(vec![$((t($k), Sm::enc(&self.$f))),*]) }
            #[allow(unused_mut, unused_variables)]
            fn dec(r: &RV) -> D<Self> { let mut f = fields(r, &[$($k),*], $deny)?; Ok($name { $($f: field::<$ft>(&mut f)?),* }) }
        }
    };
}
#[derive(Clone, Default, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct Plain { b: u8, a: bool, ccc: Bound }
type Bound = Vec<u16>;
sstruct! { Plain, false; b: u8 = "b", a: bool = "a", ccc: Bound = "ccc" }
#[derive(Clone, Default, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct Small { x: u8 }
sstruct! { Small, false; x: u8 = "x" }
#[derive(Clone, Default, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct Nested { s: Small, o: Option<i16>, l: Vec<Small>, m: BTreeMap<u8, bool> }
sstruct! { Nested, false; s: Small = "s", o: Option<i16> = "o", l: Vec<Small> = "l", m: BTreeMap<u8, bool> = "m" }
#[derive(Clone, PartialEq, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct Deny { x: i64, #[serde(rename = "Yy")] y: Option<char> }
sstruct! { Deny, true; x: i64 = "x", y: Option<char> = "Yy" }
#[derive(Clone, Default, PartialEq, Serialize, Deserialize)]
pub struct Empty {}
sstruct! { Empty, false; }
#[derive(Clone, Default, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct Unit;
impl Sm for Unit {
    fn gen() -> Self { Unit }
    fn enc(&self) -> RV { RV::S(22) }
    fn dec(r: &RV) -> D<Self> { match r { RV::S(22) => Ok(Unit), RV::S(23) => Err(E::Any), _ => reject() } }
}
#[derive(Clone, Default, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct New(u16);
impl Sm for New {
    fn gen() -> Self { New(sx::u16()) }
    fn enc(&self) -> RV { RV::A(vec![Sm::enc(&self.0)]) }
    fn dec(r: &RV) -> D<Self> { let v = elems(r, 1)?; Ok(New(Sm::dec(&v[0])?)) }
}
#[derive(Clone, Default, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct Tup(u8, bool, String);
impl Sm for Tup {
    fn gen() -> Self { Tup(sx::u8(), sx::bool(), Sm::gen()) }
    fn enc(&self) -> RV { RV::A(vec![Sm::enc(&self.0), Sm::enc(&self.1), Sm::enc(&self.2)]) }
    fn dec(r: &RV) -> D<Self> { let v = elems(r, 3)?; Ok(Tup(Sm::dec(&v[0])?, Sm::dec(&v[1])?, Sm::dec(&v[2])?)) }
}
#[derive(Clone, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum En { A, B(u8), Cc(i16, bool), D { x: u8, y: Option<u16> }, E(Small), F(Option<u8>), G {} }
impl Sm for En {
    fn gen() -> Self { match sx::choose(7) { 0 => En::A, 1 => En::B(sx::u8()), 2 => En::Cc(sx::u16() as i16, sx::bool()), 3 => En::D { x: sx::u8(), y: Sm::gen() }, 4 => En::E(Small { x: sx::u8() }), 5 => En::F(Sm::gen()), _ => En::G {} } }
    fn enc(&self) -> RV {
        let (n, v) = match self {
            En::A => return t("A"), En::B(x) => ("B", Sm::enc(x)), En::Cc(x, y) => ("Cc", RV::A(vec![Sm::enc(x), Sm::enc(y)])),
            En::D { x, y } => ("D", RV::M(vec![(t("x"), Sm::enc(x)), (t("y"), Sm::enc(y))])), En::E(s) => ("E", Sm::enc(s)), En::F(o) => ("F", Sm::enc(o)), En::G {} => ("G", RV::M(vec![])),
        };
        RV::M(vec![(t(n), v)])
    }
    fn dec(r: &RV) -> D<Self> {
        let null = RV::S(22);
        let (k, v, bare) = match r { RV::M(m) if m.len() == 1 => (&m[0].0, &m[0].1, false), RV::T(_) => (r, &null, true), _ => return reject() };
        let k = match k { RV::T(k) => k, RV::U(_) | RV::B(_) => return Err(E::Any), _ => return reject() };
        let x = match &k[..] {
            b"A" => match v { RV::S(22) => En::A, RV::S(23) => return Err(E::Any), _ => return reject() },
            b"B" => En::B(Sm::dec(v)?), b"Cc" => { let v = elems(v, 2)?; En::Cc(Sm::dec(&v[0])?, Sm::dec(&v[1])?) }
            b"D" => { let mut f = fields(v, &["x", "y"], false)?; En::D { x: field(&mut f)?, y: field(&mut f)? } }
            b"E" => En::E(Sm::dec(v)?), b"F" => En::F(Sm::dec(v)?), b"G" => { fields(v, &[], false)?; En::G {} }
            _ => return reject(),
        };
        // A name on its own for a variant with content, and an object for one without, are lenient forms.
        if bare != matches!(x, En::A) { if bare || matches!(x, En::A) { return Err(E::Any); } }
        Ok(x)
    }
}
#[derive(Clone, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum Units { One, Second, #[serde(rename = "T")] #[cbor(rename = "T")] Three }
impl Sm for Units {
    fn gen() -> Self { [Units::One, Units::Second, Units::Three][sx::choose(3) as usize].clone() }
    fn enc(&self) -> RV { t(match self { Units::One => "One", Units::Second => "Second", Units::Three => "T" }) }
    fn dec(r: &RV) -> D<Self> { for u in [Units::One, Units::Second, Units::Three] { if u.enc() == *r { return Ok(u); } } match r { RV::M(m) if m.len() == 1 => Err(E::Any), _ => reject() } }
}
macro_rules! dispatch_s { ($f:path; $($t:ty),* $(,)?) => { crate::dispatch!($f; $($t),*) } }

/// Encoding is the reference encoding; decoding gives the value back.
pub fn round<T: Sm>() { round_of(T::gen()) }
pub fn long<T: Sm + model::Long>() { round_of(<T as model::Long>::long(model::long_len())) }
fn round_of<T: Sm>(x: T) {
    let wb = match bytes_of(&x.enc()) { Some(b) => b, None => { sx::assume(false); return; } };
    match oasis_cbor::serde::to_value(&x) { Ok(v) => sx::check(written(v) == Some(wb.clone()), 1), Err(_) => sx::check(false, 2) }
    match oasis_cbor::serde::to_vec(&x) { Ok(b) => sx::check(b == wb, 3), Err(_) => sx::check(false, 4) }
    sx::check(oasis_cbor::serde::from_slice::<T>(&wb).ok() == Some(x.clone()), 5);
    match oasis_cbor::serde::to_value(&x) { Ok(v) => sx::check(oasis_cbor::serde::from_value::<T>(v).ok() == Some(x), 6), Err(_) => sx::check(false, 7) }
    sx::reach(1);
}
fn sagrees<T: Sm>(got: Option<T>, want: &D<T>, id: u32) {
    match (got, want) {
        (_, Err(E::Any)) => sx::reach(3),
        (Some(x), Ok(y)) => { sx::check(x == *y, id); sx::reach(1) }
        (None, Err(E::Reject)) => sx::reach(2),
        (Some(_), Err(E::Reject)) => sx::check(false, id + 1),
        (None, Ok(_)) => sx::check(false, id + 2),
    }
}
fn decode_both<T: Sm>(r: &RV) {
    sagrees(oasis_cbor::serde::from_value::<T>(rm::to_value(r)).ok(), &T::dec(r), 1);
    if let Some(b) = bytes_of(r) {
        let want = match rm::decode(&b, true, Some(64)) { Some((s, n)) => { sx::check(n == b.len(), 20); T::dec(&s) } None => { sx::check(false, 19); return } };
        sagrees(oasis_cbor::serde::from_slice::<T>(&b).ok(), &want, 21);
    }
}
pub fn anyvalue<T: Sm>() {
    let mut g = rm::Gen { nodes: sx::param(0, 2) as i32, kinds: sx::param(1, 0xff) as u8, maxlen: sx::param(2, 1) as u8, maxitems: sx::param(3, 2) as u8 };
    let r = g.value(sx::param(4, 1) as u8);
    decode_both::<T>(&r);
}
pub fn mutated<T: Sm>() {
    let mut r = T::gen().enc();
    model::mutate(&mut r, sx::param(5, 255) as u32);
    decode_both::<T>(&r);
}
pub fn frombytes<T: Sm>() {
    let d = sx::input(3);
    let want = match rm::decode(&d, true, Some(64)) { Some((r, n)) if n == d.len() => T::dec(&r), _ => reject() };
    sagrees(oasis_cbor::serde::from_slice::<T>(&d).ok(), &want, 1);
}
macro_rules! prims { ($f:path) => { dispatch_s!($f; u8, u16, u32, u64, i8, i16, i32, i64, u128, bool, char, String, (), Bytes, Option<u64>, Option<String>, Option<bool>) } }
macro_rules! comps { ($f:path) => { dispatch_s!($f; Vec<u8>, Vec<String>, Vec<Option<u8>>, Vec<(u8, bool)>, [u16; 2], (u8,), (u8, String), (Option<u8>, bool, i16), BTreeMap<u8, bool>, BTreeMap<String, u16>, BTreeSet<u16>, Option<Vec<u16>>, Vec<Bytes>, BTreeMap<i16, Vec<u8>>,
    Small, Plain, Nested, Deny, Empty, Unit, New, Tup, En, Units, Vec<En>, Option<Small>) } }
harness!(s_prim, { prims!(round) });
harness!(s_long, { dispatch_s!(long; String, Vec<bool>, Vec<u16>, Vec<Option<u8>>, Vec<String>, BTreeMap<String, u16>, BTreeSet<u16>, Option<Vec<u16>>) });
harness!(s_comp, { comps!(round) });
harness!(s_prim_any, { prims!(anyvalue) });
harness!(s_comp_any, { comps!(anyvalue) });
harness!(s_prim_mut, { prims!(mutated) });
harness!(s_comp_mut, { comps!(mutated) });
harness!(s_prim_bytes, { prims!(frombytes) });
harness!(s_comp_bytes, { comps!(frombytes) });

/// Types with both implementations: same bytes, and either side decodes what the other encodes.
fn compat<T: Sm + Encode + Decode>() {
    let x = T::gen();
    let a = oasis_cbor::to_vec(x.clone());
    match oasis_cbor::serde::to_vec(&x) { Ok(b) => sx::check(a == b, 1), Err(_) => sx::check(false, 2) }
    match oasis_cbor::serde::to_value(&x) { Ok(v) => sx::check(written(v) == written(oasis_cbor::to_value(x.clone())), 3), Err(_) => sx::check(false, 4) }
    sx::check(oasis_cbor::serde::from_slice::<T>(&a).ok() == Some(x.clone()), 5);
    match oasis_cbor::serde::to_vec(&x) { Ok(b) => sx::check(oasis_cbor::from_slice::<T>(&b).ok() == Some(x.clone()), 6), Err(_) => {} }
    sx::check(oasis_cbor::serde::from_value::<T>(oasis_cbor::to_value(x.clone())).ok() == Some(x), 7);
    sx::reach(1);
}
harness!(s_compat, { dispatch_s!(compat; u8, u16, u32, u64, i8, i16, i32, i64, u128, bool, char, String, (), Option<u64>, Option<String>, Vec<u16>, Vec<String>, Vec<Option<u8>>, (u64,), (u8, String), (Option<u8>, bool, i16), BTreeMap<u8, bool>, BTreeMap<String, u16>, BTreeSet<u16>, Option<Vec<u16>>, Vec<(u8, bool)>,
    Small, Plain, Nested, Unit, New, Tup, En, Units) });

/// Known finding: the derive macros keep the prefix of raw identifiers, serde drops it.
#[derive(Clone, Default, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub struct RawIdent { r#type: u8 }
#[derive(Clone, Default, PartialEq, Serialize, Deserialize, Encode, Decode)]
pub enum RawVariant { #[default] r#Loop, B }
harness!(s_compat_known, {
    fn one<T: Serialize + Encode + Clone>(x: T, id: u32) { sx::check(oasis_cbor::serde::to_vec(&x).ok() == Some(oasis_cbor::to_vec(x)), id) }
    match sx::choose(2) { 0 => one(RawIdent { r#type: 1 }, 1), _ => one(RawVariant::r#Loop, 2) }
});

// Every 64-bit unsigned or negative integer, decoded into every integer type: the exact number or an error.
fn narrow<T: DeserializeOwned + TryFrom<i128> + PartialEq>() {
    let n = sx::u64(); let neg = sx::choose(2) == 1;
    let num = if neg { -1 - n as i128 } else { n as i128 };
    let v = if neg { Value::Negative(num) } else { Value::Unsigned(n) };
    let b = written(v.clone()).unwrap();
    for got in [oasis_cbor::serde::from_value::<T>(v).ok(), oasis_cbor::serde::from_slice::<T>(&b).ok()] {
        match (T::try_from(num), got) { (Ok(x), Some(y)) => { sx::check(x == y, 1); sx::reach(1) } (Err(_), None) => sx::reach(2), (Ok(_), None) => sx::check(false, 2), (Err(_), Some(_)) => sx::check(false, 3) }
    }
}
harness!(s_narrow, { dispatch_s!(narrow; u8, u16, u32, u64, i8, i16, i32, i64, i128) });
/// An integer type that keeps whatever the deserializer hands over.
#[derive(PartialEq)]
enum Raw { U(u64), I(i128) }
impl<'de> Deserialize<'de> for Raw {
    fn deserialize<T: serde::Deserializer<'de>>(d: T) -> Result<Self, T::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Raw;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("integer") }
            fn visit_u64<E>(self, v: u64) -> Result<Raw, E> { Ok(Raw::U(v)) }
            fn visit_i64<E>(self, v: i64) -> Result<Raw, E> { Ok(Raw::I(v as i128)) }
            fn visit_i128<E>(self, v: i128) -> Result<Raw, E> { Ok(Raw::I(v)) }
        }
        d.deserialize_any(V)
    }
}
harness!(s_raw, {
    let n = sx::u64(); let neg = sx::choose(2) == 1;
    let num = -1 - n as i128;
    let (v, want) = if neg { (Value::Negative(num), Raw::I(num)) } else { (Value::Unsigned(n), Raw::U(n)) };
    sx::check(oasis_cbor::serde::from_value::<Raw>(v).ok() == Some(want), 1); sx::reach(1 + neg as u32);
});

// Floats are refused both ways, wherever they appear; so are tags when they are used.
harness!(s_refused, {
    let (a, b) = (sx::u32(), sx::u64());
    let r = match sx::choose(8) {
        0 => oasis_cbor::serde::to_vec(&f32::from_bits(a)).is_err(), 1 => oasis_cbor::serde::to_vec(&f64::from_bits(b)).is_err(),
        2 => oasis_cbor::serde::to_value(&(1u8, f64::from_bits(b))).is_err(), 3 => oasis_cbor::serde::to_value(&Some(f32::from_bits(a))).is_err(),
        4 => oasis_cbor::serde::from_value::<f64>(Value::Unsigned(b)).is_err(), 5 => oasis_cbor::serde::from_value::<f32>(Value::Simple(SimpleValue::NullValue)).is_err(),
        6 => oasis_cbor::serde::from_value::<u64>(Value::Tag(b, Box::new(Value::Unsigned(b)))).is_err(),
        _ => oasis_cbor::serde::to_value(&(b as i128)).is_err(),
    };
    sx::check(r, 1); sx::reach(1);
});

// No value at all is a float: every small value, alone and where a float is expected inside other types.
#[derive(Clone, PartialEq, Serialize, Deserialize)]
struct WithFloat { a: u8, f: f64 }
#[derive(Clone, PartialEq, Serialize, Deserialize)]
enum FloatOr { F(f32), N(f64), S { x: f64 }, U }
#[derive(Clone, PartialEq, Serialize, Deserialize)]
struct NewFloat(f64);
harness!(s_floats, {
    use oasis_cbor::serde::from_value as fv;
    let mut g = rm::Gen { nodes: sx::param(0, 2) as i32, kinds: 0xff, maxlen: 1, maxitems: 2 };
    let r = g.value(1); let v = || rm::to_value(&r); let null = matches!(r, RV::S(22) | RV::S(23));
    let arr = |x: Value| Value::Array(vec![Value::Unsigned(1), x]); let t = |s: &str| Value::TextString(s.to_string());
    let ok = match sx::choose(12) {
        0 => fv::<f32>(v()).is_err(), 1 => fv::<f64>(v()).is_err(), 2 => match fv::<Option<f64>>(v()) { Ok(x) => x.is_none() && null, Err(_) => true },
        3 => match fv::<Vec<f64>>(v()) { Ok(x) => x.is_empty(), Err(_) => true }, 4 => fv::<Vec<f32>>(arr(v())).is_err(), 5 => fv::<(u8, f64)>(arr(v())).is_err(),
        6 => fv::<WithFloat>(Value::Map(vec![(t("a"), Value::Unsigned(1)), (t("f"), v())])).is_err(), 7 => fv::<FloatOr>(Value::Map(vec![(t("F"), v())])).is_err() && fv::<FloatOr>(Value::Map(vec![(t("N"), v())])).is_err(),
        8 => fv::<FloatOr>(Value::Map(vec![(t("S"), Value::Map(vec![(t("x"), v())]))])).is_err(), 9 => fv::<NewFloat>(v()).is_err(),
        10 => match fv::<BTreeMap<u8, f64>>(v()) { Ok(x) => x.is_empty(), Err(_) => true }, _ => match fv::<Vec<Option<f32>>>(arr(v())) { Ok(_) => false, Err(_) => true },
    };
    sx::check(ok, 1); sx::reach(1); if null { sx::reach(2); }
});

// Maps serialized in any order, possibly with a repeated key: sorted, or refused.
struct Pairs(Vec<(u8, String)>);
impl Serialize for Pairs { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { use serde::ser::SerializeMap; let mut m = s.serialize_map(None)?; for (k, v) in &self.0 { m.serialize_entry(v, k)?; } m.end() } }
harness!(s_pairs, {
    let n = sx::choose(4); let p: Vec<(u8, String)> = (0..n).map(|i| (i, <String as Model>::gen())).collect();
    let want = bytes_of(&RV::M(p.iter().map(|(k, v)| (Model::enc(v), Model::enc(k))).collect()));
    let got = oasis_cbor::serde::to_vec(&Pairs(p)).ok();
    sx::check(got == want, 1); sx::reach(1 + want.is_none() as u32);
    if let Some(b) = want { sx::check(oasis_cbor::serde::from_slice::<BTreeMap<String, u8>>(&b).is_ok(), 2); }
});

// Representations where serde buffers the content (internally tagged, untagged, flattened, adjacently tagged), and
// the attributes which change names and defaults.
#[derive(Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "t")]
enum Inner { A { x: u8, y: Option<i32> }, B { z: Vec<String> }, C }
#[derive(Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "t", content = "c")]
enum Adjacent { A(u8), B { z: bool }, C, D(u8, i64) }
#[derive(Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
enum Untagged { A(u8), B(String), C { z: bool }, D(Vec<i64>), E(u64, bool), F(Bytes) }
#[derive(Clone, PartialEq, Serialize, Deserialize)]
struct Flat { a: u8, #[serde(flatten)] rest: Small, #[serde(flatten)] more: BTreeMap<String, i64> }
#[derive(Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "kebab-case")]
struct Attr { some_name: u8, #[serde(default, skip_serializing_if = "Option::is_none")] opt: Option<u8>, #[serde(skip)] gone: u8, #[serde(alias = "other")] al: bool, #[serde(with = "hex")] h: u8 }
mod hex {
    use serde::Deserialize;
    pub fn serialize<S: serde::Serializer>(x: &u8, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(if *x == 0 { "zero" } else { "one" }) }
    pub fn deserialize<'de, D: serde::Deserializer<'de>>(d: D) -> Result<u8, D::Error> { Ok((String::deserialize(d)? == "one") as u8) }
}
fn back<T: Serialize + DeserializeOwned + PartialEq + Clone>(x: T, want: RV) {
    let wb = bytes_of(&want);
    match oasis_cbor::serde::to_vec(&x) { Ok(b) => sx::check(Some(&b) == wb.as_ref(), 1), Err(_) => sx::check(false, 2) }
    sx::check(oasis_cbor::serde::from_slice::<T>(&wb.unwrap()).ok() == Some(x.clone()), 3);
    match oasis_cbor::serde::to_value(&x) { Ok(v) => sx::check(oasis_cbor::serde::from_value::<T>(v).ok() == Some(x), 4), Err(_) => sx::check(false, 5) }
}
harness!(s_buffered, {
    let (a, b, c) = (sx::u8(), sx::u32() as i32, sx::bool());
    let i = sx::choose(15);
    match i {
        0 => back(Inner::A { x: a, y: None }, RV::M(vec![(t("t"), t("A")), (t("x"), Sm::enc(&a)), (t("y"), RV::S(22))])),
        1 => back(Inner::A { x: a, y: Some(b) }, RV::M(vec![(t("t"), t("A")), (t("x"), Sm::enc(&a)), (t("y"), Sm::enc(&b))])),
        2 => { let z: Vec<String> = Sm::gen(); back(Inner::B { z: z.clone() }, RV::M(vec![(t("t"), t("B")), (t("z"), Sm::enc(&z))])) }
        3 => back(Inner::C, RV::M(vec![(t("t"), t("C"))])),
        4 => back(Adjacent::A(a), RV::M(vec![(t("t"), t("A")), (t("c"), Sm::enc(&a))])),
        5 => back(Adjacent::B { z: c }, RV::M(vec![(t("t"), t("B")), (t("c"), RV::M(vec![(t("z"), Sm::enc(&c))]))])),
        6 => back(Adjacent::C, RV::M(vec![(t("t"), t("C"))])),
        7 => { let d = sx::u64() as i64; back(Adjacent::D(a, d), RV::M(vec![(t("t"), t("D")), (t("c"), RV::A(vec![Sm::enc(&a), Sm::enc(&d)]))])) }
        8 => back(Untagged::A(a), Sm::enc(&a)),
        9 => { let s: String = Sm::gen(); back(Untagged::B(s.clone()), Sm::enc(&s)) }
        10 => back(Untagged::C { z: c }, RV::M(vec![(t("z"), Sm::enc(&c))])),
        11 => { let d: Vec<i64> = Sm::gen(); back(Untagged::D(d.clone()), Sm::enc(&d)) }
        12 => { let d = sx::u64(); back(Untagged::E(d, c), RV::A(vec![Sm::enc(&d), Sm::enc(&c)])) }
        13 => { let d = sx::u64() as i64; let mut m = BTreeMap::new(); if c { m.insert("k".to_string(), d); } let mut w = vec![(t("a"), Sm::enc(&a)), (t("x"), Sm::enc(&(b as u8)))]; if c { w.push((t("k"), Sm::enc(&d))); } back(Flat { a, rest: Small { x: b as u8 }, more: m }, RV::M(w)) }
        _ => { let o = if c { Some(a) } else { None }; let mut w = vec![(t("some-name"), Sm::enc(&a)), (t("al"), Sm::enc(&c)), (t("h"), t(if b < 0 { "one" } else { "zero" }))]; if c { w.push((t("opt"), Sm::enc(&a))); } back(Attr { some_name: a, opt: o, gone: 0, al: c, h: (b < 0) as u8 }, RV::M(w)) }
    }
    sx::reach(1 + (i / 8) as u32);
});
// Recursive types: nesting up to the limit decodes, deeper input is refused.
#[derive(Clone, PartialEq, Serialize, Deserialize)]
enum List { Nil, C(Box<List>) }
#[derive(Clone, PartialEq, Serialize, Deserialize)]
struct Tree { v: u8, #[serde(default)] c: Vec<Tree> }
harness!(s_depth, {
    let lo = sx::param(2, 60) as u8; let n = lo + sx::choose(sx::param(0, 10) as u8);
    let leaf = sx::u8();
    let mut w = Vec::new();
    if sx::choose(2) == 0 {
        for _ in 0..n { w.extend_from_slice(&[0xa1, 0x61, b'C']); } w.extend_from_slice(&[0x63, b'N', b'i', b'l']);
        let r = oasis_cbor::serde::from_slice::<List>(&w);
        match r { Ok(l) => { sx::check(n <= 64, 1); let mut x = &l; let mut k = 0; while let List::C(y) = x { x = y; k += 1; } sx::check(k == n, 2); sx::reach(1); match oasis_cbor::serde::to_vec(&l) { Ok(b) => sx::check(b == w, 3), Err(_) => sx::check(false, 4) } } Err(_) => { sx::check(n > 64, 5); sx::reach(2) } }
    } else {
        for _ in 0..n / 2 { w.extend_from_slice(&[0xa2, 0x61, b'c', 0x81]); w.push(0); let l = w.len(); w.truncate(l - 1); }
        w.extend_from_slice(&[0xa1, 0x61, b'v']); rm::encode(&RV::U(leaf as u64), &mut w);
        for _ in 0..n / 2 { w.extend_from_slice(&[0x61, b'v', 0]); }
        let deep = n / 2 * 2 + 1;
        match oasis_cbor::serde::from_slice::<Tree>(&w) { Ok(t) => { sx::check(deep <= 64, 6); let mut x = &t; while let Some(y) = x.c.first() { x = y; } sx::check(x.v == leaf, 7); sx::reach(1) } Err(_) => { sx::check(deep > 64, 8); sx::reach(2) } }
    }
});
// The C entry point of the differential fuzzer accepts exactly what non-strict decoding accepts.
harness!(s_difffuzz, {
    let d = sx::input(4);
    let r = difffuzz::cbor_from_slice(d.as_ptr(), d.len());
    let want = rm::decode(&d, false, Some(64)).is_some();
    sx::check(r == if want { 0 } else { 1 }, 1);
    sx::check((r == 0) == oasis_cbor::from_slice_non_strict::<Value>(&d).is_ok(), 2);
    sx::reach(1 + want as u32);
});
harness!(s_difffuzz_depth, {
    let lo = sx::param(2, 58) as u8; let n = lo + sx::choose(sx::param(0, 12) as u8);
    let head = [0x81u8, 0x9b, 0xc6, 0xa1, 0xd8][sx::choose(5) as usize];
    let mut w = Vec::new(); let tag = sx::u8();
    for _ in 0..n { w.push(head); match head { 0x9b => w.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 1]), 0xd8 => w.push(tag), 0xa1 => w.push(0), _ => {} } }
    w.push(sx::u8());
    let want = rm::decode(&w, false, Some(64)).is_some();
    sx::check((difffuzz::cbor_from_slice(w.as_ptr(), w.len()) == 0) == want, 1);
    sx::reach(1 + want as u32);
});

#[cfg(feature = "swrap")]
#[path = "swrapped.rs"]
pub mod swrapped;

// The serde entry points agree with the reader and writer at the documented limits and with going through the value.
fn entry<T: Sm>() {
    let d = sx::input(3);
    let v = oasis_cbor::reader::read_nested(&d, Some(64));
    let whole = v.is_ok();
    let want = match v { Ok(v) => oasis_cbor::serde::from_value::<T>(v).ok(), Err(_) => None };
    let got = oasis_cbor::serde::from_slice::<T>(&d).ok();
    sx::check(got == want, 1);
    match got { Some(x) => { sx::reach(1);
        match (oasis_cbor::serde::to_vec(&x), oasis_cbor::serde::to_value(&x)) { (Ok(b), Ok(v)) => sx::check(written(v) == Some(b), 2), _ => sx::check(false, 3) } }
        None => sx::reach(2 + whole as u32) }
}
harness!(s_api, { dispatch_s!(entry; u8, i64, String, (), Bytes, Option<u64>, Vec<u16>, Vec<String>, (u8, bool), BTreeMap<u8, bool>, Small, New, En, Units) });
#[derive(Clone, PartialEq, Serialize, Deserialize)]
#[serde(transparent)]
struct Rec(Vec<Rec>);
harness!(s_api_depth, {
    let k = sx::param(2, 56) as usize + sx::choose(sx::param(0, 16) as u8) as usize; // containers
    let mut d = vec![0x81u8; k - 1]; d.push(0x80);
    let mut x = Rec(vec![]); for _ in 1..k { x = Rec(vec![x]); }
    let r = oasis_cbor::serde::from_slice::<Rec>(&d);
    // An empty array at the limit is still within it.
    let fits = oasis_cbor::reader::read_nested(&d, Some(64)).is_ok();
    sx::check(fits == (k <= 65), 1);
    match r { Ok(y) => { sx::check(fits && y == x, 2); sx::reach(1) } Err(_) => { sx::check(!fits, 3); sx::reach(2) } }
    let (v, mut o) = (oasis_cbor::serde::to_value(&x), Vec::new());
    let w = match v { Ok(v) => oasis_cbor::writer::write(v, &mut o).is_ok(), Err(_) => { sx::check(false, 4); return } };
    sx::check(w == (k <= 128), 5);
    match oasis_cbor::serde::to_vec(&x) { Ok(b) => { sx::check(w && b == d && o == d, 6); sx::reach(3) } Err(_) => { sx::check(!w, 7); sx::reach(4) } }
    // A leaf at the bottom, through the dynamic value.
    let leaf = sx::u8(); let mut v = Value::Unsigned(leaf as u64); for _ in 0..k { v = Value::Array(vec![v]); }
    let mut o = Vec::new(); let w = oasis_cbor::writer::write(v, &mut o).is_ok();
    sx::check(w == (k <= 127), 8);
});

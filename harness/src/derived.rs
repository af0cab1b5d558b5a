//! Types using the derive macros, with hand-written reference semantics.
#[cfg(feature = "derive")]
use crate::harness;
use crate::{dispatch, model, model::{dec_default, reject, Model, D, E}, refmodel as rm, refmodel::RV, sx};
use oasis_cbor::{Decode, DecodeError, Encode, EncodeAsMap, Value};
use std::collections::BTreeMap;
/// In the groups "wrap", "attrs" and "coll" only the types of this file are used.
#[cfg(not(feature = "derive"))]
macro_rules! harness { ($name:ident, $body:block) => {} }

fn t(s: &str) -> RV { RV::T(s.as_bytes().to_vec()) }
/// Takes the fields with the given keys out of a map.
fn fields(r: &RV, keys: &[RV], allow_unknown: bool) -> D<Vec<Option<RV>>> {
    let m = match r { RV::M(m) => m, _ => return reject() };
    let mut out: Vec<Option<RV>> = keys.iter().map(|_| None).collect();
    let mut dup = false;
    for (k, v) in m {
        match keys.iter().position(|x| x == k) {
            Some(i) => { if out[i].is_some() { dup = true; } out[i] = Some(v.clone()); }
            None => if !allow_unknown { return reject(); },
        }
    }
    if dup { return Err(if allow_unknown { E::Any } else { E::Reject }); }
    Ok(out)
}
fn field<T: Model>(f: &mut Vec<Option<RV>>) -> D<T> { match f.remove(0) { Some(v) => dec_default(&v), None => T::def().ok_or(E::Reject) } }
fn elems(r: &RV, n: usize) -> D<Vec<Option<RV>>> { match r { RV::A(a) if a.len() == n => Ok(a.iter().map(|x| Some(x.clone())).collect()), _ => reject() } }

/// A struct encoded as a map: `key => field: type` lists in declaration order; `opt` fields are left out when empty.
macro_rules! map_struct {
    ($name:ident, $allow:expr, $def:expr, $null:expr; $($f:ident : $ft:ty = $k:expr, $opt:expr);* $(;)?) => {
        impl Model for $name {
            fn gen() -> Self { $name { $($f: <$ft>::gen()),* } }
            #[allow(unused_mut)]
            fn enc(&self) -> RV { let mut m = Vec::new(); $(if !($opt && self.$f.empty()) { m.push(($k, self.$f.enc())); })* RV::M(m) }
            #[allow(unused_mut, unused_variables)]
            fn dec(r: &RV) -> D<Self> { let mut f = fields(r, &[$($k),*], $allow)?; Ok($name { $($f: field(&mut f)?),* }) }
            fn def() -> Option<Self> { $def }
            fn inner_empty(&self) -> bool { false }
            fn empty(&self) -> bool { !$null && matches!(self.enc(), RV::M(m) if m.is_empty()) }
        }
    };
}

#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct Plain { b: u8, a: bool, ccc: Vec<u8> }
map_struct! { Plain, false, Some(Plain::default()), false; b: u8 = t("b"), false; a: bool = t("a"), false; ccc: Vec<u8> = t("ccc"), false }

#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct Small { a: u8 }
map_struct! { Small, false, Some(Small::default()), false; a: u8 = t("a"), false }

#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct Nested { x: Small, o: Option<u16>, v: Vec<Small> }
map_struct! { Nested, false, Some(Nested::default()), false; x: Small = t("x"), false; o: Option<u16> = t("o"), false; v: Vec<Small> = t("v"), false }

#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct Opt { #[cbor(optional)] a: u8, #[cbor(optional)] b: String, #[cbor(optional)] c: Option<bool>, d: u8 }
map_struct! { Opt, false, Some(Opt::default()), false; a: u8 = t("a"), true; b: String = t("b"), true; c: Option<bool> = t("c"), true; d: u8 = t("d"), false }

#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct OptKinds { #[cbor(optional)] a: Vec<u8>, #[cbor(optional)] b: bool, #[cbor(optional)] c: i16, #[cbor(optional)] d: u128, #[cbor(optional)] e: char }
map_struct! { OptKinds, false, Some(OptKinds::default()), false; a: Vec<u8> = t("a"), true; b: bool = t("b"), true; c: i16 = t("c"), true; d: u128 = t("d"), true; e: char = t("e"), true }

#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct OptColl { #[cbor(optional)] a: (u8, bool), #[cbor(optional)] b: BTreeMap<u8, bool>, #[cbor(optional)] c: [u8; 2], #[cbor(optional)] d: (), #[cbor(optional)] e: Vec<u16> }
map_struct! { OptColl, false, Some(OptColl::default()), false; a: (u8, bool) = t("a"), true; b: BTreeMap<u8, bool> = t("b"), true; c: [u8; 2] = t("c"), true; d: () = t("d"), true; e: Vec<u16> = t("e"), true }

#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct OptOnly { #[cbor(optional)] s: u8 }
map_struct! { OptOnly, false, Some(OptOnly::default()), false; s: u8 = t("s"), true }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct OptNested { #[cbor(optional)] i: OptOnly, #[cbor(optional)] j: Small, #[cbor(optional)] k: Trans, #[cbor(optional)] u: Unit }
map_struct! { OptNested, false, Some(OptNested::default()), false; i: OptOnly = t("i"), true; j: Small = t("j"), true; k: Trans = t("k"), true; u: Unit = t("u"), true }

#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct Renamed { #[cbor(rename = "zz")] a: u8, #[cbor(rename = 300)] b: u8, d: u8, #[cbor(rename = 3)] c: bool, #[cbor(rename = "")] e: bool, #[cbor(rename = 24, optional)] f: u8 }
map_struct! { Renamed, false, Some(Renamed::default()), false; a: u8 = t("zz"), false; b: u8 = RV::U(300), false; d: u8 = t("d"), false; c: bool = RV::U(3), false; e: bool = t(""), false; f: u8 = RV::U(24), true }

#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct Unknown { m: u8, #[cbor(rename = 9)] dd: bool, #[cbor(optional)] o: u8 }
map_struct! { Unknown, true, Some(Unknown::default()), false; m: u8 = t("m"), false; dd: bool = RV::U(9), false; o: u8 = t("o"), true }

#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(no_default)]
pub struct NoDef { #[cbor(optional)] a: u8 }
map_struct! { NoDef, false, None, true; a: u8 = t("a"), true }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct HasNoDef { #[cbor(optional)] n: NoDef, z: u8 }
map_struct! { HasNoDef, false, Some(HasNoDef::default()), false; n: NoDef = t("n"), true; z: u8 = t("z"), false }

#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct Empty {}
map_struct! { Empty, false, Some(Empty {}), false; }

#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct Gen1<T: Encode + Decode + Default> { v: T, #[cbor(optional)] w: Option<T> }
type G8 = Gen1<u8>;
map_struct! { G8, false, Some(G8 { v: 0, w: None }), false; v: u8 = t("v"), false; w: Option<u8> = t("w"), true }

#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct Unit;
impl Model for Unit {
    fn gen() -> Self { Unit }
    fn enc(&self) -> RV { RV::S(22) }
    fn dec(r: &RV) -> D<Self> { match r { RV::S(22) | RV::S(23) => Ok(Unit), _ => reject() } }
    fn def() -> Option<Self> { Some(Unit) }
    fn inner_empty(&self) -> bool { false }
    fn empty(&self) -> bool { true }
}

macro_rules! arr_struct {
    ($name:ident, $n:expr, $def:expr; $($f:tt : $ft:ty),*) => {
        impl Model for $name {
            fn gen() -> Self { $name { $($f: <$ft>::gen()),* } }
            fn enc(&self) -> RV { RV::A(vec![$(self.$f.enc()),*]) }
            fn dec(r: &RV) -> D<Self> { let mut f = elems(r, $n)?; Ok($name { $($f: field(&mut f)?),* }) }
            fn def() -> Option<Self> { $def }
        }
    };
}
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(as_array)]
pub struct Arr { b: u8, a: Vec<u8>, c: Option<u8> }
arr_struct! { Arr, 3, Some(Arr::default()); b: u8, a: Vec<u8>, c: Option<u8> }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct Tup(u8, String, bool);
arr_struct! { Tup, 3, Some(Tup::default()); 0: u8, 1: String, 2: bool }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct New(u64);
arr_struct! { New, 1, Some(New::default()); 0: u64 }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(no_default)]
pub struct TupNoDef(u8, Small);
arr_struct! { TupNoDef, 2, None; 0: u8, 1: Small }

macro_rules! transparent { ($name:ident, $t:ty, $def:expr) => { impl Model for $name {
    fn gen() -> Self { $name(<$t>::gen()) }
    fn enc(&self) -> RV { self.0.enc() }
    fn dec(r: &RV) -> D<Self> { Ok($name(dec_default(r)?)) }
    fn def() -> Option<Self> { $def }
    fn inner_empty(&self) -> bool { false }
    fn empty(&self) -> bool { Self::def().is_some() && self.0.empty() }
} } }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(transparent)]
pub struct Trans(u64);
transparent! { Trans, u64, Some(Trans(0)) }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(transparent)]
pub struct TransOpt(Option<u8>);
transparent! { TransOpt, Option<u8>, Some(TransOpt(None)) }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(transparent)]
pub struct TransStruct(OptOnly);
transparent! { TransStruct, OptOnly, Some(TransStruct::default()) }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(transparent, no_default)]
pub struct TransNoDef(Vec<u8>);
transparent! { TransNoDef, Vec<u8>, None }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct HasTransNoDef { #[cbor(optional)] a: TransNoDef, #[cbor(optional)] b: TransStruct }
map_struct! { HasTransNoDef, false, Some(HasTransNoDef::default()), false; a: TransNoDef = t("a"), true; b: TransStruct = t("b"), true }

/// A type without its own encoding: stored as a number one higher.
#[derive(Clone, Default, PartialEq)]
pub struct Custom(u8);
fn enc_custom(c: &Custom) -> u16 { if c.0 == 0 { 0 } else { c.0 as u16 + 1 } }
fn dec_custom(v: u16) -> Result<Custom, DecodeError> { if v == 0 { Ok(Custom(0)) } else if v >= 2 && v <= 256 { Ok(Custom((v - 1) as u8)) } else { Err(DecodeError::UnexpectedType) } }
impl Model for Custom {
    fn gen() -> Self { Custom(sx::u8()) }
    fn enc(&self) -> RV { RV::U(if self.0 == 0 { 0 } else { self.0 as u64 + 1 }) }
    fn dec(r: &RV) -> D<Self> { let v = <u16 as Model>::dec(r)?; if v == 0 { Ok(Custom(0)) } else if v >= 2 && v <= 256 { Ok(Custom((v - 1) as u8)) } else { reject() } }
    fn def() -> Option<Self> { Some(Custom(0)) }
    fn empty(&self) -> bool { self.0 == 0 }
}
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct With { #[cbor(serialize_with = "enc_custom", deserialize_with = "dec_custom")] a: Custom, #[cbor(optional, serialize_with = "enc_custom", deserialize_with = "dec_custom")] b: Custom,
    #[cbor(optional, serialize_with = "enc_inc", deserialize_with = "dec_inc")] n: u8 }
map_struct! { With, false, Some(With { a: Custom(0), b: Custom(0), n: 0 }), false; a: Custom = t("a"), false; b: Custom = t("b"), true; n: u8Inc = t("n"), true }
/// A number stored as its complement, so that 255 is what is left out when empty.
#[allow(non_camel_case_types)]
type u8Inc = u8;
fn enc_inc(v: &u8) -> u8 { *v }
fn dec_inc(v: u8) -> Result<u8, DecodeError> { Ok(v) }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(as_array)]
pub struct WithArr { x: u8, #[cbor(serialize_with = "enc_custom", deserialize_with = "dec_custom")] a: Custom }
arr_struct! { WithArr, 2, Some(WithArr::default()); x: u8, a: Custom }
fn enc_not(v: &u8) -> u8 { !*v }
fn dec_not(v: u8) -> Result<u8, DecodeError> { Ok(!v) }
/// The omitted form is decided by what is stored: 255 is stored as 0 and left out, a missing field is 255.
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct WithNot { #[cbor(optional, serialize_with = "enc_not", deserialize_with = "dec_not")] n: u8 }
impl Model for WithNot {
    fn gen() -> Self { WithNot { n: sx::u8() } }
    fn enc(&self) -> RV { RV::M(if self.n == 255 { vec![] } else { vec![(t("n"), RV::U(!self.n as u64))] }) }
    fn dec(r: &RV) -> D<Self> { let mut f = fields(r, &[t("n")], false)?; Ok(WithNot { n: !field::<u8>(&mut f)? }) }
    fn def() -> Option<Self> { Some(WithNot { n: 0 }) }
    fn empty(&self) -> bool { self.n == 255 }
}

macro_rules! structs { ($f:path) => { dispatch!($f; Plain, Small, Nested, Opt, OptKinds, OptColl, OptOnly, OptNested, Renamed, Unknown, NoDef, HasNoDef, Empty, G8, Unit, Arr, Tup, New, TupNoDef, Trans, TransOpt, TransStruct, TransNoDef, HasTransNoDef, With, WithArr) } }
harness!(d_struct, { structs!(model::round) });
harness!(d_struct_null, { structs!(model::null) });
harness!(d_struct_any, { structs!(model::anyvalue) });
harness!(d_struct_mut, { structs!(model::mutated) });
harness!(d_struct_bytes, { structs!(model::frombytes) });

// Optional fields whose stored form differs from the value: encoding and decoding one field.
harness!(d_withnot, {
    let x = WithNot::gen(); let want = model::bytes_of(&x.enc()).unwrap();
    sx::check(oasis_cbor::to_vec(x.clone()) == want, 1);
    sx::check(oasis_cbor::from_slice::<WithNot>(&want).ok() == Some(x.clone()), 2);
    if x.n == 255 { sx::reach(1) } else { sx::reach(2) }
    let mut r = x.enc(); model::mutate(&mut r, 255);
    model::agrees(oasis_cbor::from_value::<WithNot>(rm::to_value(&r)).ok(), &dec_default::<WithNot>(&r), 10);
});

// A map with any subset of the fields of a struct, in any order, with up to two unknown entries anywhere.
fn subset<T: Model + Decode>() {
    let full = match T::gen().enc() { RV::M(m) => m, _ => return };
    let mut m = Vec::new(); let mut dropped = false;
    if full.len() < 7 { for e in full { if sx::choose(2) == 0 { m.push(e); } else { dropped = true; } } }
    else { let n = full.len() as u8; let a = sx::choose(n + 1); for (i, e) in full.into_iter().enumerate() { if i as u8 == a { dropped = true; } else { m.push(e); } } }
    let extra = sx::choose(sx::param(5, 1) as u8 + 1);
    for _ in 0..extra { let l = m.len(); let at = if l < 6 { sx::choose(l as u8 + 1) as usize } else { [0, l / 2, l][sx::choose(3) as usize] }; let k = model::key(); m.insert(at, (k, RV::U(1))); }
    let n = m.len(); if n > 1 { let i = if n < 7 { sx::choose(n as u8) as usize } else { 3 }; m.rotate_left(i); if sx::choose(2) == 1 { m.reverse(); } }
    let r = RV::M(m);
    let want = dec_default::<T>(&r);
    if dropped { sx::reach(4); } if extra > 0 { sx::reach(5); }
    model::agrees(oasis_cbor::from_value::<T>(rm::to_value(&r)).ok(), &want, 1);
    if let Some(b) = model::bytes_of(&r) { model::agrees(oasis_cbor::from_slice::<T>(&b).ok(), &want, 11); }
}
macro_rules! mapstructs { ($f:path) => { dispatch!($f; Small, Plain, Opt, OptOnly, Renamed, Unknown, NoDef, HasNoDef, Empty, With, Nested) } }
harness!(d_subset, { mapstructs!(subset) });

// Skipped fields are not stored, come back as the default, and are unknown to the decoder.
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct Skip { a: u8, #[cbor(skip)] b: u8, c: bool }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(as_array)]
pub struct SkipArr { a: u8, #[cbor(skip)] b: u8, c: bool }
#[derive(Clone, PartialEq, Encode, Decode)]
pub enum SkipEnum { First { a: u8, #[cbor(skip)] b: u8 }, #[cbor(skip)] Second { z: u8 }, #[cbor(skip)] Third, #[cbor(skip)] Fourth(u8), Fifth }
fn is_seven(x: &u8) -> bool { *x == 7 }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct SkipIf { #[cbor(optional, skip_serializing_if = "is_seven")] a: u8, #[cbor(optional, skip_serializing_if = "String::is_empty")] b: String, #[cbor(optional, skip_serializing_if = "is_custom_seven", serialize_with = "enc_custom", deserialize_with = "dec_custom")] c: Custom }
fn is_custom_seven(x: &Custom) -> bool { x.0 == 7 }
harness!(d_skip, {
    let (a, b, c) = (sx::u8(), sx::u8(), sx::bool());
    let e = oasis_cbor::to_vec(Skip { a, b, c });
    sx::check(Some(&e) == model::bytes_of(&RV::M(vec![(t("a"), a.enc()), (t("c"), c.enc())])).as_ref(), 1);
    sx::check(oasis_cbor::from_slice::<Skip>(&e).ok() == Some(Skip { a, b: 0, c }), 2);
    sx::check(oasis_cbor::from_value::<Skip>(rm::to_value(&RV::M(vec![(t("a"), a.enc()), (t("b"), b.enc()), (t("c"), c.enc())]))).is_err(), 3);
    let e = oasis_cbor::to_vec(SkipArr { a, b, c });
    sx::check(Some(&e) == model::bytes_of(&RV::A(vec![a.enc(), c.enc()])).as_ref(), 4);
    sx::check(oasis_cbor::from_slice::<SkipArr>(&e).ok() == Some(SkipArr { a, b: 0, c }), 5);
    let e = oasis_cbor::to_vec(SkipEnum::First { a, b });
    sx::check(Some(&e) == model::bytes_of(&RV::M(vec![(t("First"), RV::M(vec![(t("a"), a.enc())]))])).as_ref(), 6);
    sx::check(oasis_cbor::from_slice::<SkipEnum>(&e).ok() == Some(SkipEnum::First { a, b: 0 }), 7);
    for v in [SkipEnum::Second { z: a }, SkipEnum::Third, SkipEnum::Fourth(a)] { let e = oasis_cbor::to_vec(v); sx::check(e == [0xf7], 8); sx::check(oasis_cbor::from_slice::<SkipEnum>(&e).is_err(), 9); }
    for r in [RV::M(vec![(t("Second"), RV::M(vec![(t("z"), a.enc())]))]), t("Third"), RV::M(vec![(t("Fourth"), a.enc())])] { sx::check(oasis_cbor::from_value::<SkipEnum>(rm::to_value(&r)).is_err(), 10); }
    sx::check(oasis_cbor::from_value::<SkipEnum>(rm::to_value(&t("Fifth"))).ok() == Some(SkipEnum::Fifth), 11);
    sx::reach(1);
});
harness!(d_skipif, {
    let (a, c) = (sx::u8(), Custom(sx::u8())); let b = <String as Model>::gen();
    let mut m = Vec::new();
    if a != 7 { m.push((t("a"), a.enc())); sx::reach(1) } else { sx::reach(2) }
    if !b.is_empty() { m.push((t("b"), b.enc())); }
    if c.0 != 7 { m.push((t("c"), c.enc())); }
    let e = oasis_cbor::to_vec(SkipIf { a, b: b.clone(), c: c.clone() });
    sx::check(Some(&e) == model::bytes_of(&RV::M(m)).as_ref(), 1);
    let back = SkipIf { a: if a == 7 { 0 } else { a }, b, c: if c.0 == 7 { Custom(0) } else { c } };
    sx::check(oasis_cbor::from_slice::<SkipIf>(&e).ok() == Some(back), 2);
});

// ---- enums ----
#[derive(Clone, PartialEq, Encode, Decode)]
pub enum Units { One = 1, Two = 2, Big = 1000, Neg = -5, #[cbor(rename = "x")] Named, Other, #[cbor(rename = 7)] Seven }
impl Model for Units {
    fn gen() -> Self { [Units::One, Units::Two, Units::Big, Units::Neg, Units::Named, Units::Other, Units::Seven][sx::choose(7) as usize].clone() }
    fn enc(&self) -> RV { match self { Units::One => RV::U(1), Units::Two => RV::U(2), Units::Big => RV::U(1000), Units::Neg => RV::N(4), Units::Named => t("x"), Units::Other => t("Other"), Units::Seven => RV::U(7) } }
    fn dec(r: &RV) -> D<Self> { for v in [Units::One, Units::Two, Units::Big, Units::Neg, Units::Named, Units::Other, Units::Seven] { if v.enc() == *r { return Ok(v); } } reject() }
    fn def() -> Option<Self> { None }
}
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(with_default)]
pub enum UnitsDef { A = 1, #[default] B = 2 }
impl Model for UnitsDef {
    fn gen() -> Self { [UnitsDef::A, UnitsDef::B][sx::choose(2) as usize].clone() }
    fn enc(&self) -> RV { match self { UnitsDef::A => RV::U(1), UnitsDef::B => RV::U(2) } }
    fn dec(r: &RV) -> D<Self> { match r { RV::U(1) => Ok(UnitsDef::A), RV::U(2) => Ok(UnitsDef::B), _ => reject() } }
    fn def() -> Option<Self> { Some(UnitsDef::B) }
}
#[derive(Clone, PartialEq, Encode, Decode)]
pub enum Mixed {
    A, #[cbor(rename = "bee")] B(u8), C(u8, bool), D { x: u8, #[cbor(optional)] y: bool }, #[cbor(as_struct)] E, F {}, #[cbor(rename = 9)] G(Option<u8>), H(Small),
    #[cbor(as_array)] I { q: u8, p: bool }, #[cbor(allow_unknown)] J { m: u8 }, #[cbor(rename = 5)] K, L(()),
}
impl Model for Mixed {
    fn gen() -> Self { match sx::choose(12) { 0 => Mixed::A, 1 => Mixed::B(sx::u8()), 2 => Mixed::C(sx::u8(), sx::bool()), 3 => Mixed::D { x: sx::u8(), y: sx::bool() }, 4 => Mixed::E, 5 => Mixed::F {}, 6 => Mixed::G(Model::gen()), 7 => Mixed::H(Small::gen()), 8 => Mixed::I { q: sx::u8(), p: sx::bool() }, 9 => Mixed::J { m: sx::u8() }, 10 => Mixed::K, _ => Mixed::L(()) } }
    fn enc(&self) -> RV {
        let (k, v) = match self {
            Mixed::A => return t("A"), Mixed::K => return RV::U(5),
            Mixed::B(x) => (t("bee"), x.enc()), Mixed::C(x, y) => (t("C"), RV::A(vec![x.enc(), y.enc()])),
            Mixed::D { x, y } => { let mut m = vec![(t("x"), x.enc())]; if *y { m.push((t("y"), y.enc())); } (t("D"), RV::M(m)) }
            Mixed::E => (t("E"), RV::M(vec![])), Mixed::F {} => (t("F"), RV::M(vec![])), Mixed::G(o) => (RV::U(9), o.enc()), Mixed::H(s) => (t("H"), s.enc()),
            Mixed::I { q, p } => (t("I"), RV::A(vec![q.enc(), p.enc()])), Mixed::J { m } => (t("J"), RV::M(vec![(t("m"), m.enc())])), Mixed::L(()) => (t("L"), RV::S(22)),
        };
        RV::M(vec![(k, v)])
    }
    fn dec(r: &RV) -> D<Self> {
        let m = match r { RV::M(m) if m.len() == 1 => m, RV::T(b) if b == b"A" => return Ok(Mixed::A), RV::U(5) => return Ok(Mixed::K), _ => return reject() };
        let v = &m[0].1;
        Ok(match &m[0].0 {
            RV::T(b) => match &b[..] {
                b"bee" => Mixed::B(dec_default(v)?),
                b"C" => { let mut f = elems(v, 2)?; Mixed::C(field(&mut f)?, field(&mut f)?) }
                b"D" => { let mut f = fields(v, &[t("x"), t("y")], false)?; Mixed::D { x: field(&mut f)?, y: field(&mut f)? } }
                b"E" => { fields(v, &[], false)?; Mixed::E } b"F" => { fields(v, &[], false)?; Mixed::F {} }
                b"H" => Mixed::H(dec_default(v)?),
                b"I" => { let mut f = elems(v, 2)?; Mixed::I { q: field(&mut f)?, p: field(&mut f)? } }
                b"J" => { let mut f = fields(v, &[t("m")], true)?; Mixed::J { m: field(&mut f)? } }
                b"L" => { dec_default::<()>(v)?; Mixed::L(()) }
                _ => return reject(),
            },
            RV::U(9) => Mixed::G(dec_default(v)?),
            _ => return reject(),
        })
    }
    fn def() -> Option<Self> { None }
}
// Embedding.
#[derive(Clone, PartialEq, Encode, Decode)]
pub enum Child { D(String), E { x: u8 }, C(String), U, #[cbor(rename = 6)] V }
impl Model for Child {
    // The overlapping variant C is not generated: the parent's takes precedence when decoding.
    fn gen() -> Self { match sx::choose(4) { 0 => Child::D(Model::gen()), 1 => Child::E { x: sx::u8() }, 2 => Child::U, _ => Child::V } }
    fn enc(&self) -> RV { match self { Child::D(s) => RV::M(vec![(t("D"), s.enc())]), Child::E { x } => RV::M(vec![(t("E"), RV::M(vec![(t("x"), x.enc())]))]), Child::C(s) => RV::M(vec![(t("C"), s.enc())]), Child::U => t("U"), Child::V => RV::U(6) } }
    fn dec(r: &RV) -> D<Self> { match r {
        RV::T(b) if b == b"U" => Ok(Child::U), RV::U(6) => Ok(Child::V),
        RV::M(m) if m.len() == 1 => { let v = &m[0].1; match &m[0].0 { RV::T(k) if k == b"D" => Ok(Child::D(dec_default(v)?)), RV::T(k) if k == b"C" => Ok(Child::C(dec_default(v)?)), RV::T(k) if k == b"E" => { let mut f = fields(v, &[t("x")], false)?; Ok(Child::E { x: field(&mut f)? }) } _ => reject() } }
        _ => reject() } }
    fn def() -> Option<Self> { None }
}
#[derive(Clone, PartialEq, Encode, Decode)]
pub enum Parent { A(String), #[cbor(embed)] B(Child), C(u8), P }
impl Model for Parent {
    fn gen() -> Self { match sx::choose(4) { 0 => Parent::A(Model::gen()), 1 => Parent::B(Child::gen()), 2 => Parent::C(sx::u8()), _ => Parent::P } }
    fn enc(&self) -> RV { match self { Parent::A(s) => RV::M(vec![(t("A"), s.enc())]), Parent::B(c) => c.enc(), Parent::C(n) => RV::M(vec![(t("C"), n.enc())]), Parent::P => t("P") } }
    fn dec(r: &RV) -> D<Self> { match r {
        RV::M(m) if m.len() == 1 && m[0].0 == t("A") => Ok(Parent::A(dec_default(&m[0].1)?)),
        RV::M(m) if m.len() == 1 && m[0].0 == t("C") => Ok(Parent::C(dec_default(&m[0].1)?)),
        RV::T(b) if b == b"P" => Ok(Parent::P),
        r => Ok(Parent::B(dec_default(r)?)) } }
    fn def() -> Option<Self> { None }
}
/// Two embedded types in order; the struct has a varying number of entries.
#[derive(Clone, PartialEq, Encode, Decode)]
pub enum Parent2 { A(u8), #[cbor(embed)] S(Two), #[cbor(embed)] U(Units) }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(no_default)]
pub struct Two { #[cbor(optional)] x: u8, #[cbor(optional)] y: bool }
map_struct! { Two, false, None, true; x: u8 = t("x"), true; y: bool = t("y"), true }
impl Model for Parent2 {
    fn gen() -> Self { match sx::choose(3) { 0 => Parent2::A(sx::u8()), 1 => Parent2::S(Two::gen()), _ => Parent2::U(Units::gen()) } }
    fn enc(&self) -> RV { match self { Parent2::A(n) => RV::M(vec![(t("A"), n.enc())]), Parent2::S(s) => s.enc(), Parent2::U(u) => u.enc() } }
    fn dec(r: &RV) -> D<Self> {
        if let RV::M(m) = r { if m.len() == 1 && m[0].0 == t("A") { return Ok(Parent2::A(dec_default(&m[0].1)?)); } }
        match dec_default::<Two>(r) { Ok(s) => return Ok(Parent2::S(s)), Err(E::Any) => return Err(E::Any), Err(E::Reject) => {} }
        Ok(Parent2::U(dec_default(r)?))
    }
    fn def() -> Option<Self> { None }
}
/// Only unit and embedded variants.
#[derive(Clone, PartialEq, Encode, Decode)]
pub enum Parent3 { #[cbor(rename = 1)] Z, #[cbor(embed)] S(Child), W }
impl Model for Parent3 {
    fn gen() -> Self { match sx::choose(3) { 0 => Parent3::Z, 1 => Parent3::S(Child::gen()), _ => Parent3::W } }
    fn enc(&self) -> RV { match self { Parent3::Z => RV::U(1), Parent3::S(s) => s.enc(), Parent3::W => t("W") } }
    fn dec(r: &RV) -> D<Self> { match r { RV::U(1) => Ok(Parent3::Z), RV::T(b) if b == b"W" => Ok(Parent3::W), r => Ok(Parent3::S(dec_default(r)?)) } }
    fn def() -> Option<Self> { None }
}
// Internally tagged.
#[derive(Clone, PartialEq, Encode, Decode)]
#[cbor(tag = "v")]
pub enum Tagged { #[cbor(rename = 0, missing)] V0 { foo: u8 }, #[cbor(rename = 1)] V1 { bar: u8, #[cbor(optional)] z: u8 }, #[cbor(rename = 2)] V2(Small), V3, #[cbor(rename = "four")] V4 {}, #[cbor(rename = 5, allow_unknown)] V5 { w: u8 }, #[cbor(rename = 6)] V6(Maps) }
#[derive(Clone, PartialEq, Encode, Decode)]
pub enum Maps { P(u8), Q { x: u8 } }
impl Model for Maps {
    fn gen() -> Self { match sx::choose(2) { 0 => Maps::P(sx::u8()), _ => Maps::Q { x: sx::u8() } } }
    fn enc(&self) -> RV { match self { Maps::P(n) => RV::M(vec![(t("P"), n.enc())]), Maps::Q { x } => RV::M(vec![(t("Q"), RV::M(vec![(t("x"), x.enc())]))]) } }
    fn dec(r: &RV) -> D<Self> { match r { RV::M(m) if m.len() == 1 => { if m[0].0 == t("P") { Ok(Maps::P(dec_default(&m[0].1)?)) } else if m[0].0 == t("Q") { let mut f = fields(&m[0].1, &[t("x")], false)?; Ok(Maps::Q { x: field(&mut f)? }) } else { reject() } } _ => reject() } }
    fn def() -> Option<Self> { None }
}
/// Splits off the tag entry. None: no tag.
fn untag(r: &RV, tag: &RV) -> D<(Option<RV>, RV)> {
    let m = match r { RV::M(m) => m, _ => return reject() };
    let mut tv = None; let mut rest = Vec::new();
    for (k, v) in m { if k == tag { if tv.is_some() { return Err(E::Any); } tv = Some(v.clone()); } else { rest.push((k.clone(), v.clone())); } }
    if tv == Some(RV::S(23)) { return Err(E::Any); }
    Ok((tv, RV::M(rest)))
}
impl Model for Tagged {
    fn gen() -> Self { match sx::choose(7) { 0 => Tagged::V0 { foo: sx::u8() }, 1 => Tagged::V1 { bar: sx::u8(), z: sx::u8() }, 2 => Tagged::V2(Small::gen()), 3 => Tagged::V3, 4 => Tagged::V4 {}, 5 => Tagged::V5 { w: sx::u8() }, _ => Tagged::V6(Maps::gen()) } }
    fn enc(&self) -> RV {
        let (tag, m) = match self {
            Tagged::V0 { foo } => return RV::M(vec![(t("foo"), foo.enc())]),
            Tagged::V1 { bar, z } => { let mut m = vec![(t("bar"), bar.enc())]; if *z != 0 { m.push((t("z"), z.enc())); } (RV::U(1), m) }
            Tagged::V2(p) => (RV::U(2), match p.enc() { RV::M(m) => m, _ => vec![] }),
            Tagged::V3 => (t("V3"), vec![]), Tagged::V4 {} => (t("four"), vec![]), Tagged::V5 { w } => (RV::U(5), vec![(t("w"), w.enc())]),
            Tagged::V6(x) => (RV::U(6), match x.enc() { RV::M(m) => m, _ => vec![] }),
        };
        let mut m = m; m.push((t("v"), tag)); RV::M(m)
    }
    fn dec(r: &RV) -> D<Self> {
        let (tag, rest) = untag(r, &t("v"))?;
        Ok(match tag {
            None | Some(RV::U(0)) => { let mut f = fields(&rest, &[t("foo")], false)?; Tagged::V0 { foo: field(&mut f)? } }
            Some(RV::U(1)) => { let mut f = fields(&rest, &[t("bar"), t("z")], false)?; Tagged::V1 { bar: field(&mut f)?, z: field(&mut f)? } }
            Some(RV::U(2)) => Tagged::V2(dec_default(&rest)?),
            Some(RV::U(5)) => { let mut f = fields(&rest, &[t("w")], true)?; Tagged::V5 { w: field(&mut f)? } }
            Some(RV::U(6)) => Tagged::V6(dec_default(&rest)?),
            Some(x) if x == t("V3") => { fields(&rest, &[], false)?; Tagged::V3 }
            Some(x) if x == t("four") => { fields(&rest, &[], false)?; Tagged::V4 {} }
            _ => return reject(),
        })
    }
    fn def() -> Option<Self> { None }
}
#[derive(Clone, PartialEq, Encode, Decode)]
#[cbor(tag = 5)]
pub enum TaggedInt { A { x: u8 }, #[cbor(rename = 1)] B(Small) }
impl Model for TaggedInt {
    fn gen() -> Self { match sx::choose(2) { 0 => TaggedInt::A { x: sx::u8() }, _ => TaggedInt::B(Small::gen()) } }
    fn enc(&self) -> RV { match self { TaggedInt::A { x } => RV::M(vec![(RV::U(5), t("A")), (t("x"), x.enc())]), TaggedInt::B(p) => { let mut m = match p.enc() { RV::M(m) => m, _ => vec![] }; m.push((RV::U(5), RV::U(1))); RV::M(m) } } }
    fn dec(r: &RV) -> D<Self> {
        let (tag, rest) = untag(r, &RV::U(5))?;
        Ok(match tag { Some(x) if x == t("A") => { let mut f = fields(&rest, &[t("x")], false)?; TaggedInt::A { x: field(&mut f)? } } Some(RV::U(1)) => TaggedInt::B(dec_default(&rest)?), _ => return reject() })
    }
    fn def() -> Option<Self> { None }
}
macro_rules! enums { ($f:path) => { dispatch!($f; Units, UnitsDef, Mixed, Child, Parent, Parent2, Parent3, Maps, Tagged, TaggedInt, Parent4, TagEmbed) } }
harness!(d_enum, { enums!(model::round) });
harness!(d_enum_null, { enums!(model::null) });
harness!(d_enum_any, { enums!(model::anyvalue) });
harness!(d_enum_mut, { enums!(model::mutated) });
harness!(d_enum_bytes, { enums!(model::frombytes) });

// Untagged enums encode as their content.
#[derive(Clone, PartialEq, Encode)]
#[cbor(untagged)]
pub enum Untagged { First { a: u8, b: bool }, Second(u16), Third(u8, u8), Fourth }
harness!(d_untagged, {
    let (a, b, c) = (sx::u8(), sx::bool(), sx::u16());
    let (v, w) = match sx::choose(4) {
        0 => (Untagged::First { a, b }, RV::M(vec![(t("a"), a.enc()), (t("b"), b.enc())])), 1 => (Untagged::Second(c), c.enc()), 2 => (Untagged::Third(a, a ^ 1), RV::A(vec![a.enc(), (a ^ 1).enc()])), _ => (Untagged::Fourth, t("Fourth")),
    };
    sx::check(Some(oasis_cbor::to_vec(v)) == model::bytes_of(&w), 1); sx::reach(1);
});

/// Embeds only a type that encodes as a map.
#[derive(Clone, PartialEq, Encode, Decode)]
pub enum Parent4 { A(u8), #[cbor(embed)] M(Maps), #[cbor(embed)] S(Two) }
impl Model for Parent4 {
    fn gen() -> Self { match sx::choose(3) { 0 => Parent4::A(sx::u8()), 1 => Parent4::M(Maps::gen()), _ => Parent4::S(Two::gen()) } }
    fn enc(&self) -> RV { match self { Parent4::A(n) => RV::M(vec![(t("A"), n.enc())]), Parent4::M(m) => m.enc(), Parent4::S(s) => s.enc() } }
    fn dec(r: &RV) -> D<Self> {
        if let RV::M(m) = r { if m.len() == 1 && m[0].0 == t("A") { return Ok(Parent4::A(dec_default(&m[0].1)?)); } }
        match dec_default::<Maps>(r) { Ok(s) => return Ok(Parent4::M(s)), Err(E::Any) => return Err(E::Any), Err(E::Reject) => {} }
        Ok(Parent4::S(dec_default(r)?))
    }
    fn def() -> Option<Self> { None }
}
/// An internally tagged enum around it.
#[derive(Clone, PartialEq, Encode, Decode)]
#[cbor(tag = "")]
pub enum TagEmbed { #[cbor(rename = 1)] X(Parent4), #[cbor(missing)] Y }
impl Model for TagEmbed {
    fn gen() -> Self { match sx::choose(4) { 0 => TagEmbed::Y, _ => TagEmbed::X(Parent4::gen()) } }
    fn enc(&self) -> RV { match self { TagEmbed::Y => RV::M(vec![]), TagEmbed::X(p) => { let mut m = match p.enc() { RV::M(m) => m, _ => vec![] }; m.push((t(""), RV::U(1))); RV::M(m) } } }
    fn dec(r: &RV) -> D<Self> {
        let (tag, rest) = untag(r, &t(""))?;
        Ok(match tag { Some(RV::U(1)) => TagEmbed::X(dec_default(&rest)?), None => { fields(&rest, &[], false)?; TagEmbed::Y } Some(x) if x == t("Y") => { fields(&rest, &[], false)?; TagEmbed::Y } _ => return reject() })
    }
    fn def() -> Option<Self> { None }
}
// Whatever promises to encode as a map does so, and the promised map is the encoding.
struct Probe<T>(T);
trait NoMap { fn map_ok(self) -> Option<bool>; }
impl<T> NoMap for &Probe<T> { fn map_ok(self) -> Option<bool> { None } }
trait IsMap { fn map_ok(self) -> Option<bool>; }
impl<T: EncodeAsMap + Clone> IsMap for &&Probe<T> {
    fn map_ok(self) -> Option<bool> {
        let v = oasis_cbor::to_value(self.0.clone());
        let a = match (v, self.0.clone().into_cbor_map()) { (Value::Map(m), n) => m == n, _ => false };
        Some(a && matches!(EncodeAsMap::into_cbor_value_map(self.0.clone()), Value::Map(_)))
    }
}
macro_rules! maps { ($i:expr; $($n:expr => $t:ty, $must:expr);* $(;)?) => { match $i { $($n => { let x = <$t as Model>::gen(); let r = (&&Probe(x)).map_ok(); sx::check(r != Some(false), 1); if $must { sx::check(r == Some(true), 2); sx::reach(1) } else { sx::reach(2) } })* _ => {} } } }
harness!(d_asmap, {
    let i = sx::choose(16);
    maps! { i; 0 => Plain, true; 1 => Opt, true; 2 => Nested, true; 3 => Maps, true; 4 => BTreeMap<u8, bool>, true; 5 => Parent, false; 6 => Parent2, false; 7 => Parent3, false; 8 => Tagged, true; 9 => Arr, false; 10 => Tup, false; 11 => Trans, false; 12 => Units, false; 13 => Mixed, false; 14 => Parent4, true; 15 => TagEmbed, true; }
});

// Recursive types: input up to the nesting limit decodes, deeper input is refused, encoding gives the input back.
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct Tree { v: u8, #[cbor(optional)] c: Vec<Tree> }
#[derive(Clone, PartialEq, Encode, Decode)]
pub enum Chain { End, #[cbor(rename = 1)] Next(Vec<Chain>) }
harness!(d_depth, {
    let lo = sx::param(2, 56) as u8; let n = lo + sx::choose(sx::param(0, 16) as u8);
    let (leaf, strict) = (sx::u8(), sx::choose(2) == 0);
    let mut w = Vec::new();
    if sx::choose(2) == 0 {
        for _ in 0..n / 2 { w.extend_from_slice(&[0xa2, 0x61, b'c', 0x81]); }
        w.extend_from_slice(&[0xa1, 0x61, b'v']); rm::encode(&RV::U(leaf as u64), &mut w);
        for _ in 0..n / 2 { w.extend_from_slice(&[0x61, b'v', 0]); }
        let deep = n / 2 * 2 + 1;
        match if strict { oasis_cbor::from_slice::<Tree>(&w) } else { oasis_cbor::from_slice_non_strict::<Tree>(&w) } {
            Ok(t) => { sx::check(deep <= 64, 1); { let mut x = &t; while let Some(y) = x.c.first() { x = y; } sx::check(x.v == leaf, 2); } sx::check(oasis_cbor::to_vec(t) == w, 3); sx::reach(1) }
            Err(_) => { sx::check(deep > 64, 4); sx::reach(2) }
        }
    } else {
        for _ in 0..n / 2 { w.extend_from_slice(&[0xa1, 1, 0x81]); } w.extend_from_slice(&[0x63, b'E', b'n', b'd']);
        let deep = n / 2 * 2;
        match if strict { oasis_cbor::from_slice::<Chain>(&w) } else { oasis_cbor::from_slice_non_strict::<Chain>(&w) } {
            Ok(t) => { sx::check(deep <= 64, 5); let mut k = 0; { let mut x = &t; while let Chain::Next(y) = x { x = &y[0]; k += 2; } } sx::check(k == deep, 6); sx::check(oasis_cbor::to_vec(t) == w, 7); sx::reach(1) }
            Err(_) => { sx::check(deep > 64, 8); sx::reach(2) }
        }
    }
});

#[cfg(feature = "wrap")]
#[path = "wrapped.rs"]
pub mod wrapped;
#[cfg(feature = "attrs")]
#[path = "attrs.rs"]
pub mod attrs;
#[cfg(feature = "coll")]
#[path = "colls.rs"]
pub mod colls;

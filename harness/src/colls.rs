//! Collections of every kind of content.
use super::*;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Encode, Decode)]
#[cbor(transparent)]
pub struct OTrans(u8);
transparent! { OTrans, u8, Some(OTrans(0)) }
#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Encode, Decode)]
pub struct ONew(bool);
arr_struct! { ONew, 1, Some(ONew::default()); 0: bool }
#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Encode, Decode)]
pub struct OMap { #[cbor(optional)] a: u8 }
map_struct! { OMap, false, Some(OMap::default()), false; a: u8 = t("a"), true }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Encode, Decode)]
pub enum OEnum { A, B(u8), #[cbor(rename = 1)] C }
impl Model for OEnum {
    fn gen() -> Self { match sx::choose(3) { 0 => OEnum::A, 1 => OEnum::B(sx::u8()), _ => OEnum::C } }
    fn enc(&self) -> RV { match self { OEnum::A => t("A"), OEnum::B(x) => RV::M(vec![(t("B"), x.enc())]), OEnum::C => RV::U(1) } }
    fn dec(r: &RV) -> D<Self> { match r { RV::T(b) if b == b"A" => Ok(OEnum::A), RV::U(1) => Ok(OEnum::C), RV::M(m) if m.len() == 1 && m[0].0 == t("B") => Ok(OEnum::B(dec_default(&m[0].1)?)), _ => reject() } }
    fn def() -> Option<Self> { None }
}
type Vc<T> = Vec<T>; type Ar<T> = [T; 2]; type Op<T> = Option<T>; type Tu<T> = (T, bool); type Bm<T> = BTreeMap<i8, T>; type Hm<T> = HashMap<u8, T>; type Vv<T> = Vec<Vec<T>>;
type Bk<T> = BTreeMap<T, u8>; type Bs<T> = BTreeSet<T>;
macro_rules! contents { ($w:ident, $f:path) => { dispatch!($f; $w<i64>, $w<u128>, $w<bool>, $w<char>, $w<String>, $w<()>, $w<Vec<u8>>, $w<[u8; 3]>, $w<Option<u8>>, $w<(u8, bool)>, $w<BTreeMap<u8, bool>>, $w<Value>,
    $w<Small>, $w<Unit>, $w<Arr>, $w<Trans>, $w<NoDef>, $w<Units>, $w<Mixed>, $w<OMap>) } }
macro_rules! keys { ($w:ident, $f:path) => { dispatch!($f; $w<u64>, $w<i64>, $w<u128>, $w<bool>, $w<char>, $w<String>, $w<Vec<u8>>, $w<[u8; 3]>, $w<Option<u8>>, $w<Vec<u16>>, $w<(u8, bool)>, $w<BTreeSet<u8>>, $w<BTreeMap<u8, bool>>, $w<[i8; 2]>, $w<OTrans>, $w<ONew>, $w<OMap>, $w<OEnum>) } }
macro_rules! coll { ($f:path) => { match sx::param(6, 0) { 0 => contents!(Vc, $f), 1 => contents!(Ar, $f), 2 => contents!(Op, $f), 3 => contents!(Tu, $f), 4 => contents!(Bm, $f), 5 => contents!(Hm, $f), 6 => contents!(Vv, $f), 7 => keys!(Bk, $f), _ => keys!(Bs, $f) } } }
crate::harness!(a_coll, { coll!(model::round) });
crate::harness!(a_coll_null, { coll!(model::null) });
crate::harness!(a_coll_mut, { coll!(model::mutated) });
crate::harness!(a_coll_len, { coll!(model::resized) });

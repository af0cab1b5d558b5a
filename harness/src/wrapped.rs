//! Derived wrappers of every kind around every kind of content, and types with a default of their own.
use super::*;
use std::collections::BTreeSet;

// ---- every kind of wrapper around every kind of content ----
pub trait Inner: Model + Encode + Decode {}
impl<T: Model + Encode + Decode> Inner for T {}
pub trait DefInner: Inner + Default {}
impl<T: Inner + Default> DefInner for T {}
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct WMap<T: DefInner> { f: T, #[cbor(optional)] o: T }
impl<T: DefInner> Model for WMap<T> {
    fn gen() -> Self { WMap { f: T::gen(), o: T::gen() } }
    fn enc(&self) -> RV { let mut m = vec![(t("f"), self.f.enc())]; if !self.o.empty() { m.push((t("o"), self.o.enc())); } RV::M(m) }
    fn dec(r: &RV) -> D<Self> { let mut f = fields(r, &[t("f"), t("o")], false)?; Ok(WMap { f: field(&mut f)?, o: field(&mut f)? }) }
    fn def() -> Option<Self> { Some(WMap::default()) }
}
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct WOpt<T: DefInner> { #[cbor(optional)] o: T }
impl<T: DefInner> Model for WOpt<T> {
    fn gen() -> Self { WOpt { o: T::gen() } }
    fn enc(&self) -> RV { RV::M(if self.o.empty() { vec![] } else { vec![(t("o"), self.o.enc())] }) }
    fn dec(r: &RV) -> D<Self> { let mut f = fields(r, &[t("o")], false)?; Ok(WOpt { o: field(&mut f)? }) }
    fn def() -> Option<Self> { Some(WOpt::default()) }
    fn empty(&self) -> bool { self.o.empty() }
}
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(as_array)]
pub struct WArr<T: DefInner> { f: T, g: u8 }
impl<T: DefInner> Model for WArr<T> {
    fn gen() -> Self { WArr { f: T::gen(), g: sx::u8() } }
    fn enc(&self) -> RV { RV::A(vec![self.f.enc(), self.g.enc()]) }
    fn dec(r: &RV) -> D<Self> { let mut f = elems(r, 2)?; Ok(WArr { f: field(&mut f)?, g: field(&mut f)? }) }
    fn def() -> Option<Self> { Some(WArr::default()) }
}
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct WNew<T: DefInner>(T);
impl<T: DefInner> Model for WNew<T> {
    fn gen() -> Self { WNew(T::gen()) }
    fn enc(&self) -> RV { RV::A(vec![self.0.enc()]) }
    fn dec(r: &RV) -> D<Self> { let mut f = elems(r, 1)?; Ok(WNew(field(&mut f)?)) }
    fn def() -> Option<Self> { Some(WNew::default()) }
}
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct WTup<T: DefInner>(u8, T);
impl<T: DefInner> Model for WTup<T> {
    fn gen() -> Self { WTup(sx::u8(), T::gen()) }
    fn enc(&self) -> RV { RV::A(vec![self.0.enc(), self.1.enc()]) }
    fn dec(r: &RV) -> D<Self> { let mut f = elems(r, 2)?; Ok(WTup(field(&mut f)?, field(&mut f)?)) }
    fn def() -> Option<Self> { Some(WTup::default()) }
}
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(transparent)]
pub struct WTrans<T: DefInner>(T);
impl<T: DefInner> Model for WTrans<T> {
    fn gen() -> Self { WTrans(T::gen()) }
    fn enc(&self) -> RV { self.0.enc() }
    fn dec(r: &RV) -> D<Self> { Ok(WTrans(dec_default(r)?)) }
    fn def() -> Option<Self> { Some(WTrans::default()) }
    fn empty(&self) -> bool { self.0.empty() }
}
#[derive(Clone, PartialEq, Encode, Decode)]
pub enum WEnum<T: Inner> { N(T), P(u8, T), S { f: T }, O { #[cbor(optional)] o: T }, #[cbor(as_array)] A { f: T }, #[cbor(rename = 1)] R(T), U }
impl<T: Inner> Model for WEnum<T> {
    fn gen() -> Self { match sx::choose(7) { 0 => WEnum::N(T::gen()), 1 => WEnum::P(sx::u8(), T::gen()), 2 => WEnum::S { f: T::gen() }, 3 => WEnum::O { o: T::gen() }, 4 => WEnum::A { f: T::gen() }, 5 => WEnum::R(T::gen()), _ => WEnum::U } }
    fn enc(&self) -> RV {
        let (k, v) = match self {
            WEnum::U => return t("U"), WEnum::N(x) => (t("N"), x.enc()), WEnum::P(n, x) => (t("P"), RV::A(vec![n.enc(), x.enc()])), WEnum::S { f } => (t("S"), RV::M(vec![(t("f"), f.enc())])),
            WEnum::O { o } => (t("O"), RV::M(if o.empty() { vec![] } else { vec![(t("o"), o.enc())] })), WEnum::A { f } => (t("A"), RV::A(vec![f.enc()])), WEnum::R(x) => (RV::U(1), x.enc()),
        };
        RV::M(vec![(k, v)])
    }
    fn dec(r: &RV) -> D<Self> {
        let m = match r { RV::T(b) if b == b"U" => return Ok(WEnum::U), RV::M(m) if m.len() == 1 => m, _ => return reject() };
        let v = &m[0].1;
        Ok(match &m[0].0 {
            RV::U(1) => WEnum::R(dec_default(v)?),
            RV::T(k) => match &k[..] {
                b"N" => WEnum::N(dec_default(v)?), b"P" => { let mut f = elems(v, 2)?; WEnum::P(field(&mut f)?, field(&mut f)?) } b"S" => { let mut f = fields(v, &[t("f")], false)?; WEnum::S { f: field(&mut f)? } }
                b"O" => { let mut f = fields(v, &[t("o")], false)?; WEnum::O { o: field(&mut f)? } } b"A" => { let mut f = elems(v, 1)?; WEnum::A { f: field(&mut f)? } } _ => return reject(),
            },
            _ => return reject(),
        })
    }
    fn def() -> Option<Self> { None }
}
#[derive(Clone, PartialEq, Encode, Decode)]
#[cbor(tag = "t")]
pub enum WTag<T: Inner> { S { f: T, z: u8 }, #[cbor(rename = 1)] O { #[cbor(optional)] a: T }, #[cbor(missing)] M { g: T } }
impl<T: Inner> Model for WTag<T> {
    fn gen() -> Self { match sx::choose(3) { 0 => WTag::S { f: T::gen(), z: sx::u8() }, 1 => WTag::O { a: T::gen() }, _ => WTag::M { g: T::gen() } } }
    fn enc(&self) -> RV { RV::M(match self {
        WTag::S { f, z } => vec![(t("f"), f.enc()), (t("t"), t("S")), (t("z"), z.enc())],
        WTag::O { a } => { let mut m = vec![(t("t"), RV::U(1))]; if !a.empty() { m.push((t("a"), a.enc())); } m }
        WTag::M { g } => vec![(t("g"), g.enc())] }) }
    fn dec(r: &RV) -> D<Self> {
        let (tag, rest) = untag(r, &t("t"))?;
        Ok(match tag {
            Some(x) if x == t("S") => { let mut f = fields(&rest, &[t("f"), t("z")], false)?; WTag::S { f: field(&mut f)?, z: field(&mut f)? } }
            Some(RV::U(1)) => { let mut f = fields(&rest, &[t("a")], false)?; WTag::O { a: field(&mut f)? } }
            None => { let mut f = fields(&rest, &[t("g")], false)?; WTag::M { g: field(&mut f)? } }
            Some(x) if x == t("M") => { let mut f = fields(&rest, &[t("g")], false)?; WTag::M { g: field(&mut f)? } }
            _ => return reject(),
        })
    }
    fn def() -> Option<Self> { None }
}
/// An array of only the fields that are not skipped.
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct SkipTup(#[cbor(skip)] (), Option<u8>);
impl Model for SkipTup {
    fn gen() -> Self { SkipTup((), Model::gen()) }
    fn enc(&self) -> RV { RV::A(vec![self.1.enc()]) }
    fn dec(r: &RV) -> D<Self> { let mut f = elems(r, 1)?; Ok(SkipTup((), field(&mut f)?)) }
    fn def() -> Option<Self> { Some(SkipTup((), None)) }
}
macro_rules! bases { ($w:ident, $f:path; $($more:ty),*) => { dispatch!($f; $w<u8>, $w<i64>, $w<u128>, $w<bool>, $w<char>, $w<String>, $w<()>, $w<Vec<u8>>, $w<[u8; 2]>, $w<Option<u8>>, $w<Option<String>>, $w<Vec<u16>>, $w<(u8, bool)>, $w<BTreeMap<u8, bool>>, $w<BTreeSet<i8>>,
    $w<Small>, $w<OptOnly>, $w<Unit>, $w<Empty>, $w<Arr>, $w<New>, $w<Trans>, $w<TransOpt>, $w<TransStruct>, $w<TransNoDef>, $w<NoDef>, $w<TupNoDef>, $w<UnitsDef>, $w<Unknown>, $w<WTrans<Vec<u8>>>, $w<WOpt<WOpt<u8>>>, $w<WNew<WMap<u8>>>, $w<(WTrans<u8>, WNew<bool>)>, $w<BTreeMap<u8, WOpt<bool>>>, $w<WNew<Option<u8>>>, $w<WNew<()>>, $w<SkipTup> $(, $more)*) } }
macro_rules! wrapped { ($f:path) => { match sx::param(6, 0) { 0 => bases!(WMap, $f;), 1 => bases!(WOpt, $f;), 2 => bases!(WArr, $f;), 3 => bases!(WNew, $f;), 4 => bases!(WTup, $f;), 5 => bases!(WTrans, $f;),
    6 => bases!(WEnum, $f; WEnum<Units>, WEnum<Mixed>, WEnum<Parent>, WEnum<Tagged>, WEnum<WEnum<u8>>, WEnum<WTag<bool>>), _ => bases!(WTag, $f; WTag<Units>, WTag<Child>, WTag<WEnum<u8>>, WTag<WTag<bool>>) } } }
crate::harness!(d_wrap, { wrapped!(model::round) });
crate::harness!(d_wrap_null, { wrapped!(model::null) });
crate::harness!(d_wrap_mut, { wrapped!(model::mutated) });

// ---- types whose default is not the all-zero value ----
macro_rules! custom_default { ($t:ident, $e:expr) => { impl Default for $t { fn default() -> Self { $e } } } }
#[derive(Clone, PartialEq, Encode, Decode)]
#[cbor(as_array)]
pub struct DArr { a: u8, b: Vec<u8> }
custom_default! { DArr, DArr { a: 3, b: vec![1] } }
arr_struct! { DArr, 2, Some(DArr::default()); a: u8, b: Vec<u8> }
#[derive(Clone, PartialEq, Encode, Decode)]
pub struct DNew(u8);
custom_default! { DNew, DNew(5) }
arr_struct! { DNew, 1, Some(DNew::default()); 0: u8 }
#[derive(Clone, PartialEq, Encode, Decode)]
pub struct DOptNew(Option<u8>);
custom_default! { DOptNew, DOptNew(Some(4)) }
arr_struct! { DOptNew, 1, Some(DOptNew::default()); 0: Option<u8> }
#[derive(Clone, PartialEq, Encode, Decode)]
#[cbor(as_array)]
pub struct DNulls { a: Option<u8>, b: (), c: Option<bool> }
custom_default! { DNulls, DNulls { a: Some(4), b: (), c: Some(false) } }
arr_struct! { DNulls, 3, Some(DNulls::default()); a: Option<u8>, b: (), c: Option<bool> }
#[derive(Clone, PartialEq, Encode, Decode)]
pub struct DTup(Option<u8>, bool);
custom_default! { DTup, DTup(Some(1), true) }
arr_struct! { DTup, 2, Some(DTup::default()); 0: Option<u8>, 1: bool }
#[derive(Clone, PartialEq, Encode, Decode)]
pub struct DMap { a: u8, #[cbor(optional)] b: bool }
custom_default! { DMap, DMap { a: 9, b: true } }
map_struct! { DMap, false, Some(DMap::default()), false; a: u8 = t("a"), false; b: bool = t("b"), true }
#[derive(Clone, PartialEq, Encode, Decode)]
#[cbor(no_default)]
pub struct DNo { #[cbor(optional)] a: u8 }
custom_default! { DNo, DNo { a: 9 } }
map_struct! { DNo, false, None, true; a: u8 = t("a"), true }
#[derive(Clone, PartialEq, Encode, Decode)]
#[cbor(with_default)]
pub enum DEnum { A, B(u8), C {} }
custom_default! { DEnum, DEnum::B(7) }
impl Model for DEnum {
    fn gen() -> Self { match sx::choose(3) { 0 => DEnum::A, 1 => DEnum::B(sx::u8()), _ => DEnum::C {} } }
    fn enc(&self) -> RV { match self { DEnum::A => t("A"), DEnum::B(x) => RV::M(vec![(t("B"), x.enc())]), DEnum::C {} => RV::M(vec![(t("C"), RV::M(vec![]))]) } }
    fn dec(r: &RV) -> D<Self> { match r {
        RV::T(b) if b == b"A" => Ok(DEnum::A),
        RV::M(m) if m.len() == 1 && m[0].0 == t("B") => Ok(DEnum::B(dec_default(&m[0].1)?)),
        RV::M(m) if m.len() == 1 && m[0].0 == t("C") => { fields(&m[0].1, &[], false)?; Ok(DEnum::C {}) }
        _ => reject() } }
    fn def() -> Option<Self> { Some(DEnum::default()) }
}
// Where the empty value differs from the default (see the known findings) only the other values are generated.
#[derive(Clone, PartialEq, Encode, Decode)]
pub struct DOpt { #[cbor(optional)] a: u8 }
custom_default! { DOpt, DOpt { a: 3 } }
impl Model for DOpt {
    fn gen() -> Self { let a = sx::u8(); sx::assume(a != 0); DOpt { a } }
    fn enc(&self) -> RV { RV::M(vec![(t("a"), self.a.enc())]) }
    fn dec(r: &RV) -> D<Self> { let mut f = fields(r, &[t("a")], false)?; Ok(DOpt { a: field(&mut f)? }) }
    fn def() -> Option<Self> { Some(DOpt::default()) }
}
#[derive(Clone, PartialEq, Encode, Decode)]
#[cbor(transparent)]
pub struct DTrans(u16);
custom_default! { DTrans, DTrans(3) }
impl Model for DTrans {
    fn gen() -> Self { let a = sx::u16(); sx::assume(a != 0); DTrans(a) }
    fn enc(&self) -> RV { self.0.enc() }
    fn dec(r: &RV) -> D<Self> { Ok(DTrans(dec_default(r)?)) }
    fn def() -> Option<Self> { Some(DTrans::default()) }
}
macro_rules! customs { ($w:ident, $f:path; $($more:ty),*) => { dispatch!($f; $w<DArr>, $w<DNew>, $w<DTup>, $w<DOptNew>, $w<DNulls>, $w<DMap>, $w<DNo>, $w<DEnum>, $w<DOpt>, $w<DTrans> $(, $more)*) } }
macro_rules! customdefs { ($f:path) => { match sx::param(6, 0) { 0 => customs!(WMap, $f; DArr, DNew, DTup, DOptNew, DNulls, DMap, DNo, DEnum, DOpt, DTrans), 1 => customs!(WOpt, $f;), 2 => customs!(WArr, $f;), 3 => customs!(WTrans, $f;), 4 => customs!(WEnum, $f;), _ => customs!(WTag, $f;) } } }
crate::harness!(d_optdef, { customdefs!(model::round) });
crate::harness!(d_optdef_null, { customdefs!(model::null) });
crate::harness!(d_optdef_mut, { customdefs!(model::mutated) });
// The values left out above: an optional field whose value encodes as nothing while its type's default is another value.
crate::harness!(d_optdef_known, {
    fn one<T: Inner + DefInner>(x: T, id: u32) { let h = WOpt { o: x.clone() }; let b = oasis_cbor::to_vec(h); match oasis_cbor::from_slice::<WOpt<T>>(&b) { Ok(y) => sx::check(y.o == x, id), Err(_) => sx::check(false, id) } }
    match sx::choose(2) { 0 => one(DOpt { a: 0 }, 1), _ => one(DTrans(0), 2) }
});

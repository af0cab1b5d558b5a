//! Field attributes in systematic combinations, and conversions everywhere they may be written.
use super::*;

// ---- types which can only be stored through a conversion, in one or both directions ----
fn plus(n: u8) -> u16 { if n == 0 { 0 } else { n as u16 + 1 } }
fn minus(v: u16) -> Result<u8, DecodeError> { if v == 0 { Ok(0) } else if v >= 2 && v <= 256 { Ok((v - 1) as u8) } else { Err(DecodeError::UnexpectedType) } }
macro_rules! shifted { ($($t:ident $e:ident $d:ident);*) => { $(
    #[derive(Clone, Default, PartialEq)]
    pub struct $t(u8);
    impl Model for $t {
        fn gen() -> Self { $t(sx::u8()) }
        fn enc(&self) -> RV { RV::U(plus(self.0) as u64) }
        fn dec(r: &RV) -> D<Self> { match minus(<u16 as Model>::dec(r)?) { Ok(x) => Ok($t(x)), Err(_) => reject() } }
        fn def() -> Option<Self> { Some($t(0)) }
        fn empty(&self) -> bool { self.0 == 0 }
    }
    #[allow(unused)] fn $e(x: &$t) -> u16 { plus(x.0) }
    #[allow(unused)] fn $d(v: u16) -> Result<$t, DecodeError> { Ok($t(minus(v)?)) }
)* } }
// Neither direction is built in; only decoding is; only encoding is.
shifted! { Cv enc_cv dec_cv; CvEnc enc_cve dec_cve; CvDec enc_cvd dec_cvd }
impl Decode for CvEnc { fn try_default() -> Result<Self, DecodeError> { Ok(CvEnc(0)) } fn try_from_cbor_value(v: Value) -> Result<Self, DecodeError> { dec_cve(u16::try_from_cbor_value(v)?) } }
impl Encode for CvDec { fn is_empty(&self) -> bool { self.0 == 0 } fn into_cbor_value(self) -> Value { plus(self.0).into_cbor_value() } }
fn never<T>(_: &T) -> bool { false }

/// One field symbolic, the others all empty or all with one value.
trait Fill: Model { fn fill() -> Self; }
impl Fill for u8 { fn fill() -> u8 { 7 } }
impl Fill for bool { fn fill() -> bool { true } }
macro_rules! fills { ($($t:ident $e:expr);*) => { $(impl Fill for $t { fn fill() -> Self { $t($e) } })* } }
fills! { Cv 7; CvEnc 7; CvDec 7; ANew Cv(7); ATrans Cv(7); ATransEnc CvEnc(7); ATransDec CvDec(7) }
macro_rules! focus_struct {
    ($name:ident, $allow:expr; $($f:ident : $ft:ty = $k:expr, $opt:expr);* $(;)?) => {
        impl Model for $name {
            #[allow(unused_assignments)]
            fn gen() -> Self { const N: u8 = [$(stringify!($f)),*].len() as u8; let at = sx::choose(N); let full = sx::choose(2) == 1; let mut i = 0; $name { $($f: { i += 1; if i - 1 == at { <$ft>::gen() } else if full { <$ft>::fill() } else { Default::default() } }),* } }
            fn enc(&self) -> RV { let mut m = Vec::new(); $(if !($opt && self.$f.empty()) { m.push(($k, self.$f.enc())); })* RV::M(m) }
            fn dec(r: &RV) -> D<Self> { let mut f = fields(r, &[$($k),*], $allow)?; Ok($name { $($f: field(&mut f)?),* }) }
            fn def() -> Option<Self> { Some($name::default()) }
            fn inner_empty(&self) -> bool { false }
            fn empty(&self) -> bool { matches!(self.enc(), RV::M(m) if m.is_empty()) }
        }
    };
}
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct ANone {
    z: u8, #[cbor(optional)] y: u8, #[cbor(serialize_with = "enc_cv", deserialize_with = "dec_cv")] x: Cv, #[cbor(optional, serialize_with = "enc_cv", deserialize_with = "dec_cv")] w: Cv,
    #[cbor(serialize_with = "enc_cve")] v: CvEnc, #[cbor(optional, serialize_with = "enc_cve")] u: CvEnc, #[cbor(deserialize_with = "dec_cvd")] t: CvDec, #[cbor(optional, deserialize_with = "dec_cvd")] s: CvDec,
    #[cbor(optional, skip_serializing_if = "never", serialize_with = "enc_cv", deserialize_with = "dec_cv")] r: Cv, #[cbor(optional, skip_serializing_if = "never")] q: u8,
}
focus_struct! { ANone, false; z: u8 = t("z"), false; y: u8 = t("y"), true; x: Cv = t("x"), false; w: Cv = t("w"), true; v: CvEnc = t("v"), false; u: CvEnc = t("u"), true; t: CvDec = t("t"), false; s: CvDec = t("s"), true; r: Cv = t("r"), false; q: u8 = t("q"), false }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct AStr {
    #[cbor(rename = "a")] z: u8, #[cbor(rename = "bb", optional)] y: u8, #[cbor(rename = "c", serialize_with = "enc_cv", deserialize_with = "dec_cv")] x: Cv, #[cbor(rename = "z", optional, serialize_with = "enc_cv", deserialize_with = "dec_cv")] w: Cv,
    #[cbor(rename = "e", serialize_with = "enc_cve")] v: CvEnc, #[cbor(rename = "f", optional, serialize_with = "enc_cve")] u: CvEnc, #[cbor(rename = "x", deserialize_with = "dec_cvd")] t: CvDec, #[cbor(rename = "h", optional, deserialize_with = "dec_cvd")] s: CvDec,
    #[cbor(rename = "i", optional, skip_serializing_if = "never", serialize_with = "enc_cv", deserialize_with = "dec_cv")] r: Cv, #[cbor(rename = "", optional, skip_serializing_if = "never")] q: u8,
}
focus_struct! { AStr, false; z: u8 = t("a"), false; y: u8 = t("bb"), true; x: Cv = t("c"), false; w: Cv = t("z"), true; v: CvEnc = t("e"), false; u: CvEnc = t("f"), true; t: CvDec = t("x"), false; s: CvDec = t("h"), true; r: Cv = t("i"), false; q: u8 = t(""), false }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(allow_unknown)]
pub struct AInt {
    #[cbor(rename = 9)] z: u8, #[cbor(rename = 24, optional)] y: u8, #[cbor(rename = 1, serialize_with = "enc_cv", deserialize_with = "dec_cv")] x: Cv, #[cbor(rename = 300, optional, serialize_with = "enc_cv", deserialize_with = "dec_cv")] w: Cv,
    #[cbor(rename = 0, serialize_with = "enc_cve")] v: CvEnc, #[cbor(rename = 7, optional, serialize_with = "enc_cve")] u: CvEnc, #[cbor(rename = 6, deserialize_with = "dec_cvd")] t: CvDec, #[cbor(rename = 5, optional, deserialize_with = "dec_cvd")] s: CvDec,
    #[cbor(rename = 70000, optional, skip_serializing_if = "never", serialize_with = "enc_cv", deserialize_with = "dec_cv")] r: Cv, #[cbor(rename = 3, optional, skip_serializing_if = "never")] q: u8,
}
focus_struct! { AInt, true; z: u8 = RV::U(9), false; y: u8 = RV::U(24), true; x: Cv = RV::U(1), false; w: Cv = RV::U(300), true; v: CvEnc = RV::U(0), false; u: CvEnc = RV::U(7), true; t: CvDec = RV::U(6), false; s: CvDec = RV::U(5), true; r: Cv = RV::U(70000), false; q: u8 = RV::U(3), false }
/// Skipped fields between others, with other attributes, in maps and arrays; they are never generated with a value.
macro_rules! skipping { ($($t:ident)*) => { $(impl Model for $t { fn gen() -> Self { $t::default() } fn enc(&self) -> RV { RV::S(22) } fn dec(_: &RV) -> D<Self> { reject() } fn def() -> Option<Self> { Some($t::default()) } })* } }
#[derive(Clone, Default, PartialEq)]
pub struct Zero(u8);
skipping! { Zero }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct ASkip { #[cbor(skip)] a: Zero, b: u8, #[cbor(skip, rename = "x")] c: Zero, #[cbor(rename = "c")] d: u8, #[cbor(optional, skip)] e: Zero, #[cbor(optional)] f: u8, #[cbor(skip, rename = 1)] g: Zero }
impl Model for ASkip {
    fn gen() -> Self { ASkip { b: sx::u8(), d: sx::u8(), f: sx::u8(), ..Default::default() } }
    fn enc(&self) -> RV { let mut m = vec![(t("b"), self.b.enc()), (t("c"), self.d.enc())]; if self.f != 0 { m.push((t("f"), self.f.enc())); } RV::M(m) }
    fn dec(r: &RV) -> D<Self> { let mut f = fields(r, &[t("b"), t("c"), t("f")], false)?; Ok(ASkip { b: field(&mut f)?, d: field(&mut f)?, f: field(&mut f)?, ..Default::default() }) }
    fn def() -> Option<Self> { Some(ASkip::default()) }
}
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(as_array)]
pub struct ASkipArr { #[cbor(skip)] a: Zero, b: u8, #[cbor(skip)] c: Zero, #[cbor(serialize_with = "enc_cv", deserialize_with = "dec_cv")] d: Cv, #[cbor(skip)] e: Zero }
impl Model for ASkipArr {
    fn gen() -> Self { ASkipArr { b: sx::u8(), d: Cv::gen(), ..Default::default() } }
    fn enc(&self) -> RV { RV::A(vec![self.b.enc(), self.d.enc()]) }
    fn dec(r: &RV) -> D<Self> { let mut f = elems(r, 2)?; Ok(ASkipArr { b: field(&mut f)?, d: field(&mut f)?, ..Default::default() }) }
    fn def() -> Option<Self> { Some(ASkipArr::default()) }
}
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct ATup(#[cbor(serialize_with = "enc_cv", deserialize_with = "dec_cv")] Cv, #[cbor(serialize_with = "enc_cve")] CvEnc, u8, #[cbor(deserialize_with = "dec_cvd")] CvDec);
arr_struct! { ATup, 4, Some(ATup::default()); 0: Cv, 1: CvEnc, 2: u8, 3: CvDec }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct ANew(#[cbor(serialize_with = "enc_cv", deserialize_with = "dec_cv")] Cv);
arr_struct! { ANew, 1, Some(ANew::default()); 0: Cv }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(transparent)]
pub struct ATrans(#[cbor(serialize_with = "enc_cv", deserialize_with = "dec_cv")] Cv);
transparent! { ATrans, Cv, Some(ATrans::default()) }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(transparent)]
pub struct ATransEnc(#[cbor(serialize_with = "enc_cve")] CvEnc);
transparent! { ATransEnc, CvEnc, Some(ATransEnc::default()) }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
#[cbor(transparent)]
pub struct ATransDec(#[cbor(deserialize_with = "dec_cvd")] CvDec);
transparent! { ATransDec, CvDec, Some(ATransDec::default()) }
/// Raw identifiers are only renamed here; their own spelling is a known finding.
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct AHas { #[cbor(optional)] a: ATrans, #[cbor(optional)] b: ATransEnc, #[cbor(optional)] c: ATransDec, #[cbor(rename = "fn", optional)] r#fn: ANew }
focus_struct! { AHas, false; a: ATrans = t("a"), true; b: ATransEnc = t("b"), true; c: ATransDec = t("c"), true; r#fn: ANew = t("fn"), true }
/// Many fields: keys of one to three bytes, declared in no particular order.
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct AMany { zeta: u8, b: bool, #[cbor(rename = 2)] c: u8, #[cbor(rename = 25)] dd: bool, aa: u8, #[cbor(rename = "a")] f: bool, #[cbor(rename = "B")] g: u8, #[cbor(rename = 24, optional)] h: bool, #[cbor(rename = "é")] i: u8, #[cbor(rename = 10)] j: bool, #[cbor(rename = "abcdefghijklmnopqrstuvwxyz")] k: u8 }
focus_struct! { AMany, false; zeta: u8 = t("zeta"), false; b: bool = t("b"), false; c: u8 = RV::U(2), false; dd: bool = RV::U(25), false; aa: u8 = t("aa"), false; f: bool = t("a"), false; g: u8 = t("B"), false; h: bool = RV::U(24), true; i: u8 = t("é"), false; j: bool = RV::U(10), false; k: u8 = t("abcdefghijklmnopqrstuvwxyz"), false }

// ---- the same in enum variants ----
fn enc_cv_map(x: &Cv) -> Plain1 { Plain1 { p: plus(x.0) } }
fn dec_cv_map(v: Plain1) -> Result<Cv, DecodeError> { Ok(Cv(minus(v.p)?)) }
#[derive(Clone, Default, PartialEq, Encode, Decode)]
pub struct Plain1 { p: u16 }
map_struct! { Plain1, false, Some(Plain1::default()), false; p: u16 = t("p"), false }
#[derive(Clone, PartialEq, Encode, Decode)]
pub enum AEnum {
    N(#[cbor(serialize_with = "enc_cv", deserialize_with = "dec_cv")] Cv), #[cbor(rename = 1)] E(#[cbor(serialize_with = "enc_cve")] CvEnc), #[cbor(rename = "q")] D(#[cbor(deserialize_with = "dec_cvd")] CvDec),
    T(u8, #[cbor(serialize_with = "enc_cv", deserialize_with = "dec_cv")] Cv),
    S { #[cbor(rename = "y", optional, serialize_with = "enc_cv", deserialize_with = "dec_cv")] x: Cv, #[cbor(rename = 2)] y: u8, #[cbor(optional, serialize_with = "enc_cve")] z: CvEnc, #[cbor(rename = "x", optional, skip_serializing_if = "never")] w: u8 },
    #[cbor(rename = 3, as_array)] A { #[cbor(skip)] p: Zero, #[cbor(serialize_with = "enc_cv", deserialize_with = "dec_cv")] q: Cv, r: bool },
    #[cbor(rename = 4, allow_unknown)] U { #[cbor(rename = "")] a: u8, #[cbor(optional, deserialize_with = "dec_cvd")] b: CvDec, #[cbor(skip)] c: Zero },
    #[cbor(rename = "é", as_struct)] W,
    #[cbor(embed)] M(#[cbor(serialize_with = "enc_cv_map", deserialize_with = "dec_cv_map")] Cv),
}
impl Model for AEnum {
    fn gen() -> Self { match sx::choose(9) { 0 => AEnum::N(Cv::gen()), 1 => AEnum::E(CvEnc::gen()), 2 => AEnum::D(CvDec::gen()), 3 => AEnum::T(sx::u8(), Cv::gen()), 4 => AEnum::S { x: Cv::gen(), y: sx::u8(), z: CvEnc::gen(), w: sx::u8() }, 5 => AEnum::A { p: Zero(0), q: Cv::gen(), r: sx::bool() }, 6 => AEnum::U { a: sx::u8(), b: CvDec::gen(), c: Zero(0) }, 7 => AEnum::W, _ => AEnum::M(Cv::gen()) } }
    fn enc(&self) -> RV {
        let (k, v) = match self {
            AEnum::N(x) => (t("N"), x.enc()), AEnum::E(x) => (RV::U(1), x.enc()), AEnum::D(x) => (t("q"), x.enc()), AEnum::T(a, x) => (t("T"), RV::A(vec![a.enc(), x.enc()])),
            AEnum::S { x, y, z, w } => { let mut m = vec![(RV::U(2), y.enc()), (t("x"), w.enc())]; if !x.empty() { m.push((t("y"), x.enc())); } if !z.empty() { m.push((t("z"), z.enc())); } (t("S"), RV::M(m)) }
            AEnum::A { q, r, .. } => (RV::U(3), RV::A(vec![q.enc(), r.enc()])),
            AEnum::U { a, b, .. } => { let mut m = vec![(t(""), a.enc())]; if !b.empty() { m.push((t("b"), b.enc())); } (RV::U(4), RV::M(m)) }
            AEnum::W => (t("é"), RV::M(vec![])), AEnum::M(x) => (t("p"), x.enc()),
        };
        RV::M(vec![(k, v)])
    }
    fn dec(r: &RV) -> D<Self> {
        // A missing content of the embedded type is its default.
        let emb = |r: &RV| -> D<Self> { match minus(dec_default::<Plain1>(r)?.p) { Ok(x) => Ok(AEnum::M(Cv(x))), Err(_) => reject() } };
        let m = match r { RV::M(m) if m.len() == 1 => m, r => return emb(r) };
        let v = &m[0].1;
        Ok(match &m[0].0 {
            RV::U(1) => AEnum::E(dec_default(v)?),
            RV::U(3) => { let mut f = elems(v, 2)?; AEnum::A { p: Zero(0), q: field(&mut f)?, r: field(&mut f)? } }
            RV::U(4) => { let mut f = fields(v, &[t(""), t("b")], true)?; AEnum::U { a: field(&mut f)?, b: field(&mut f)?, c: Zero(0) } }
            k if *k == t("N") => AEnum::N(dec_default(v)?), k if *k == t("q") => AEnum::D(dec_default(v)?),
            k if *k == t("T") => { let mut f = elems(v, 2)?; AEnum::T(field(&mut f)?, field(&mut f)?) }
            k if *k == t("S") => { let mut f = fields(v, &[t("y"), RV::U(2), t("z"), t("x")], false)?; AEnum::S { x: field(&mut f)?, y: field(&mut f)?, z: field(&mut f)?, w: field(&mut f)? } }
            k if *k == t("é") => { fields(v, &[], false)?; AEnum::W }
            _ => return emb(r),
        })
    }
    fn def() -> Option<Self> { None }
}
#[derive(Clone, PartialEq, Encode, Decode)]
#[cbor(tag = "kind")]
pub enum ATag {
    #[cbor(rename = 1)] N(#[cbor(serialize_with = "enc_cv_map", deserialize_with = "dec_cv_map")] Cv),
    S { #[cbor(rename = "y", optional, serialize_with = "enc_cv", deserialize_with = "dec_cv")] x: Cv, #[cbor(rename = 2)] y: u8, #[cbor(optional, deserialize_with = "dec_cvd")] z: CvDec },
    #[cbor(rename = "m", missing, allow_unknown)] U { #[cbor(rename = "z")] a: u8, #[cbor(skip)] c: Zero, #[cbor(serialize_with = "enc_cve")] d: CvEnc },
}
impl Model for ATag {
    fn gen() -> Self { match sx::choose(3) { 0 => ATag::N(Cv::gen()), 1 => ATag::S { x: Cv::gen(), y: sx::u8(), z: CvDec::gen() }, _ => ATag::U { a: sx::u8(), c: Zero(0), d: CvEnc::gen() } } }
    fn enc(&self) -> RV { RV::M(match self {
        ATag::N(x) => vec![(t("p"), x.enc()), (t("kind"), RV::U(1))],
        ATag::S { x, y, z } => { let mut m = vec![(RV::U(2), y.enc()), (t("kind"), t("S"))]; if !x.empty() { m.push((t("y"), x.enc())); } if !z.empty() { m.push((t("z"), z.enc())); } m }
        ATag::U { a, d, .. } => vec![(t("z"), a.enc()), (t("d"), d.enc())],
    }) }
    fn dec(r: &RV) -> D<Self> {
        let (tag, rest) = untag(r, &t("kind"))?;
        Ok(match tag {
            Some(RV::U(1)) => match minus(dec_default::<Plain1>(&rest)?.p) { Ok(x) => ATag::N(Cv(x)), Err(_) => return reject() },
            Some(x) if x == t("S") => { let mut f = fields(&rest, &[t("y"), RV::U(2), t("z")], false)?; ATag::S { x: field(&mut f)?, y: field(&mut f)?, z: field(&mut f)? } }
            None => { let mut f = fields(&rest, &[t("z"), t("d")], true)?; ATag::U { a: field(&mut f)?, c: Zero(0), d: field(&mut f)? } }
            Some(x) if x == t("m") => { let mut f = fields(&rest, &[t("z"), t("d")], true)?; ATag::U { a: field(&mut f)?, c: Zero(0), d: field(&mut f)? } }
            _ => return reject(),
        })
    }
    fn def() -> Option<Self> { None }
}
macro_rules! attrs { ($f:path) => { dispatch!($f; ANone, AStr, AInt, ASkip, ASkipArr, ATup, ANew, ATrans, ATransEnc, ATransDec, AHas, AMany, AEnum, ATag) } }
crate::harness!(a_attr, { attrs!(model::round) });
crate::harness!(a_attr_null, { attrs!(model::null) });
crate::harness!(a_attr_any, { attrs!(model::anyvalue) });
crate::harness!(a_attr_mut, { attrs!(model::mutated) });
crate::harness!(a_attr_len, { attrs!(model::resized) });
crate::harness!(a_subset, { dispatch!(subset; ANone, AStr, AInt, ASkip, AHas, AMany) });

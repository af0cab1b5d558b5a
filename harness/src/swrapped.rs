//! Serde wrappers of every kind around every kind of content.
use super::*;

pub trait Both: Sm + Encode + Decode {}
impl<T: Sm + Encode + Decode> Both for T {}
pub trait DefBoth: Both + Default {}
impl<T: Both + Default> DefBoth for T {}
#[derive(Clone, Default, PartialEq, Serialize, Deserialize, Encode, Decode)]
#[serde(bound = "")]
pub struct SMap<T: DefBoth> { f: T, b: u8 }
impl<T: DefBoth> Sm for SMap<T> {
    fn gen() -> Self { SMap { f: T::gen(), b: sx::u8() } }
    fn enc(&self) -> RV { RV::M(vec![(t("f"), self.f.enc()), (t("b"), Sm::enc(&self.b))]) }
    fn dec(r: &RV) -> D<Self> { let mut f = fields(r, &["f", "b"], false)?; Ok(SMap { f: field(&mut f)?, b: field(&mut f)? }) }
}
#[derive(Clone, Default, PartialEq, Serialize, Deserialize, Encode, Decode)]
#[serde(bound = "")]
pub struct STup<T: DefBoth>(u8, T);
impl<T: DefBoth> Sm for STup<T> {
    fn gen() -> Self { STup(sx::u8(), T::gen()) }
    fn enc(&self) -> RV { RV::A(vec![Sm::enc(&self.0), self.1.enc()]) }
    fn dec(r: &RV) -> D<Self> { let v = elems(r, 2)?; Ok(STup(Sm::dec(&v[0])?, Sm::dec(&v[1])?)) }
}
#[derive(Clone, Default, PartialEq, Serialize, Deserialize, Encode, Decode)]
#[serde(bound = "")]
pub struct SNew<T: DefBoth>(T);
impl<T: DefBoth> Sm for SNew<T> {
    fn gen() -> Self { SNew(T::gen()) }
    fn enc(&self) -> RV { RV::A(vec![self.0.enc()]) }
    fn dec(r: &RV) -> D<Self> { let v = elems(r, 1)?; Ok(SNew(Sm::dec(&v[0])?)) }
}
#[derive(Clone, PartialEq, Serialize, Deserialize, Encode, Decode)]
#[serde(bound = "")]
pub enum SEnum<T: Both> { N(T), P(u8, T), S { f: T }, U, R(T) }
impl<T: Both> Sm for SEnum<T> {
    fn gen() -> Self { match sx::choose(5) { 0 => SEnum::N(T::gen()), 1 => SEnum::P(sx::u8(), T::gen()), 2 => SEnum::S { f: T::gen() }, 3 => SEnum::U, _ => SEnum::R(T::gen()) } }
    fn enc(&self) -> RV {
        let (k, v) = match self { SEnum::U => return t("U"), SEnum::N(x) => ("N", x.enc()), SEnum::P(n, x) => ("P", RV::A(vec![Sm::enc(n), x.enc()])), SEnum::S { f } => ("S", RV::M(vec![(t("f"), f.enc())])), SEnum::R(x) => ("R", x.enc()) };
        RV::M(vec![(t(k), v)])
    }
    fn dec(r: &RV) -> D<Self> {
        let null = RV::S(22);
        let (k, v, bare) = match r { RV::M(m) if m.len() == 1 => (&m[0].0, &m[0].1, false), RV::T(_) => (r, &null, true), _ => return reject() };
        let k = match k { RV::T(k) => k, RV::U(_) | RV::B(_) => return Err(E::Any), _ => return reject() };
        let x = match &k[..] {
            b"U" => match v { RV::S(22) => SEnum::U, RV::S(23) => return Err(E::Any), _ => return reject() },
            b"N" => SEnum::N(Sm::dec(v)?), b"R" => SEnum::R(Sm::dec(v)?), b"P" => { let v = elems(v, 2)?; SEnum::P(Sm::dec(&v[0])?, Sm::dec(&v[1])?) }
            b"S" => { let mut f = fields(v, &["f"], false)?; SEnum::S { f: field(&mut f)? } }
            _ => return reject(),
        };
        if bare != matches!(x, SEnum::U) { return Err(E::Any); }
        Ok(x)
    }
}
macro_rules! sbases { ($w:ident, $f:path; $($more:ty),*) => { dispatch_s!($f; $w<u8>, $w<i64>, $w<u128>, $w<bool>, $w<char>, $w<String>, $w<()>, $w<Option<u8>>, $w<Option<String>>, $w<Vec<u16>>, $w<Vec<String>>, $w<[u16; 2]>, $w<(u8,)>, $w<(u8, String)>, $w<(Option<u8>, bool)>, $w<BTreeMap<u8, bool>>, $w<BTreeSet<u16>>,
    $w<Small>, $w<Nested>, $w<Unit>, $w<New>, $w<Tup>, $w<SNew<SNew<u8>>>, $w<SMap<SNew<u8>>>, $w<Option<(u8,)>>, $w<Option<SNew<u8>>>, $w<Vec<Option<u16>>>, $w<Vec<(u8,)>>, $w<BTreeMap<u8, SNew<bool>>> $(, $more)*) } }
macro_rules! swrapped { ($f:path) => { match sx::param(6, 0) { 0 => sbases!(SMap, $f;), 1 => sbases!(STup, $f;), 2 => sbases!(SNew, $f;), _ => sbases!(SEnum, $f; SEnum<En>, SEnum<Units>, SEnum<SEnum<u8>>, SEnum<SEnum<(u8,)>>, SEnum<Vec<En>>, SEnum<Option<En>>, SEnum<BTreeMap<u8, Units>>) } } }
crate::harness!(s_wrap, { swrapped!(round) });
crate::harness!(s_wrap_compat, { swrapped!(compat) });
crate::harness!(s_wrap_mut, { swrapped!(mutated) });

//! Reference semantics of typed encoding: for each type, how values look in CBOR and what each CBOR value decodes to.
use crate::{refmodel as rm, refmodel::RV, sx};
use oasis_cbor::{reader, writer, Decode, Encode, Value};

/// Reject: decoding has to fail. Any: the outcome is not specified (only that there is no panic).
pub enum E { Reject, Any }
pub type D<T> = Result<T, E>;
pub fn reject<T>() -> D<T> { Err(E::Reject) }

pub trait Model: Sized + Clone + PartialEq {
    /// A symbolic value of the type.
    fn gen() -> Self;
    /// Its encoding (map entries in any order).
    fn enc(&self) -> RV;
    /// What a value that is present decodes to.
    fn dec(r: &RV) -> D<Self>;
    /// What a missing, null or undefined value decodes to (None = refused).
    fn def() -> Option<Self>;
    /// Whether an optional field of the type is left out for this value.
    fn empty(&self) -> bool { false }
    /// Whether it leaves a tuple it is part of empty (derived types do not).
    fn inner_empty(&self) -> bool { self.empty() }
}
/// Decoding where null and undefined stand for the default.
pub fn dec_default<T: Model>(r: &RV) -> D<T> {
    match r { RV::S(22) | RV::S(23) => T::def().ok_or(E::Reject), _ => T::dec(r) }
}
pub fn bytes_of(r: &RV) -> Option<Vec<u8>> { let mut o = Vec::with_capacity(32); if rm::encode(r, &mut o) { Some(o) } else { None } }
pub fn written(v: Value) -> Option<Vec<u8>> { let mut o = Vec::with_capacity(32); if writer::write(v, &mut o).is_ok() { Some(o) } else { None } }

/// Encoding of any value is the reference encoding, and decoding it gives the value back, through every entry point.
pub fn round<T: Model + Encode + Decode>() { round_of(T::gen()) }
/// The same for a long string or collection.
pub fn long<T: Long + Encode + Decode>() { round_of(T::long(long_len())) }
pub fn long_len() -> usize { [16usize, 17, 23, 24, 25, 31, 32, 33, 64, 65, 127, 128, 255, 256, 257][sx::choose(sx::param(0, 15) as u8) as usize] }
/// Strings and collections of n items, one of them symbolic.
pub trait Long: Model { fn long(n: usize) -> Self; }
fn odd(n: usize) -> (usize, u8) { (match sx::choose(3) { 0 => 0, 1 => n / 2, _ => n - 1 }, sx::u8()) }
fn nth_of<T>(n: usize, f: impl Fn(usize, u8) -> T) -> Vec<T> { let (at, b) = odd(n); (0..n).map(|i| f(i, if i == at { b } else { 0x41 })).collect() }
impl Long for String { fn long(n: usize) -> Self { let (at, b) = odd(n); sx::assume(b < 0x80); String::from_utf8((0..n).map(|i| if i == at { b } else { 0x41 }).collect()).unwrap() } }
impl Long for Vec<u8> { fn long(n: usize) -> Self { nth_of(n, |_, b| b) } }
impl Long for Vec<u16> { fn long(n: usize) -> Self { nth_of(n, |i, b| i as u16 + b as u16) } }
impl Long for Vec<bool> { fn long(n: usize) -> Self { nth_of(n, |i, b| i % 3 == 0 && b < 0x80) } }
impl Long for Vec<Option<u8>> { fn long(n: usize) -> Self { nth_of(n, |i, b| if i % 3 == 2 { None } else { Some(b) }) } }
impl Long for Vec<String> { fn long(n: usize) -> Self { nth_of(n, |i, b| if i % 2 == 0 { String::new() } else { ((b & 0x7f) as char).to_string() }) } }
impl Long for BTreeMap<u16, u8> { fn long(n: usize) -> Self { nth_of(n, |i, b| (i as u16 * 3, b)).into_iter().collect() } }
impl Long for BTreeMap<String, u16> { fn long(n: usize) -> Self { nth_of(n, |i, b| ("x".repeat(i % 40) + &i.to_string(), b as u16 * 9)).into_iter().collect() } }
impl Long for BTreeMap<i16, Vec<u8>> { fn long(n: usize) -> Self { nth_of(n, |i, b| (i as i16 * 3 - 100, vec![b; i % 3])).into_iter().collect() } }
impl Long for BTreeSet<u16> { fn long(n: usize) -> Self { (0..n).map(|i| i as u16 * 200).collect() } }
impl Long for BTreeSet<String> { fn long(n: usize) -> Self { (0..n).map(|i| "y".repeat(i % 30) + &i.to_string()).collect() } }
impl Long for HashMap<u8, u16> { fn long(n: usize) -> Self { nth_of(if n > 40 { 40 } else { n }, |i, b| (i as u8 * 6, b as u16)).into_iter().collect() } }
impl Long for HashSet<i16> { fn long(n: usize) -> Self { (0..if n > 40 { 40 } else { n }).map(|i| i as i16 * 30 - 200).collect() } }
impl Long for Option<Vec<u16>> { fn long(n: usize) -> Self { Some(Long::long(n)) } }
fn round_of<T: Model + Encode + Decode>(x: T) {
    let want = x.enc();
    let wb = match bytes_of(&want) { Some(b) => b, None => { sx::assume(false); return; } };
    match written(oasis_cbor::to_value(x.clone())) { Some(b) => sx::check(b == wb, 1), None => sx::check(false, 2) }
    sx::check(oasis_cbor::to_vec(x.clone()) == wb, 3);
    sx::check(Encode::into_cbor_value(x.clone()) == oasis_cbor::to_value(x.clone()), 4);
    let null = matches!(want, RV::S(22) | RV::S(23));
    let exp = if null { T::def() } else { Some(x.clone()) };
    sx::check(oasis_cbor::from_slice::<T>(&wb).ok() == exp, 5);
    sx::check(oasis_cbor::from_slice_non_strict::<T>(&wb).ok() == exp, 6);
    sx::check(oasis_cbor::from_value::<T>(rm::to_value(&want)).ok() == exp, 7);
    match T::try_from_cbor_value(oasis_cbor::to_value(x.clone())) { Ok(y) => sx::check(y == x, 8), Err(_) => sx::check(false, 9) }
    let empty = x.empty();
    match x.clone().into_optional_cbor_value() {
        None => { sx::check(empty, 10); match T::try_default() { Ok(y) => sx::check(y == x, 11), Err(_) => sx::check(false, 12) } sx::reach(2); }
        Some(v) => { sx::check(!empty, 13); sx::check(written(v) == Some(wb), 14); sx::reach(1); }
    }
}
/// Null, undefined and missing all give the documented default (or are refused) through every entry point.
pub fn null<T: Model + Encode + Decode>() {
    let d = T::def(); let s = sx::choose(2);
    let v = || rm::to_value(&RV::S(22 + s)); let b = [0xf6u8 + s];
    sx::check(T::try_default().ok() == d, 1);
    sx::check(oasis_cbor::from_value::<T>(v()).ok() == d, 2);
    sx::check(T::try_from_cbor_value_default(v()).ok() == d, 3);
    sx::check(oasis_cbor::from_slice::<T>(&b).ok() == d, 4);
    sx::check(oasis_cbor::from_slice_non_strict::<T>(&b).ok() == d, 5);
    if let Some(x) = d { sx::reach(1); if x.empty() { sx::reach(3); } } else { sx::reach(2) }
}
pub fn agrees<T: Model>(got: Option<T>, want: &D<T>, id: u32) {
    match (got, want) {
        (_, Err(E::Any)) => sx::reach(3),
        (Some(x), Ok(y)) => { sx::check(x == *y, id); sx::reach(1) }
        (None, Err(E::Reject)) => sx::reach(2),
        (Some(_), Err(E::Reject)) => sx::check(false, id + 1),
        (None, Ok(_)) => sx::check(false, id + 2),
    }
}
fn decode_both<T: Model + Decode>(r: &RV) {
    let want = dec_default::<T>(r);
    agrees(oasis_cbor::from_value::<T>(rm::to_value(r)).ok(), &want, 1);
    let direct = T::dec(r);
    agrees(T::try_from_cbor_value(rm::to_value(r)).ok(), &direct, 11);
    if let Some(b) = bytes_of(r) {
        // The encoding has its maps sorted.
        let want = match rm::decode(&b, true, Some(64)) { Some((s, n)) => { sx::check(n == b.len(), 20); dec_default::<T>(&s) } None => { sx::check(false, 19); return } };
        agrees(oasis_cbor::from_slice::<T>(&b).ok(), &want, 21);
    }
}
/// Any small symbolic CBOR value decoded into the type.
pub fn anyvalue<T: Model + Encode + Decode>() {
    let mut g = rm::Gen { nodes: sx::param(0, 2) as i32, kinds: sx::param(1, 0xff) as u8, maxlen: sx::param(2, 1) as u8, maxitems: sx::param(3, 2) as u8 };
    let r = g.value(sx::param(4, 1) as u8);
    decode_both::<T>(&r);
}
/// An encoding of a symbolic value of the type with one arbitrary change.
pub fn mutated<T: Model + Encode + Decode>() {
    let mut r = T::gen().enc();
    mutate(&mut r, sx::param(5, 255) as u32);
    decode_both::<T>(&r);
}
/// Arbitrary bytes decoded into the type.
pub fn frombytes<T: Model + Encode + Decode>() {
    let d = crate::sx::input(3);
    let want = match rm::decode(&d, true, Some(64)) { Some((r, n)) if n == d.len() => dec_default::<T>(&r), _ => reject() };
    agrees(oasis_cbor::from_slice::<T>(&d).ok(), &want, 1);
    let lenient = match rm::decode(&d, false, Some(64)) { Some((r, _)) => dec_default::<T>(&r), _ => reject() };
    agrees(oasis_cbor::from_slice_non_strict::<T>(&d).ok(), &lenient, 11);
}

/// An encoding in which one array, map or string was made longer or shorter by repeating its own items.
pub fn resized<T: Model + Encode + Decode>() {
    let mut r = T::gen().enc();
    let n = count(&r);
    let mut at = sx::choose(n as u8) as u32;
    let x = match nth(&mut r, &mut at) { Some(x) => x, None => return };
    let len = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33][sx::choose(13) as usize];
    match x {
        RV::A(a) => { if a.is_empty() { sx::assume(false); } let l = a.len(); *a = (0..len).map(|i| a[i % l].clone()).collect(); }
        RV::B(b) => { if len < b.len() { b.truncate(len); } else { while b.len() < len { b.push(0x41); } } }
        RV::T(b) => { if len < b.len() { sx::assume(len == 0); b.clear(); } else { while b.len() < len { b.push(0x61); } } }
        RV::M(m) => { if m.is_empty() || len > 9 { sx::assume(false); } let l = m.len(); let int = matches!(m[0].0, RV::U(_)); *m = (0..len).map(|i| (if int { RV::U(i as u64) } else if i < l { m[i].0.clone() } else { RV::T(vec![b'a'; i]) }, m[i % l].1.clone())).collect(); }
        _ => sx::assume(false),
    }
    sx::reach(4);
    decode_both::<T>(&r);
}

fn count(r: &RV) -> u32 { 1 + match r { RV::A(a) => a.iter().map(count).sum(), RV::M(m) => m.iter().map(|(k, v)| count(k) + count(v)).sum(), RV::G(_, x) => count(x), _ => 0u32 } }
fn nth<'a>(r: &'a mut RV, n: &mut u32) -> Option<&'a mut RV> {
    if *n == 0 { return Some(r); }
    *n -= 1;
    match r {
        RV::A(a) => { for x in a { if let Some(y) = nth(x, n) { return Some(y); } } None }
        RV::M(m) => { for (k, v) in m { if let Some(y) = nth(k, n) { return Some(y); } if let Some(y) = nth(v, n) { return Some(y); } } None }
        RV::G(_, x) => nth(x, n),
        _ => None,
    }
}
/// A symbolic leaf or small container of every kind.
pub fn leaf() -> RV {
    match sx::choose(12) {
        0 => RV::U(sx::u64()), 1 => RV::N(sx::u64()), 2 => { let n = sx::choose(3); RV::B(sx::bytes(n as usize)) }
        3 => { let n = sx::choose(2); let b = sx::bytes(n as usize); for x in &b { sx::assume(*x < 0x80); } RV::T(b) }
        4 => RV::A(vec![]), 5 => RV::A(vec![RV::U(sx::u8() as u64)]), 6 => RV::M(vec![]), 7 => RV::M(vec![(RV::U(sx::u8() as u64), RV::U(1))]),
        8 => RV::G(sx::u64(), Box::new(RV::U(sx::u8() as u64))), 9 => RV::S(20 + sx::choose(2)), 10 => RV::S(22), _ => RV::S(23),
    }
}
/// A key: small symbolic integers and strings, so that it may sort before, between and after others.
pub fn key() -> RV {
    match sx::choose(6) { 0 => RV::U(sx::u8() as u64), 1 => RV::N(sx::u8() as u64), 2 => RV::T(vec![]), 3 => RV::T(vec![letter()]), 4 => RV::T(vec![letter(), b'a', letter()]), _ => RV::B(vec![]) }
}
fn letter() -> u8 { let b = sx::u8(); sx::assume(b >= b'a' && b <= b'z'); b }
/// One change at one place. `ops` is a mask of the allowed kinds of change.
pub fn mutate(r: &mut RV, ops: u32) {
    let n = count(r);
    let mut at = sx::choose(n as u8) as u32;
    let x = match nth(r, &mut at) { Some(x) => x, None => return };
    let op = sx::choose(10);
    if ops >> op & 1 == 0 { sx::assume(false); }
    match op {
        0 => {}
        1 => *x = leaf(),
        2 => *x = RV::G(sx::u64(), Box::new(x.clone())),
        3 => *x = RV::A(vec![x.clone()]),
        4 => match x { // remove an item
            RV::A(a) if !a.is_empty() => { let i = sx::choose(a.len() as u8) as usize; a.remove(i); }
            RV::M(m) if !m.is_empty() => { let i = sx::choose(m.len() as u8) as usize; m.remove(i); }
            RV::B(b) if !b.is_empty() => { b.pop(); }
            RV::T(b) if !b.is_empty() => { b.pop(); sx::assume(rm::utf8_ok(b)); }
            _ => sx::assume(false),
        },
        5 => match x { // add an item
            RV::A(a) => { let i = sx::choose(a.len() as u8 + 1) as usize; let l = leaf(); a.insert(i, l); }
            RV::M(m) => { let k = key(); let l = leaf(); m.push((k, l)); }
            RV::B(b) | RV::T(b) => b.push(0x41),
            _ => sx::assume(false),
        },
        6 => match x { // change a key to another type or spelling, or exchange two items
            RV::M(m) if !m.is_empty() => { let i = sx::choose(m.len() as u8) as usize; let k = key(); m[i].0 = k; }
            RV::A(a) if a.len() > 1 => { let n = a.len(); a.swap(0, n - 1); }
            _ => sx::assume(false),
        },
        8 => { let l = leaf(); let k = x.clone(); *x = RV::M(vec![(k, l)]); } // use it as a key
        9 => match x { // the key or the value alone
            RV::M(m) if m.len() == 1 => { let (k, v) = m.pop().unwrap(); *x = if sx::choose(2) == 0 { k } else { v }; }
            RV::A(a) if a.len() == 1 => { let y = a.pop().unwrap(); *x = y; }
            _ => sx::assume(false),
        },
        _ => match x { // duplicate an item
            RV::A(a) if !a.is_empty() => { let i = sx::choose(a.len() as u8) as usize; let y = a[i].clone(); a.push(y); }
            RV::M(m) if m.len() > 1 => { let n = m.len(); m.swap(0, n - 1); }
            _ => sx::assume(false),
        },
    }
}

// ---- reference semantics of the built-in types ----
macro_rules! int { ($($t:ty, $g:expr);*) => { $(impl Model for $t {
    fn gen() -> Self { $g as $t }
    fn enc(&self) -> RV { let v = *self as i128; if v >= 0 { RV::U(v as u64) } else { RV::N((-1 - v) as u64) } }
    fn dec(r: &RV) -> D<Self> { let v = match r { RV::U(n) => *n as i128, RV::N(n) if <$t>::MIN != 0 => -1 - *n as i128, _ => return reject() }; if v < <$t>::MIN as i128 || v > <$t>::MAX as i128 { reject() } else { Ok(v as $t) } }
    fn def() -> Option<Self> { Some(0) }
    fn empty(&self) -> bool { *self == 0 }
})* } }
int! { u8, sx::u8(); u16, sx::u16(); u32, sx::u32(); u64, sx::u64(); i8, sx::u8(); i16, sx::u16(); i32, sx::u32(); i64, sx::u64() }
impl Model for u128 {
    fn gen() -> Self { sx::u128() }
    fn enc(&self) -> RV { let b = self.to_be_bytes(); let mut i = 0; while i < 16 && b[i] == 0 { i += 1; } RV::B(b[i..].to_vec()) }
    fn dec(r: &RV) -> D<Self> { match r { RV::B(b) if b.len() <= 16 => { let mut n = 0u128; for x in b { n = n << 8 | *x as u128; } Ok(n) } _ => reject() } }
    fn def() -> Option<Self> { Some(0) }
    fn empty(&self) -> bool { *self == 0 }
}
impl Model for bool {
    fn gen() -> Self { sx::bool() }
    fn enc(&self) -> RV { RV::S(if *self { 21 } else { 20 }) }
    fn dec(r: &RV) -> D<Self> { match r { RV::S(20) => Ok(false), RV::S(21) => Ok(true), _ => reject() } }
    fn def() -> Option<Self> { Some(false) }
    fn empty(&self) -> bool { !*self }
}
impl Model for char {
    fn gen() -> Self { let n = sx::u32(); sx::assume(n < 0xd800 || (n > 0xdfff && n < 0x110000)); char::from_u32(n).unwrap() }
    fn enc(&self) -> RV { RV::U(*self as u32 as u64) }
    fn dec(r: &RV) -> D<Self> { match r { RV::U(n) if *n < 0xd800 || (*n > 0xdfff && *n < 0x110000) => Ok(char::from_u32(*n as u32).unwrap()), _ => reject() } }
    fn def() -> Option<Self> { Some('\0') }
    fn empty(&self) -> bool { *self == '\0' }
}
impl Model for String {
    fn gen() -> Self { let n = sx::choose(3); let b = sx::bytes(n as usize); if b.len() == 2 && b[0] >= 0x80 { sx::assume(b[0] >= 0xc2 && b[0] <= 0xdf && b[1] >= 0x80 && b[1] < 0xc0); } else { for x in &b { sx::assume(*x < 0x80); } } String::from_utf8(b).unwrap() }
    fn enc(&self) -> RV { RV::T(self.as_bytes().to_vec()) }
    fn dec(r: &RV) -> D<Self> { match r { RV::T(b) => Ok(String::from_utf8(b.clone()).unwrap()), _ => reject() } }
    fn def() -> Option<Self> { Some(String::new()) }
    fn empty(&self) -> bool { self.len() == 0 }
}
impl Model for () {
    fn gen() -> Self {}
    fn enc(&self) -> RV { RV::S(22) }
    fn dec(r: &RV) -> D<Self> { match r { RV::S(22) | RV::S(23) => Ok(()), _ => reject() } }
    fn def() -> Option<Self> { Some(()) }
    // () has no override of the optional form: is_empty is always true
    fn empty(&self) -> bool { true }
}
/// Byte vectors and arrays are byte strings, all others arrays.
impl<T: Model> Model for Vec<T> {
    default fn gen() -> Self { let n = sx::choose(sx::param(10, 3) as u8); (0..n).map(|_| T::gen()).collect() }
    default fn enc(&self) -> RV { RV::A(self.iter().map(|x| x.enc()).collect()) }
    default fn dec(r: &RV) -> D<Self> { match r { RV::A(a) => a.iter().map(T::dec).collect(), _ => reject() } }
    default fn def() -> Option<Self> { Some(vec![]) }
    default fn empty(&self) -> bool { self.len() == 0 }
}
impl Model for Vec<u8> {
    fn gen() -> Self { let n = sx::choose(4); sx::bytes(n as usize) }
    fn enc(&self) -> RV { RV::B(self.clone()) }
    fn dec(r: &RV) -> D<Self> { match r { RV::B(b) => Ok(b.clone()), _ => reject() } }
}
impl<T: Model, const N: usize> Model for [T; N] {
    default fn gen() -> Self { std::array::from_fn(|_| T::gen()) }
    default fn enc(&self) -> RV { RV::A(self.iter().map(|x| x.enc()).collect()) }
    default fn dec(r: &RV) -> D<Self> { match r { RV::A(a) => { let v: Vec<T> = a.iter().map(T::dec).collect::<D<Vec<T>>>()?; match v.try_into() { Ok(x) => Ok(x), Err(_) => reject() } } _ => reject() } }
    default fn def() -> Option<Self> { None }
}
/// Of longer byte arrays the first bytes and the last one are symbolic.
impl<const N: usize> Model for [u8; N] {
    fn gen() -> Self { let mut a = [0u8; N]; for i in 0..N { a[i] = if i < 6 || i + 1 == N { sx::u8() } else { 0x41 + i as u8 }; } a }
    fn enc(&self) -> RV { RV::B(self.to_vec()) }
    fn dec(r: &RV) -> D<Self> { match r { RV::B(b) if b.len() == N => { let mut a = [0u8; N]; a.copy_from_slice(b); Ok(a) } _ => reject() } }
    fn def() -> Option<Self> { Some([0u8; N]) }
}
impl<T: Model> Model for Option<T> {
    fn gen() -> Self { if sx::choose(2) == 0 { None } else { let x = T::gen(); let e = x.enc(); sx::assume(!matches!(e, RV::S(22))); Some(x) } }
    fn enc(&self) -> RV { match self { None => RV::S(22), Some(x) => x.enc() } }
    fn dec(r: &RV) -> D<Self> { match r { RV::S(22) => Ok(None), _ => Ok(Some(T::dec(r)?)) } }
    fn def() -> Option<Self> { Some(None) }
    fn empty(&self) -> bool { self.is_none() }
}
macro_rules! tuples { ($($n:expr; $($t:ident $i:tt),*);*) => { $(impl<$($t: Model),*> Model for ($($t,)*) {
    fn gen() -> Self { ($($t::gen(),)*) }
    fn enc(&self) -> RV { RV::A(vec![$(self.$i.enc()),*]) }
    fn dec(r: &RV) -> D<Self> { match r { RV::A(a) if a.len() == $n => Ok(($($t::dec(&a[$i])?,)*)), RV::A(a) => { $(if a.len() > $i { $t::dec(&a[$i])?; })* reject() } _ => reject() } }
    fn def() -> Option<Self> { Some(($($t::def()?,)*)) }
    fn empty(&self) -> bool { $(self.$i.inner_empty())&&* }
})* } }
tuples! { 1; A 0; 2; A 0, B 1; 3; A 0, B 1, C 2; 4; A 0, B 1, C 2, F 3; 6; A 0, B 1, C 2, F 3, G 4, H 5; 5; A 0, B 1, C 2, F 3, G 4; 10; A 0, B 1, C 2, F 3, G 4, H 5, I 6, J 7, K 8, L 9 }

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
/// Small symbolic keys, concretised for hashing.
pub trait Key: Model + Ord { fn key() -> Self; }
impl Key for u8 { fn key() -> Self { sx::choose(4) * 20 } }
impl Key for String { fn key() -> Self { ["", "a", "b", "aa"][sx::choose(4) as usize].to_string() } }
impl Key for i16 { fn key() -> Self { [-300i16, -1, 0, 300][sx::choose(4) as usize] } }
fn entries<K: Model + PartialEq, V: Model>(r: &RV) -> D<Vec<(K, V)>> {
    match r { RV::M(m) => { let mut o: Vec<(K, V)> = Vec::new(); for (k, v) in m { o.push((K::dec(k)?, V::dec(v)?)); } for i in 0..o.len() { for j in 0..i { if o[i].0 == o[j].0 { return Err(E::Any); } } } Ok(o) } _ => reject() }
}
fn items<K: Model + PartialEq>(r: &RV) -> D<Vec<K>> {
    match r { RV::A(m) => { let mut o: Vec<K> = Vec::new(); for k in m { o.push(K::dec(k)?); } for i in 0..o.len() { for j in 0..i { if o[i] == o[j] { return Err(E::Any); } } } Ok(o) } _ => reject() }
}
impl<K: Model + Ord, V: Model> Model for BTreeMap<K, V> {
    fn gen() -> Self { let n = sx::choose(sx::param(10, 3) as u8); let mut m = BTreeMap::new(); for _ in 0..n { m.insert(K::gen(), V::gen()); } m }
    fn enc(&self) -> RV { RV::M(self.iter().map(|(k, v)| (k.enc(), v.enc())).collect()) }
    fn dec(r: &RV) -> D<Self> { Ok(entries::<K, V>(r)?.into_iter().collect()) }
    fn def() -> Option<Self> { Some(BTreeMap::new()) }
    fn empty(&self) -> bool { self.len() == 0 }
}
impl<K: Model + Ord> Model for BTreeSet<K> {
    fn gen() -> Self { let n = sx::choose(sx::param(10, 3) as u8); let mut m = BTreeSet::new(); for _ in 0..n { m.insert(K::gen()); } m }
    fn enc(&self) -> RV { RV::A(self.iter().map(|k| k.enc()).collect()) }
    fn dec(r: &RV) -> D<Self> { Ok(items::<K>(r)?.into_iter().collect()) }
    fn def() -> Option<Self> { Some(BTreeSet::new()) }
    fn empty(&self) -> bool { self.len() == 0 }
}
impl<K: Key + std::hash::Hash, V: Model> Model for HashMap<K, V> {
    fn gen() -> Self { let n = sx::choose(sx::param(10, 4) as u8); let mut m = HashMap::new(); for _ in 0..n { m.insert(K::key(), V::gen()); } m }
    // In a fixed order, so that runs do not depend on the hash seed.
    fn enc(&self) -> RV { let mut v: Vec<(Vec<u8>, (RV, RV))> = self.iter().map(|(k, x)| { let e = k.enc(); (bytes_of(&e).unwrap(), (e, x.enc())) }).collect(); v.sort_by(|a, b| a.0.cmp(&b.0)); RV::M(v.into_iter().map(|x| x.1).collect()) }
    fn dec(r: &RV) -> D<Self> { if let RV::M(m) = r { for (k, _) in m { conc_key(k); } } Ok(entries::<K, V>(r)?.into_iter().collect()) }
    fn def() -> Option<Self> { Some(HashMap::new()) }
    fn empty(&self) -> bool { self.len() == 0 }
}
impl<K: Key + std::hash::Hash> Model for HashSet<K> {
    fn gen() -> Self { let n = sx::choose(sx::param(10, 4) as u8); let mut m = HashSet::new(); for _ in 0..n { m.insert(K::key()); } m }
    // The order of the items is part of the encoding: ascending by encoding.
    fn enc(&self) -> RV { let mut v: Vec<(Vec<u8>, RV)> = self.iter().map(|k| { let e = k.enc(); (bytes_of(&e).unwrap(), e) }).collect(); v.sort_by(|a, b| a.0.cmp(&b.0)); RV::A(v.into_iter().map(|x| x.1).collect()) }
    fn dec(r: &RV) -> D<Self> { if let RV::A(m) = r { for k in m { conc_key(k); } } Ok(items::<K>(r)?.into_iter().collect()) }
    fn def() -> Option<Self> { Some(HashSet::new()) }
    fn empty(&self) -> bool { self.len() == 0 }
}
/// Restricts a symbolic key to a few values (hashing a symbolic key is out of reach).
pub fn conc_key(r: &RV) {
    match r { RV::U(n) | RV::N(n) => { sx::assume(*n < 3 || *n == 300); sx::conc(*n); } RV::T(b) | RV::B(b) => for x in b { sx::assume(*x == b'a' || *x == b'b' || *x == 0x41); sx::conc(*x as u64); }, _ => {} }
}
/// The dynamic value type itself.
#[derive(Clone)]
pub struct Dyn(pub Value);
impl PartialEq for Dyn { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Model for Value {
    // Undefined is omitted and read as null, like null itself.
    fn gen() -> Self { let l = leaf(); sx::assume(!matches!(l, RV::S(23))); rm::to_value(&l) }
    fn enc(&self) -> RV { from_value(self) }
    fn dec(r: &RV) -> D<Self> { Ok(rm::to_value(r)) }
    fn def() -> Option<Self> { Some(rm::to_value(&RV::S(22))) }
    fn empty(&self) -> bool { matches!(from_value(self), RV::S(22) | RV::S(23)) }
}
pub fn from_value(v: &Value) -> RV {
    match v {
        Value::Unsigned(n) => RV::U(*n), Value::Negative(n) => RV::N((-1 - *n) as u64), Value::ByteString(b) => RV::B(b.clone()), Value::TextString(s) => RV::T(s.as_bytes().to_vec()),
        Value::Array(a) => RV::A(a.iter().map(from_value).collect()), Value::Map(m) => RV::M(m.iter().map(|(k, v)| (from_value(k), from_value(v))).collect()),
        Value::Tag(t, x) => RV::G(*t, Box::new(from_value(x))), Value::Simple(s) => RV::S(s.clone() as u8),
    }
}
#[allow(unused)] fn _r(d: &[u8]) { let _ = reader::read(d); }

/// Calls one of several instances of a generic function; params 8 and 9 restrict the range of instances.
#[macro_export]
macro_rules! dispatch {
    ($f:path; $($t:ty),* $(,)?) => {{
        const FS: &[fn()] = &[$({ fn call() { use $f as run; run::<$t>() } call as fn() }),*];
        let (lo, hi) = ($crate::sx::param(8, 0) as usize, ($crate::sx::param(9, 1000) as usize).min(FS.len() - 1));
        let i = lo + $crate::sx::choose((hi - lo + 1) as u8) as usize;
        FS[i]()
    }};
}

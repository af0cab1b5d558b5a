//! Built-in types: integers, strings, collections, tuples.
use crate::{dispatch, harness, model, sx};
use oasis_cbor::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

macro_rules! prims { ($f:path) => { dispatch!($f; u8, u16, u32, u64, i8, i16, i32, i64, u128, bool, char, String, (), Vec<u8>, [u8; 0], [u8; 3], [u8; 16], [u8; 32], [u8; 33], [u8; 64], Option<u64>, Option<String>, Option<bool>, Value) } }
macro_rules! colls { ($f:path) => { dispatch!($f; Vec<u16>, Vec<bool>, Vec<String>, Vec<Vec<u8>>, Vec<Option<u8>>, Vec<(u8, bool)>, Vec<Vec<u16>>, Vec<[u8; 2]>, [u16; 2], [String; 2], [Option<u8>; 2], [[u8; 2]; 2],
    (u64,), (u8, String), (Option<u8>, bool, Vec<u8>), (u8, (i16, bool), String), (u8, bool, (), Option<bool>, char), BTreeMap<u8, bool>, BTreeMap<String, u16>, BTreeMap<i16, Vec<u8>>, BTreeMap<(u8, bool), u8>, BTreeSet<u16>, BTreeSet<String>, BTreeSet<i8>, Option<Vec<u16>>, Option<(u8, bool)>, Option<BTreeMap<u8, bool>>, (u8, u8, u8, u8, u8, u8, u8, u8, u8, bool),
    BTreeMap<u8, Option<u8>>, BTreeMap<i8, ()>, BTreeMap<bool, Value>, [u16; 0], [bool; 1], [i8; 3], Vec<()>, Vec<char>, Vec<Value>, Vec<BTreeMap<u8, u8>>, BTreeMap<u8, BTreeSet<u8>>, BTreeMap<char, (bool,)>, BTreeMap<Vec<u8>, u8>, BTreeSet<(u8, bool)>, BTreeSet<Option<u8>>, (u8, u8, u8, u8), (bool, (), char, i8, bool, u8), Vec<u128>, Option<Vec<u8>>, Option<[u8; 2]>, Option<()>, Option<Option<u8>>) } }
macro_rules! hashes { ($f:path) => { dispatch!($f; HashMap<u8, u16>, HashMap<String, bool>, HashMap<i16, Option<u8>>, HashSet<u8>, HashSet<String>, HashSet<i16>) } }

harness!(t_prim, { prims!(model::round) });
harness!(t_coll, { colls!(model::round) });
harness!(t_hash, { hashes!(model::round) });
harness!(t_hash_any, { hashes!(model::anyvalue) });
harness!(t_prim_null, { prims!(model::null) });
harness!(t_coll_null, { colls!(model::null) });
harness!(t_hash_null, { hashes!(model::null) });
harness!(t_prim_any, { prims!(model::anyvalue) });
harness!(t_coll_any, { colls!(model::anyvalue) });
harness!(t_prim_mut, { prims!(model::mutated) });
harness!(t_coll_mut, { colls!(model::mutated) });
harness!(t_hash_mut, { hashes!(model::mutated) });
harness!(t_prim_len, { prims!(model::resized) });
harness!(t_coll_len, { colls!(model::resized) });
harness!(t_long, { dispatch!(model::long; String, Vec<u8>, Vec<u16>, Vec<bool>, Vec<Option<u8>>, Vec<String>, BTreeMap<u16, u8>, BTreeMap<String, u16>, BTreeMap<i16, Vec<u8>>, BTreeSet<u16>, BTreeSet<String>, HashMap<u8, u16>, HashSet<i16>, Option<Vec<u16>>) });
harness!(t_prim_bytes, { prims!(model::frombytes) });
harness!(t_coll_bytes, { colls!(model::frombytes) });

// Equal hash maps and sets built in different ways (other insertion order, other capacity, own hash seed) encode to the same bytes.
harness!(t_determinism, {
    let n = sx::choose(sx::param(0, 4) as u8) as usize + 1;
    let (order, cap) = (sx::choose(n as u8) as usize, [0usize, 1, 40][sx::choose(3) as usize]);
    let k: Vec<u8> = (0..n as u8).map(|i| i * 37 + 1).collect(); let v: Vec<u8> = (0..n).map(|_| sx::u8()).collect();
    let (mut m1, mut s1, mut m2, mut s2, mut b) = (HashMap::new(), HashSet::new(), HashMap::with_capacity(cap), HashSet::with_capacity(cap), BTreeMap::new());
    for i in 0..n { m1.insert(k[i], v[i]); s1.insert(k[i] as i64 - 60); b.insert(k[i], v[i]); }
    for j in 0..n { let i = (j + order) % n; let i = if j % 2 == 0 { n - 1 - i } else { i }; m2.insert(k[i], v[i]); s2.insert(k[i] as i64 - 60); }
    for i in 0..n { m2.insert(k[i], v[i]); s2.insert(k[i] as i64 - 60); }
    let e1 = oasis_cbor::to_vec(m1.clone());
    sx::check(e1 == oasis_cbor::to_vec(m2), 1);
    sx::check(e1 == oasis_cbor::to_vec(b), 2);
    let t1 = oasis_cbor::to_vec(s1.clone());
    sx::check(t1 == oasis_cbor::to_vec(s2), 3);
    sx::check(oasis_cbor::from_slice::<HashMap<u8, u8>>(&e1).ok() == Some(m1), 4);
    sx::check(oasis_cbor::from_slice::<HashSet<i64>>(&t1).ok() == Some(s1), 5);
    sx::reach(1); if n > 1 { sx::reach(2); }
});

// A 64-bit unsigned or negative CBOR integer decoded into every integer width: the exact number or an error.
fn narrow<T: oasis_cbor::Decode + model::Model + TryFrom<i128>>() {
    let n = sx::u64(); let neg = sx::choose(2) == 1;
    let num = if neg { -1 - n as i128 } else { n as i128 };
    let v = if neg { Value::Negative(num) } else { Value::Unsigned(n) };
    let got = oasis_cbor::from_value::<T>(v.clone()).ok();
    match (T::try_from(num), got) { (Ok(x), Some(y)) => { sx::check(x == y, 1); sx::reach(1) } (Err(_), None) => sx::reach(2), (Ok(_), None) => sx::check(false, 2), (Err(_), Some(_)) => sx::check(false, 3) }
    let b = model::written(v).unwrap();
    match (T::try_from(num), oasis_cbor::from_slice::<T>(&b).ok()) { (Ok(x), Some(y)) => sx::check(x == y, 4), (Err(_), None) => {} _ => sx::check(false, 5) }
}
harness!(t_narrow, { dispatch!(narrow; u8, u16, u32, u64, i8, i16, i32, i64) });

// Byte strings of up to 18 bytes decoded as a 128-bit integer; encoding never has leading zero bytes.
harness!(t_u128, {
    let n = sx::choose(19) as usize; let b = sx::bytes(n);
    let got = oasis_cbor::from_value::<u128>(Value::ByteString(b.clone())).ok();
    if n > 16 { sx::reach(2); sx::check(got.is_none(), 1); return; }
    let mut want = 0u128; for x in &b { want = want << 8 | *x as u128; }
    sx::check(got == Some(want), 2); sx::reach(1);
    let mut i = 0; while i < n && b[i] == 0 { i += 1; }
    match oasis_cbor::to_value(want) { Value::ByteString(o) => sx::check(o[..] == b[i..], 3), _ => sx::check(false, 4) }
    match oasis_cbor::Encode::into_cbor_value(&want) { Value::ByteString(o) => sx::check(o[..] == b[i..], 5), _ => sx::check(false, 6) }
});
// References encode like the values they refer to.
harness!(t_refs, {
    use oasis_cbor::Encode;
    macro_rules! both { ($($x:expr),*) => { $({ let x = $x; sx::check(Encode::into_cbor_value(&x) == Encode::into_cbor_value(x), 1); sx::check(Encode::is_empty(&&x) == Encode::is_empty(&x) && Encode::is_empty(&x) == (x == 0), 2); })* } }
    both!(sx::u8(), sx::u16(), sx::u32(), sx::u64(), sx::u8() as i8, sx::u16() as i16, sx::u32() as i32, sx::u64() as i64, sx::u128());
    let s = <String as model::Model>::gen();
    sx::check(Encode::into_cbor_value(&s[..]) == Encode::into_cbor_value(s.clone()) && Encode::is_empty(&&s[..]) == (s.len() == 0), 3);
    sx::reach(1);
});

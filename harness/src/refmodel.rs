//! Independent reference models (written from RFC 8949 and the crate documentation, not from the code).
use oasis_cbor::{SimpleValue, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum RV { U(u64), N(u64), B(Vec<u8>), T(Vec<u8>), A(Vec<RV>), M(Vec<(RV, RV)>), G(u64, Box<RV>), S(u8) }

/// Header: (major, argument, additional info, header length). `strict` requires the shortest form.
fn header(d: &[u8], strict: bool) -> Option<(u8, u64, u8, usize)> {
    if d.is_empty() { return None; }
    let ai = d[0] & 31;
    let n = if ai < 24 { 0 } else if ai == 24 { 1 } else if ai == 25 { 2 } else if ai == 26 { 4 } else if ai == 27 { 8 } else { return None };
    if d.len() < 1 + n { return None; }
    let arg = match n {
        0 => ai as u64,
        1 => d[1] as u64,
        2 => u16::from_be_bytes([d[1], d[2]]) as u64,
        4 => u32::from_be_bytes([d[1], d[2], d[3], d[4]]) as u64,
        _ => u64::from_be_bytes([d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]]),
    };
    if strict && ((n == 1 && arg < 24) || (n == 2 && arg <= 0xff) || (n == 4 && arg <= 0xffff) || (n == 8 && arg <= 0xffff_ffff)) { return None; }
    Some((d[0] >> 5, arg, ai, 1 + n))
}

/// Well-formed UTF-8 (RFC 3629), written independently of the standard library.
pub fn utf8_ok(s: &[u8]) -> bool {
    let mut i = 0;
    let cont = |i: usize, lo: u8, hi: u8| i < s.len() && s[i] >= lo && s[i] <= hi;
    while i < s.len() {
        let b = s[i];
        let n = if b < 0x80 { 1 }
            else if b < 0xc2 { return false }
            else if b < 0xe0 { if !cont(i + 1, 0x80, 0xbf) { return false; } 2 }
            else if b < 0xf0 {
                let (lo, hi) = if b == 0xe0 { (0xa0, 0xbf) } else if b == 0xed { (0x80, 0x9f) } else { (0x80, 0xbf) };
                if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xbf) { return false; } 3 }
            else if b < 0xf5 {
                let (lo, hi) = if b == 0xf0 { (0x90, 0xbf) } else if b == 0xf4 { (0x80, 0x8f) } else { (0x80, 0xbf) };
                if !cont(i + 1, lo, hi) || !cont(i + 2, 0x80, 0xbf) || !cont(i + 3, 0x80, 0xbf) { return false; } 4 }
            else { return false };
        i += n;
    }
    true
}

/// Strict bytewise order.
pub fn lex_less(a: &[u8], b: &[u8]) -> bool {
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    for i in 0..n { if a[i] != b[i] { return a[i] < b[i]; } }
    a.len() < b.len()
}

/// Reference decoder for one item: value and number of bytes consumed. `depth` is the number of
/// further container levels allowed (None = unlimited); an item is refused when its depth is negative.
pub fn decode(d: &[u8], strict: bool, depth: Option<i32>) -> Option<(RV, usize)> {
    if let Some(x) = depth { if x < 0 { return None; } }
    let (major, arg, ai, mut p) = header(d, strict)?;
    let sub = depth.map(|x| x - 1);
    match major {
        0 => Some((RV::U(arg), p)),
        1 => Some((RV::N(arg), p)),
        2 | 3 => {
            if arg > (d.len() - p) as u64 { return None; }
            let n = arg as usize;
            let s = d[p..p + n].to_vec();
            if major == 3 { if !utf8_ok(&s) { return None; } Some((RV::T(s), p + n)) } else { Some((RV::B(s), p + n)) }
        }
        4 => {
            let mut out = Vec::new(); let mut i = 0;
            while i < arg { let (v, n) = decode(&d[p..], strict, sub)?; out.push(v); p += n; i += 1; }
            Some((RV::A(out), p))
        }
        5 => {
            let mut out: Vec<(RV, RV)> = Vec::new(); let mut i = 0; let mut prev: (usize, usize) = (0, 0);
            while i < arg {
                let (k, n) = decode(&d[p..], strict, sub)?;
                if strict && i > 0 && !lex_less(&d[prev.0..prev.1], &d[p..p + n]) { return None; }
                prev = (p, p + n); p += n;
                let (v, n) = decode(&d[p..], strict, sub)?; p += n;
                out.push((k, v)); i += 1;
            }
            Some((RV::M(out), p))
        }
        6 => { let (v, n) = decode(&d[p..], strict, sub)?; Some((RV::G(arg, Box::new(v)), p + n)) }
        _ => {
            if ai > 24 { if strict { return None; } return Some((RV::S(23), p)); } // floats: undefined when non-strict
            if (20..=23).contains(&arg) { return Some((RV::S(arg as u8), p)); }
            if strict { None } else { Some((RV::S(23), p)) }
        }
    }
}

pub fn put_header(out: &mut Vec<u8>, major: u8, arg: u64) {
    let m = major << 5;
    if arg < 24 { out.push(m | arg as u8); }
    else if arg < 0x100 { out.push(m | 24); out.push(arg as u8); }
    else if arg < 0x1_0000 { out.push(m | 25); out.extend_from_slice(&(arg as u16).to_be_bytes()); }
    else if arg < 0x1_0000_0000 { out.push(m | 26); out.extend_from_slice(&(arg as u32).to_be_bytes()); }
    else { out.push(m | 27); out.extend_from_slice(&arg.to_be_bytes()); }
}

/// Reference canonical encoder; false = duplicate map keys.
pub fn encode(v: &RV, out: &mut Vec<u8>) -> bool { enc(v, out, true) }
/// Encoding that keeps map entries in the given order (duplicates allowed).
pub fn encode_raw(v: &RV, out: &mut Vec<u8>) { enc(v, out, false); }
fn enc(v: &RV, out: &mut Vec<u8>, sort: bool) -> bool {
    match v {
        RV::U(n) => put_header(out, 0, *n),
        RV::N(n) => put_header(out, 1, *n),
        RV::B(b) => { put_header(out, 2, b.len() as u64); out.extend_from_slice(b); }
        RV::T(b) => { put_header(out, 3, b.len() as u64); out.extend_from_slice(b); }
        RV::A(a) => { put_header(out, 4, a.len() as u64); for x in a { if !enc(x, out, sort) { return false; } } }
        RV::M(m) => {
            put_header(out, 5, m.len() as u64);
            let mut es: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
            for (k, x) in m {
                let mut ke = Vec::new(); let mut ve = Vec::new();
                if !enc(k, &mut ke, sort) || !enc(x, &mut ve, sort) { return false; }
                if !sort { es.push((ke, ve)); continue; }
                let mut at = 0;
                while at < es.len() && lex_less(&es[at].0, &ke) { at += 1; }
                if at < es.len() && es[at].0 == ke { return false; }
                es.insert(at, (ke, ve));
            }
            for (k, x) in es { out.extend_from_slice(&k); out.extend_from_slice(&x); }
        }
        RV::G(t, x) => { put_header(out, 6, *t); return enc(x, out, sort); }
        RV::S(s) => put_header(out, 7, *s as u64),
    }
    true
}

/// Does the crate's value equal the reference value?
pub fn same(v: &Value, r: &RV) -> bool {
    match (v, r) {
        (Value::Unsigned(a), RV::U(b)) => a == b,
        (Value::Negative(a), RV::N(b)) => *a == -1 - (*b as i128),
        (Value::ByteString(a), RV::B(b)) => a == b,
        (Value::TextString(a), RV::T(b)) => a.as_bytes() == &b[..],
        (Value::Array(a), RV::A(b)) => { if a.len() != b.len() { return false; } for i in 0..a.len() { if !same(&a[i], &b[i]) { return false; } } true }
        (Value::Map(a), RV::M(b)) => { if a.len() != b.len() { return false; } for i in 0..a.len() { if !same(&a[i].0, &b[i].0) || !same(&a[i].1, &b[i].1) { return false; } } true }
        (Value::Tag(t, x), RV::G(u, y)) => *t == *u && same(x, y),
        (Value::Simple(s), RV::S(n)) => { let k = match s { SimpleValue::FalseValue => 20, SimpleValue::TrueValue => 21, SimpleValue::NullValue => 22, SimpleValue::Undefined => 23 }; k == *n }
        _ => false,
    }
}
/// Reference value -> crate value.
pub fn to_value(r: &RV) -> Value {
    match r {
        RV::U(n) => Value::Unsigned(*n),
        RV::N(n) => Value::Negative(-1 - (*n as i128)),
        RV::B(b) => Value::ByteString(b.clone()),
        RV::T(b) => Value::TextString(String::from_utf8(b.clone()).unwrap()),
        RV::A(a) => Value::Array(a.iter().map(to_value).collect()),
        RV::M(m) => Value::Map(m.iter().map(|(k, v)| (to_value(k), to_value(v))).collect()),
        RV::G(t, x) => Value::Tag(*t, Box::new(to_value(x))),
        RV::S(s) => Value::Simple(match s { 20 => SimpleValue::FalseValue, 21 => SimpleValue::TrueValue, 22 => SimpleValue::NullValue, _ => SimpleValue::Undefined }),
    }
}

/// Every well-formed text of n bytes.
pub fn text(n: usize) -> Vec<u8> {
    let b = crate::sx::bytes(n);
    if n == 1 { crate::sx::assume(b[0] < 0x80); }
    else if n == 2 { if b[0] < 0x80 { crate::sx::assume(b[1] < 0x80); } else { crate::sx::assume(b[0] >= 0xc2 && b[0] <= 0xdf && b[1] >= 0x80 && b[1] < 0xc0); } }
    else { crate::sx::assume(utf8_ok(&b)); }
    b
}

/// A structured symbolic value: every shape within the node budget, depth and length bounds, all payloads symbolic.
/// `kinds` is a bit mask over the 8 kinds (bit = major type).
pub struct Gen { pub nodes: i32, pub kinds: u8, pub maxlen: u8, pub maxitems: u8 }
impl Gen {
    pub fn value(&mut self, depth: u8) -> RV {
        self.nodes -= 1;
        let mut ks = Vec::with_capacity(8);
        for k in 0..8u8 { if self.kinds >> k & 1 != 0 && ((depth > 0 && self.nodes > 0) || !(k == 4 || k == 5 || k == 6) || (k != 6 && depth > 0)) { ks.push(k); } }
        let k = ks[crate::sx::choose(ks.len() as u8) as usize];
        match k {
            0 => RV::U(crate::sx::u64()),
            1 => RV::N(crate::sx::u64()),
            2 => { let n = crate::sx::choose(self.maxlen + 1); RV::B(crate::sx::bytes(n as usize)) }
            3 => { let n = crate::sx::choose(self.maxlen + 1); RV::T(text(n as usize)) }
            4 => { let m = if (self.maxitems as i32) < self.nodes { self.maxitems as i32 } else { self.nodes }; let n = crate::sx::choose(m as u8 + 1); let mut a = Vec::with_capacity(4); for i in 0..n { let keep = (n - 1 - i) as i32; self.nodes -= keep; a.push(self.value(depth - 1)); self.nodes += keep; } RV::A(a) }
            5 => { let m = if (self.maxitems as i32) < self.nodes / 2 { self.maxitems as i32 } else { self.nodes / 2 }; let n = crate::sx::choose(m as u8 + 1); let mut a = Vec::with_capacity(4); for i in 0..n { let keep = 2 * (n - 1 - i) as i32; self.nodes -= keep + 1; let k = self.value(depth - 1); self.nodes += 1; let v = self.value(depth - 1); self.nodes += keep; a.push((k, v)); } RV::M(a) }
            6 => RV::G(crate::sx::u64(), Box::new(self.value(depth - 1))),
            _ => { let s = crate::sx::u8(); crate::sx::assume(s >= 20 && s <= 23); RV::S(crate::sx::conc(s as u64) as u8) }
        }
    }
}

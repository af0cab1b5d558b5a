//! Harnesses over the value layer: reader, writer, ordering, conversions.
use crate::{harness, refmodel as rm, refmodel::RV, sx, sx::input};
use oasis_cbor::{reader, writer, SimpleValue, Value};

// Strict reading: accepts exactly the canonical profile, gives the denoted value, and writing it back gives the
// same bytes. The written length and prefix are checked too.
harness!(h_strict, {
    let d = input(4);
    let r = reader::read(&d);
    let expect = match rm::decode(&d, true, Some(127)) { Some((v, n)) if n == d.len() => Some(v), _ => None };
    sx::observe(r.is_ok() as u64);
    match (r, expect) {
        (Ok(v), Some(e)) => {
            sx::check(rm::same(&v, &e), 2);
            let mut out = Vec::new();
            let w = writer::write(v, &mut out);
            sx::check(w.is_ok(), 3);
            sx::check(out == d, 4);
            sx::reach(1);
        }
        (Err(_), None) => { sx::reach(2); }
        (Ok(_), None) => sx::check(false, 5),
        (Err(_), Some(_)) => sx::check(false, 6),
    }
});

// Strict reading then writing reproduces the input (no reference model involved).
harness!(h_rewrite, {
    let d = input(4);
    if let Ok(v) = reader::read(&d) {
        sx::reach(1);
        let mut out = vec![0xEEu8];
        sx::check(writer::write(v, &mut out).is_ok(), 1);
        sx::check(out.len() == d.len() + 1 && out[0] == 0xEE, 2);
        sx::check(out[1..] == d[..], 3);
    } else { sx::reach(2); }
});

// Non-strict reading against the lenient reference, and superset of strict reading.
harness!(h_lenient, {
    let d = input(4);
    let r = reader::read_nested_non_strict(&d, Some(64));
    let expect = rm::decode(&d, false, Some(64));
    sx::observe(r.is_ok() as u64);
    match (&r, &expect) {
        (Ok(v), Some((e, _))) => { sx::check(rm::same(v, e), 2); sx::reach(1); }
        (Err(_), None) => sx::reach(2),
        (Ok(_), None) => sx::check(false, 5),
        (Err(_), Some(_)) => sx::check(false, 6),
    }
    if let Ok(s) = reader::read_nested(&d, Some(64)) {
        sx::reach(3);
        match r { Ok(v) => sx::check(v == s, 7), Err(_) => sx::check(false, 8) }
    }
});

// Non-strict reading of a prefix ignores whatever follows: appending a byte never changes an accepted value.
harness!(h_lenient_tail, {
    let mut d = input(3);
    let a = reader::read_nested_non_strict(&d, Some(64));
    d.push(sx::u8());
    let b = reader::read_nested_non_strict(&d, Some(64));
    match (a, b) { (Ok(x), Ok(y)) => { sx::reach(1); sx::check(x == y, 1) } (Ok(_), Err(_)) => sx::check(false, 2), _ => sx::reach(2) }
});

// Any bytes, any nesting limit, both modes: terminates without panicking; the limit is respected exactly.
harness!(h_limit, {
    let d = input(3);
    let lim = if sx::choose(2) == 0 { None } else { Some(sx::u8() as i8) };
    let a = reader::read_nested(&d, lim);
    let b = reader::read_nested_non_strict(&d, lim);
    let l32 = lim.map(|x| x as i32);
    let ea = matches!(rm::decode(&d, true, l32), Some((_, n)) if n == d.len());
    let eb = rm::decode(&d, false, l32).is_some();
    sx::check(a.is_ok() == ea, 1); sx::check(b.is_ok() == eb, 2);
    if ea { sx::reach(1); } else if eb { sx::reach(2); } else { sx::reach(3); }
    if let Err(reader::DecoderError::TooMuchNesting) = a { sx::reach(4); }
});

// A chain of k containers around one leaf against an arbitrary limit, reading and writing. Params: 0 = largest k,
// 1 = step between explored k, 2 = first k. The container kind is symbolic (one kind, plus one odd level).
harness!(h_depth, {
    let (maxk, step, first) = (sx::param(0, 6) as usize, sx::param(1, 1) as usize, sx::param(2, 0) as usize);
    let k = first + step * sx::choose(((maxk - first) / step + 1) as u8) as usize;
    let kind = sx::choose(4); let odd = sx::choose(4);
    let oddpos = if k == 0 { 0 } else { [0, k / 2, k - 1][sx::choose(3) as usize] };
    let mut d = Vec::with_capacity(3 * k + 2); let mut v = Value::Unsigned(7);
    for i in 0..k { let c = if i == oddpos { odd } else { kind }; match c { 0 => d.push(0x81), 1 => { d.push(0xa1); d.push(0x00); } 2 => d.push(0xa1), _ => d.push(0xc1) } }
    d.push(0x07);
    for i in (0..k).rev() {
        let c = if i == oddpos { odd } else { kind };
        match c { 0 => v = Value::Array(vec![v]), 1 => v = Value::Map(vec![(Value::Unsigned(0), v)]), 2 => { d.push(0x00); v = Value::Map(vec![(v, Value::Unsigned(0))]) } _ => v = Value::Tag(1, Box::new(v)) }
    }
    let lim = if sx::choose(2) == 0 { None } else { Some(sx::u8() as i8) };
    let fits = match lim { None => true, Some(l) => l as i32 >= k as i32 };
    let a = reader::read_nested(&d, lim);
    sx::check(a.is_ok() == fits, 1);
    if let Err(e) = &a { sx::check(*e == reader::DecoderError::TooMuchNesting, 2); sx::reach(2); }
    let b = reader::read_nested_non_strict(&d, lim);
    sx::check(b.is_ok() == fits, 3);
    let mut out = Vec::new();
    let w = writer::write_nested(v, &mut out, lim);
    sx::check(w.is_ok() == fits, 4);
    if fits { sx::reach(1); sx::check(out == d, 5); } else { sx::check(w == Err(writer::EncoderError::TooMuchNesting), 6); }
});

// The documented limits of the convenience entry points: 127 for read/write, 64 for from_slice.
harness!(h_depth_api, {
    let k = sx::param(2, 60) as usize + sx::choose(sx::param(0, 10) as u8 + 1) as usize;
    let kind = sx::choose(4);
    let mut d = Vec::with_capacity(3 * k + 2); let mut v = Value::Unsigned(7);
    for _ in 0..k { match kind { 0 => d.push(0x81), 1 => { d.push(0xa1); d.push(0x00); } 2 => d.push(0xa1), _ => d.push(0xc1) } }
    d.push(0x07);
    for _ in 0..k { match kind { 0 => v = Value::Array(vec![v]), 1 => v = Value::Map(vec![(Value::Unsigned(0), v)]), 2 => { d.push(0x00); v = Value::Map(vec![(v, Value::Unsigned(0))]) } _ => v = Value::Tag(1, Box::new(v)) } }
    sx::check(reader::read(&d).is_ok() == (k <= 127), 1);
    sx::check(oasis_cbor::from_slice::<Value>(&d).is_ok() == (k <= 64), 2);
    sx::check(oasis_cbor::from_slice_non_strict::<Value>(&d).is_ok() == (k <= 64), 3);
    let mut out = Vec::new();
    sx::check(writer::write(v.clone(), &mut out).is_ok() == (k <= 127), 4);
    if k <= 127 { sx::reach(1); sx::check(out == d, 5); sx::check(oasis_cbor::to_vec(v) == d, 6); } else { sx::reach(2); }
});

fn gen() -> RV {
    let mut g = rm::Gen { nodes: sx::param(0, 3) as i32, kinds: sx::param(1, 0xff) as u8, maxlen: sx::param(2, 1) as u8, maxitems: sx::param(3, 2) as u8 };
    g.value(sx::param(4, 2) as u8)
}

// Writing any value: canonical bytes exactly as the reference encoder gives them (shortest heads, sorted unique keys),
// appended after existing content; reading them back strictly gives the same value with sorted maps.
harness!(h_write, {
    let e = gen();
    let v = rm::to_value(&e);
    let mut want = vec![1u8, 2, 3];
    let ok = rm::encode(&e, &mut want);
    let mut out = vec![1u8, 2, 3];
    let w = writer::write(v, &mut out);
    sx::check(w.is_ok() == ok, 1);
    if ok {
        sx::reach(1);
        sx::check(out == want, 2);
        match reader::read(&out[3..]) {
            Ok(back) => { let mut again = Vec::new(); sx::check(writer::write(back.clone(), &mut again).is_ok(), 4); sx::check(again[..] == out[3..], 5);
                match rm::decode(&out[3..], true, Some(127)) { Some((r, n)) => { sx::check(n + 3 == out.len() && rm::same(&back, &r), 6) } None => sx::check(false, 7) } }
            Err(_) => sx::check(false, 3),
        }
    } else {
        sx::reach(2);
        sx::check(w == Err(writer::EncoderError::DuplicateMapKey), 8);
        sx::check(out.len() >= 3 && out[0] == 1 && out[1] == 2 && out[2] == 3, 9);
    }
});

// Round trip through the writer and the strict reader for values whose maps are already canonical: Value equality.
harness!(h_roundtrip, {
    let e = gen();
    let v = rm::to_value(&e);
    let keep = v.clone();
    let mut out = Vec::new();
    if writer::write(v, &mut out).is_ok() {
        let mut raw = Vec::new(); rm::encode_raw(&e, &mut raw);
        match reader::read(&out) { Ok(b) => { if raw == out { sx::reach(1); sx::check(b == keep, 1); sx::check(rm::same(&b, &e), 2); } else { sx::reach(2); } } Err(_) => sx::check(false, 3) }
    } else { sx::reach(3); }
});

// Every encoding of a structured value in which one head may be over-long, announce one item more or fewer, or use a
// reserved form, optionally cut short or followed by a byte: both readers against the reference. Map entries come in any order.
fn put_odd(v: &RV, out: &mut Vec<u8>, ctr: &mut u32, odd: u32, mode: u8) {
    let (major, arg) = match v { RV::U(n) => (0, *n), RV::N(n) => (1, *n), RV::B(b) => (2, b.len() as u64), RV::T(b) => (3, b.len() as u64), RV::A(a) => (4, a.len() as u64), RV::M(m) => (5, m.len() as u64), RV::G(t, _) => (6, *t), RV::S(s) => (7, *s as u64) };
    if *ctr == odd {
        match mode {
            0 => rm::put_header(out, major, arg),
            1..=4 => { let w = mode - 1; out.push((major << 5) | (24 + w)); for i in (0..1u32 << w).rev() { out.push((arg >> (8 * i)) as u8); } }
            5 => rm::put_header(out, major, arg.wrapping_add(1)),
            6 => rm::put_header(out, major, arg.wrapping_sub(1)),
            _ => out.push((major << 5) | (21 + mode)), // 28..=31
        }
    } else { rm::put_header(out, major, arg); }
    *ctr += 1;
    match v {
        RV::B(b) | RV::T(b) => out.extend_from_slice(b),
        RV::A(a) => { for x in a { put_odd(x, out, ctr, odd, mode); } }
        RV::M(m) => { for (k, x) in m { put_odd(k, out, ctr, odd, mode); put_odd(x, out, ctr, odd, mode); } }
        RV::G(_, x) => put_odd(x, out, ctr, odd, mode),
        _ => {}
    }
}
harness!(h_struct, {
    let e = gen();
    let odd = sx::choose(sx::param(5, 3) as u8) as u32; let mode = sx::choose(sx::param(6, 11) as u8);
    let mut d = Vec::with_capacity(64); let mut ctr = 0;
    put_odd(&e, &mut d, &mut ctr, odd, mode);
    sx::assume(ctr > odd);
    match sx::choose(3) { 0 => {} 1 => { d.pop(); } _ => d.push(sx::u8()) }
    // Param 7: a nesting limit, none or any (including one that the value just meets or just exceeds).
    let lim = if sx::param(7, 0) == 0 { Some(64) } else if sx::choose(2) == 0 { None } else { Some(sx::u8() as i8) };
    let l32 = lim.map(|x| x as i32);
    match (reader::read_nested(&d, lim), rm::decode(&d, true, l32)) {
        (Ok(v), Some((r, n))) => { sx::check(n == d.len(), 1); sx::check(rm::same(&v, &r), 2); let mut o = Vec::new(); sx::check(writer::write_nested(v, &mut o, lim).is_ok(), 3); sx::check(o == d, 4); sx::reach(1); }
        (Ok(_), None) => sx::check(false, 5),
        (Err(_), Some((_, n))) => { sx::check(n != d.len(), 6); sx::reach(2) }
        (Err(_), None) => sx::reach(3),
    }
    match (reader::read_nested_non_strict(&d, lim), rm::decode(&d, false, l32)) {
        (Ok(v), Some((r, _))) => { sx::check(rm::same(&v, &r), 7); sx::reach(4) }
        (Ok(_), None) => sx::check(false, 8),
        (Err(_), Some(_)) => sx::check(false, 9),
        (Err(_), None) => sx::reach(5),
    }
});

// Heads of every kind, width and many arguments in front of (or after) long symbolic-ended content, at the top or inside an
// array: both readers against the reference. Covers decisions that depend on how much input remains.
harness!(h_longheads, {
    let args = [0u64, 1, 2, 3, 22, 23, 24, 25, 31, 32, 33, 39, 40, 41, 63, 64, 127, 128, 255, 256, 257, 65535, 65536, 0x7fff_ffff, 0xffff_ffff, 1 << 32, 1 << 63, u64::MAX];
    let major = sx::choose(8); let width = sx::choose(5); let arg = args[sx::choose(args.len() as u8) as usize];
    let room = sx::param(0, 40) as usize;
    let nb = if width == 0 { 0 } else { 1usize << (width - 1) };
    sx::assume(match nb { 0 => arg < 24, 1 => arg < 1 << 8, 2 => arg < 1 << 16, 4 => arg < 1 << 32, _ => true });
    let mut d = Vec::with_capacity(room + 80);
    let place = sx::choose(4);
    let pad = |d: &mut Vec<u8>| { d.push(0x58); d.push(room as u8); for _ in 0..room { d.push(0); } };
    match place { 1 => { d.push(0x82); } 2 => { d.push(0x82); pad(&mut d); } 3 => { d.push(0xa1); } _ => {} }
    d.push((major << 5) | if nb == 0 { arg as u8 } else { 23 + width });
    for i in (0..nb).rev() { d.push((arg >> (8 * i)) as u8); }
    // Content: as much as announced, one less or one more (up to `room`), all of it one symbolic value.
    let unit = if major == 5 { 2 } else { 1 };
    let want = if major < 2 || major == 7 { 0 } else if major == 6 { 1 } else { let a = (arg as u128) * unit; if a > room as u128 { room } else { a as usize } };
    let have = match sx::choose(3) { 0 => want, 1 => want.saturating_sub(1), _ => want + 1 };
    let b = sx::u8(); sx::assume(b < 24 || b >= 0xf4);
    for i in 0..have { d.push(if major == 5 && i % 2 == 0 { i as u8 / 2 } else { b }); }
    match place { 1 => pad(&mut d), 3 => pad(&mut d), _ => {} }
    match (reader::read_nested(&d, Some(64)), rm::decode(&d, true, Some(64))) {
        (Ok(v), Some((r, n))) => { sx::check(n == d.len(), 1); sx::check(rm::same(&v, &r), 2); let mut o = Vec::new(); sx::check(writer::write(v, &mut o).is_ok(), 3); sx::check(o == d, 4); sx::reach(1); }
        (Ok(_), None) => sx::check(false, 5),
        (Err(_), Some((_, n))) => { sx::check(n != d.len(), 6); sx::reach(2) }
        (Err(_), None) => sx::reach(3),
    }
    match (reader::read_nested_non_strict(&d, Some(64)), rm::decode(&d, false, Some(64))) {
        (Ok(v), Some((r, _))) => { sx::check(rm::same(&v, &r), 7); sx::reach(4) }
        (Ok(_), None) => sx::check(false, 8),
        (Err(_), Some(_)) => sx::check(false, 9),
        (Err(_), None) => sx::reach(5),
    }
});

// Order of values = bytewise order of their encodings; equality and order agree.
harness!(h_order, {
    let (a, b) = (gen(), gen());
    let (mut ea, mut eb) = (Vec::new(), Vec::new());
    rm::encode_raw(&a, &mut ea); rm::encode_raw(&b, &mut eb);
    let (va, vb) = (rm::to_value(&a), rm::to_value(&b));
    let less = rm::lex_less(&ea, &eb); let greater = rm::lex_less(&eb, &ea);
    let c = va.cmp(&vb);
    sx::check((c == std::cmp::Ordering::Less) == less, 1);
    sx::check((c == std::cmp::Ordering::Greater) == greater, 2);
    sx::check((va == vb) == (!less && !greater), 3);
    sx::check(va.partial_cmp(&vb) == Some(c), 4);
    sx::check(vb.cmp(&va) == c.reverse(), 5);
    sx::check((va < vb) == less && (va <= vb) == !greater && (va != vb) == (less || greater), 6);
    if less { sx::reach(1) } else if greater { sx::reach(2) } else { sx::reach(3) }
});

// Containers of the same kind with up to n items on either side: which item decides.
harness!(h_order_items, {
    let max = sx::param(0, 3) as u8; let kind = sx::choose(sx::param(1, 3) as u8);
    let leaf = || { let b = sx::u8(); sx::assume(b < 24 || b >= 0xfe); RV::U(b as u64) };
    let side = || {
        let n = sx::choose(max + 1);
        match kind {
            0 => RV::A((0..n).map(|_| leaf()).collect()),
            1 => RV::M((0..n).map(|_| (leaf(), leaf())).collect()),
            _ => RV::M((0..n).map(|i| if i % 2 == 0 { (RV::A(vec![leaf()]), leaf()) } else { (leaf(), RV::G(1, Box::new(leaf()))) }).collect()),
        }
    };
    let (a, b) = (side(), side());
    let (mut ea, mut eb) = (Vec::new(), Vec::new());
    rm::encode_raw(&a, &mut ea); rm::encode_raw(&b, &mut eb);
    let (less, greater) = (rm::lex_less(&ea, &eb), rm::lex_less(&eb, &ea));
    let (va, vb) = (rm::to_value(&a), rm::to_value(&b));
    let c = va.cmp(&vb);
    sx::check((c == std::cmp::Ordering::Less) == less && (c == std::cmp::Ordering::Greater) == greater, 1);
    sx::check((va == vb) == (!less && !greater) && (va < vb) == less && (va >= vb) == !less, 2);
    if less { sx::reach(1) } else if greater { sx::reach(2) } else { sx::reach(3) }
});

// Transitivity of the order, without the reference model.
harness!(h_order3, {
    let (a, b, c) = (rm::to_value(&gen()), rm::to_value(&gen()), rm::to_value(&gen()));
    if a <= b && b <= c { sx::check(a <= c, 1); sx::reach(1); if a == b && b == c { sx::check(a == c, 2); sx::reach(2); } }
});

// A map with n symbolic keys in two different insertion orders: same bytes, keys strictly ascending, duplicates refused.
harness!(h_mapperm, {
    let n = sx::param(5, 3) as usize;
    let mut es: Vec<(RV, RV)> = Vec::new();
    for i in 0..n { let k = gen(); es.push((k, RV::U(i as u64))); }
    let fwd: Vec<(Value, Value)> = es.iter().map(|(k, v)| (rm::to_value(k), rm::to_value(v))).collect();
    let mut order: Vec<usize> = (0..n).collect();
    for i in 0..n.saturating_sub(1) { let j = i + sx::choose((n - i) as u8) as usize; order.swap(i, j); }
    let perm: Vec<(Value, Value)> = order.iter().map(|i| (rm::to_value(&es[*i].0), rm::to_value(&es[*i].1))).collect();
    let (mut o1, mut o2, mut want) = (Vec::new(), Vec::new(), Vec::new());
    let r1 = writer::write(Value::Map(fwd), &mut o1); let r2 = writer::write(Value::Map(perm), &mut o2);
    let ok = rm::encode(&RV::M(es), &mut want);
    sx::check(r1.is_ok() == ok && r2.is_ok() == ok, 1);
    if ok { sx::reach(1); sx::check(o1 == o2, 2); sx::check(o1 == want, 3); sx::check(reader::read(&o1).is_ok(), 4); }
    else { sx::reach(2); sx::check(r1 == Err(writer::EncoderError::DuplicateMapKey), 5); }
});

// Map keys that are themselves maps (directly or inside an array, a tag or another map), given in any entry order.
harness!(h_nestedkeys, {
    let small = || { let b = sx::u8(); sx::assume(b < 24); RV::U(b as u64) };
    let mut es = Vec::new();
    for i in 0..2u64 {
        let mut inner = vec![(small(), small())];
        if sx::choose(2) == 1 { inner.push((small(), small())); }
        let m = RV::M(inner);
        let k = match sx::choose(5) { 0 => m, 1 => RV::A(vec![m]), 2 => RV::G(1, Box::new(m)), 3 => RV::M(vec![(m, RV::U(0))]), _ => RV::M(vec![(RV::U(0), m)]) };
        es.push((k, RV::U(i)));
    }
    let e = RV::M(es);
    let (mut out, mut want) = (Vec::new(), Vec::new());
    let w = writer::write(rm::to_value(&e), &mut out);
    let ok = rm::encode(&e, &mut want);
    sx::check(w.is_ok() == ok, 1);
    if ok { sx::reach(1); sx::check(out == want, 2); sx::check(reader::read(&out).is_ok(), 3); } else { sx::reach(2); sx::check(w == Err(writer::EncoderError::DuplicateMapKey), 4); }
});

// Maps whose keys are containers of up to n items, in either entry order: same bytes as the reference, duplicates refused.
// The symbolic leaf is at one position of each key so that any of the items may decide.
harness!(h_keyitems, {
    let max = sx::param(0, 3) as u8; let kind = sx::choose(sx::param(1, 5) as u8);
    let leaf = || { let b = sx::u8(); sx::assume(b < 3 || b == 23 || b == 24 || b == 255); match sx::choose(2) { 0 => RV::U(b as u64), _ => RV::N(b as u64) } };
    let key = || {
        let n = sx::choose(max + 1); let at = sx::choose(n);
        let item = |i: u8| if i == at { leaf() } else { RV::U(1) };
        match kind {
            0 => RV::A((0..n).map(item).collect()),
            1 => RV::M((0..n).map(|i| (RV::U(5 + i as u64), item(i))).collect()),
            2 => RV::M((0..n).map(|i| (RV::A(vec![RV::U(9 - i as u64), item(i)]), RV::U(0))).collect()),
            3 => RV::G(1, Box::new(RV::A((0..n).map(item).collect()))),
            _ => RV::A(vec![RV::A((0..n).map(item).collect()), RV::T(vec![b'x'])]),
        }
    };
    let (a, b) = (key(), key());
    let fwd = RV::M(vec![(a.clone(), RV::U(1)), (b.clone(), RV::U(2))]); let back = RV::M(vec![(b, RV::U(2)), (a, RV::U(1))]);
    let (mut o1, mut o2, mut want) = (Vec::new(), Vec::new(), Vec::new());
    let (r1, r2) = (writer::write(rm::to_value(&fwd), &mut o1), writer::write(rm::to_value(&back), &mut o2));
    let ok = rm::encode(&fwd, &mut want);
    sx::check(r1.is_ok() == ok && r2.is_ok() == ok, 1);
    if ok { sx::reach(1); sx::check(o1 == want, 2); sx::check(o2 == want, 3); sx::check(reader::read(&o1).is_ok(), 4); } else { sx::reach(2); }
});

// Long strings, arrays and maps around every length-encoding threshold.
harness!(h_lengths, {
    let lens = [0usize, 1, 23, 24, 25, 255, 256, 257, 65535, 65536, 65537];
    let (lo, hi) = (sx::param(0, 0) as usize, sx::param(1, 7) as usize);
    let n = lens[lo + sx::choose((hi - lo + 1) as u8) as usize];
    let kind = sx::param(3, 0) as u8 + sx::choose(sx::param(2, 4) as u8);
    let b = sx::u8(); let ascii = b & 0x7f;
    let v = match kind {
        0 => { let mut s = vec![0x41u8; n]; if n > 0 { s[n - 1] = b; s[n / 2] = b; } Value::ByteString(s) }
        1 => { let mut s = vec![0x41u8; n]; if n > 0 { s[n - 1] = ascii; } Value::TextString(String::from_utf8(s).unwrap()) }
        2 => { let mut s = Vec::with_capacity(n); for _ in 0..n { s.push(Value::Unsigned(3)); } if n > 0 { s[n - 1] = Value::Unsigned(b as u64); } Value::Array(s) }
        _ => { let mut s = Vec::with_capacity(n); for i in 0..n { s.push((Value::Unsigned((n - 1 - i) as u64), Value::Unsigned(3))); } if n > 0 { s[n - 1].1 = Value::Unsigned(b as u64); } Value::Map(s) }
    };
    let mut head = Vec::new(); head_ref(&mut head, 2 + kind, n as u64);
    let mut out = Vec::new();
    sx::check(writer::write(v.clone(), &mut out).is_ok(), 1);
    sx::check(out.len() >= head.len() && out[..head.len()] == head[..], 2);
    if kind < 2 { sx::check(out.len() == head.len() + n, 3); }
    match reader::read(&out) {
        Ok(x) => { if kind == 3 { match &x { Value::Map(m) => { sx::check(m.len() == n, 4); if n > 0 { sx::check(m[0].1 == Value::Unsigned(b as u64) && m[n - 1].0 == Value::Unsigned((n - 1) as u64), 5); } } _ => sx::check(false, 6) } } else { sx::check(x == v, 7); }
            let mut o2 = Vec::new(); sx::check(writer::write(x, &mut o2).is_ok() && o2 == out, 8); sx::reach(1 + kind as u32); }
        Err(_) => sx::check(false, 9),
    }
    // One byte short and one byte long are refused.
    sx::check(reader::read(&out[..out.len() - 1]).is_err(), 10);
    out.push(0); sx::check(reader::read(&out).is_err(), 11);
});
fn head_ref(out: &mut Vec<u8>, major: u8, n: u64) { rm::put_header(out, major, n) }

// Every 64-bit argument in every kind of head.
harness!(h_heads, {
    let n = sx::u64();
    let kind = sx::choose(3);
    let (v, major) = match kind { 0 => (Value::Unsigned(n), 0), 1 => (Value::Negative(-1 - n as i128), 1), _ => (Value::Tag(n, Box::new(Value::Simple(SimpleValue::NullValue))), 6) };
    let mut want = Vec::new(); rm::put_header(&mut want, major, n); if kind == 2 { want.push(0xf6); }
    let mut out = Vec::new();
    sx::check(writer::write(v.clone(), &mut out).is_ok() && out == want, 1);
    match reader::read(&out) { Ok(x) => sx::check(x == v, 2), Err(_) => sx::check(false, 3) }
    // Any longer head for the same argument is refused by the strict reader and read as the same value otherwise.
    let width = sx::choose(4);
    let mut long = vec![(major << 5) | (24 + width)];
    let fits = match width { 0 => n <= 0xff, 1 => n <= 0xffff, 2 => n <= 0xffff_ffff, _ => true };
    sx::assume(fits);
    let nb = 1usize << width; for i in (0..nb).rev() { long.push((n >> (8 * i)) as u8); }
    if kind == 2 { long.push(0xf6); }
    let minimal = match width { 0 => n >= 24, 1 => n > 0xff, 2 => n > 0xffff, _ => n > 0xffff_ffff };
    sx::check(reader::read(&long).is_ok() == minimal, 4);
    match reader::read_nested_non_strict(&long, None) { Ok(x) => sx::check(x == v, 5), Err(_) => sx::check(false, 6) }
    if minimal { sx::reach(1) } else { sx::reach(2) }
});

// Conversions into values.
harness!(h_convert, {
    let i = sx::u64() as i64;
    let want = if i >= 0 { Value::Unsigned(i as u64) } else { Value::Negative(i as i128) };
    sx::check(exact(&Value::integer(i), &want) && exact(&Value::from(i), &want) && exact(&oasis_cbor::cbor_int!(i), &want), 1);
    let j = i as i32; let wj = if j >= 0 { Value::Unsigned(j as u64) } else { Value::Negative(j as i128) };
    sx::check(exact(&Value::from(j), &wj), 2);
    let u = sx::u64();
    sx::check(exact(&Value::from(u), &Value::Unsigned(u)) && exact(&oasis_cbor::cbor_unsigned!(u), &Value::Unsigned(u)), 3);
    let b = sx::bool();
    let bs = Value::Simple(if b { SimpleValue::TrueValue } else { SimpleValue::FalseValue });
    sx::check(exact(&Value::from(b), &bs) && exact(&Value::bool_value(b), &bs) && exact(&oasis_cbor::cbor_bool!(b), &bs), 4);
    match SimpleValue::from_integer(u) { Some(s) => { sx::reach(1); sx::check(u >= 20 && u <= 23 && s as u64 == u, 5) } None => { sx::reach(2); sx::check(u < 20 || u > 23, 6) } }
    let v = Value::Array(vec![]);
    sx::check(v.type_label() == 4 && Value::Unsigned(u).type_label() == 0 && bs.type_label() == 7 && Value::Tag(u, Box::new(v)).type_label() == 6, 7);
    let by = [sx::u8(), sx::u8()];
    sx::check(exact(&Value::from(&by[..]), &Value::ByteString(by.to_vec())) && exact(&Value::from(by.to_vec()), &Value::ByteString(by.to_vec())), 8);
    sx::assume(by[0] < 0x80 && by[1] < 0x80); let st = std::str::from_utf8(&by).unwrap();
    sx::check(exact(&Value::from(st), &Value::TextString(st.to_string())) && exact(&Value::from(st.to_string()), &Value::TextString(st.to_string())) && exact(&oasis_cbor::cbor_text!(st), &Value::TextString(st.to_string())), 9);
});
/// Structural equality that does not use the crate's own comparison.
pub fn exact(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Unsigned(x), Value::Unsigned(y)) => x == y,
        (Value::Negative(x), Value::Negative(y)) => x == y,
        (Value::ByteString(x), Value::ByteString(y)) => x[..] == y[..],
        (Value::TextString(x), Value::TextString(y)) => x.as_bytes() == y.as_bytes(),
        (Value::Array(x), Value::Array(y)) => { if x.len() != y.len() { return false; } for i in 0..x.len() { if !exact(&x[i], &y[i]) { return false; } } true }
        (Value::Map(x), Value::Map(y)) => { if x.len() != y.len() { return false; } for i in 0..x.len() { if !exact(&x[i].0, &y[i].0) || !exact(&x[i].1, &y[i].1) { return false; } } true }
        (Value::Tag(s, x), Value::Tag(t, y)) => s == t && exact(x, y),
        (Value::Simple(x), Value::Simple(y)) => x.clone() as u8 == y.clone() as u8,
        _ => false,
    }
}

// Taking fields out of a map with strictly ascending keys gives exactly the values stored under those keys.
harness!(h_destructure, {
    let n = sx::choose(sx::param(0, 3) as u8 + 1) as usize;
    let mut m: Vec<(Value, Value)> = Vec::new(); let mut ks: Vec<(bool, u64)> = Vec::new();
    for i in 0..n {
        let (neg, k) = (sx::bool(), sx::u64());
        if i > 0 { let (pn, pk) = ks[i - 1]; sx::assume((pn == neg && pk < k) || (!pn && neg)); }
        ks.push((neg, k)); m.push((if neg { Value::Negative(-1 - k as i128) } else { Value::Unsigned(k) }, Value::Unsigned(100 + i as u64)));
    }
    let (a, b) = (sx::u64() >> 1, sx::u64() >> 1); sx::assume(a < b);
    let c = sx::u8() as i64;
    let m2 = m.clone();
    oasis_cbor::destructure_cbor_map! { let { a => x, b => y, -1 - c => z, } = m2; }
    let find = |neg: bool, k: u64| { let mut r = None; for i in 0..n { if ks[i].0 == neg && ks[i].1 == k { r = Some(Value::Unsigned(100 + i as u64)); } } r };
    sx::check(x == find(false, a), 1); sx::check(y == find(false, b), 2); sx::check(z == find(true, c as u64), 3);
    if x.is_some() { sx::reach(1) } if y.is_some() { sx::reach(2) } if z.is_some() { sx::reach(3) } if x.is_none() { sx::reach(4) }
});

// The map-building macros keep every given pair; the option form leaves out exactly the absent ones.
harness!(h_mapmacros, {
    let (k, v) = (sx::u64(), sx::u64()); let o = if sx::bool() { Some(sx::u64()) } else { None };
    let m = oasis_cbor::cbor_map! { k => v, "a" => false, -3 => v };
    sx::check(exact(&m, &Value::Map(vec![(Value::Unsigned(k), Value::Unsigned(v)), (Value::TextString("a".into()), Value::Simple(SimpleValue::FalseValue)), (Value::Negative(-3), Value::Unsigned(v))])), 1);
    let m = oasis_cbor::cbor_map_options! { k => o, "a" => v };
    let mut w = Vec::new(); if let Some(x) = o { sx::reach(1); w.push((Value::Unsigned(k), Value::Unsigned(x))); } else { sx::reach(2); } w.push((Value::TextString("a".into()), Value::Unsigned(v)));
    sx::check(exact(&m, &Value::Map(w)), 2);
    sx::check(exact(&oasis_cbor::cbor_array![k, "x", false], &Value::Array(vec![Value::Unsigned(k), Value::TextString("x".into()), Value::Simple(SimpleValue::FalseValue)])), 3);
    sx::check(exact(&oasis_cbor::cbor_tagged!(k, Value::Unsigned(v)), &Value::Tag(k, Box::new(Value::Unsigned(v)))), 4);
});

// Every kind of operand in every position of the building macros: integers, booleans, text and byte strings (empty or not),
// and values, as keys, values, present or absent options, array items and tagged content.
harness!(h_macros, {
    fn txt(n: u8) -> String { String::from_utf8(rm::text(n as usize)).unwrap() }
    let (n, x, y) = (sx::choose(3), sx::u64(), sx::u8());
    let st = txt(n); let by: Vec<u8> = sx::bytes(n as usize); let b = sx::bool(); let i = x as i64; let j = x as i32;
    let any = rm::to_value(&{ let mut g = rm::Gen { nodes: 2, kinds: sx::param(1, 0xff) as u8, maxlen: 1, maxitems: 1 }; g.value(1) });
    let int = |i: i64| if i >= 0 { Value::Unsigned(i as u64) } else { Value::Negative(i as i128) };
    let (vt, vb, vi, vj, vbl) = (Value::TextString(st.clone()), Value::ByteString(by.clone()), int(i), int(j as i64), Value::Simple(if b { SimpleValue::TrueValue } else { SimpleValue::FalseValue }));
    let vy = Value::Unsigned(y as u64); let vx = Value::Unsigned(x);
    // keys
    let m = oasis_cbor::cbor_map! { st.clone() => y as u64, by.clone() => st.as_str(), i => &by[..], j => b, any.clone() => j, b => i, st.as_str() => any.clone(), &by[..] => any.clone(), y as u64 => y as i32 };
    sx::check(exact(&m, &Value::Map(vec![(vt.clone(), vy.clone()), (vb.clone(), vt.clone()), (vi.clone(), vb.clone()), (vj.clone(), vbl.clone()), (any.clone(), vj.clone()), (vbl.clone(), vi.clone()), (vt.clone(), any.clone()), (vb.clone(), any.clone()), (vy.clone(), vy.clone())])), 1);
    // options
    let on = sx::choose(3);
    let (o1, o2, o3, o4, o5, o6) = (if on == 1 { None } else { Some(st.as_str()) }, if on == 2 { None } else { Some(any.clone()) }, if on == 1 { Some(by.clone()) } else { None }, if on == 2 { Some(b) } else { None }, if on > 0 { Some(i) } else { None }, if on == 0 { Some(j) } else { None });
    let m = oasis_cbor::cbor_map_options! { any.clone() => o1, st.clone() => o2, by.clone() => any.clone(), i => o3, j => o4, b => st.clone(), y as u64 => o5, &by[..] => o6, st.as_str() => x };
    let mut w = Vec::new();
    if on != 1 { w.push((any.clone(), vt.clone())); } if on != 2 { w.push((vt.clone(), any.clone())); } w.push((vb.clone(), any.clone()));
    if on == 1 { w.push((vi.clone(), vb.clone())); } if on == 2 { w.push((vj.clone(), vbl.clone())); } w.push((vbl.clone(), vt.clone()));
    if on > 0 { w.push((vy.clone(), vi.clone())); } if on == 0 { w.push((vb.clone(), vj.clone())); } w.push((vt.clone(), vx.clone()));
    sx::check(exact(&m, &Value::Map(w)), 2);
    sx::check(exact(&oasis_cbor::cbor_map_options! { st.clone() => None::<u64>, y as u64 => None::<Value> }, &Value::Map(vec![])), 3);
    sx::check(exact(&oasis_cbor::cbor_map! {}, &Value::Map(vec![])) && exact(&oasis_cbor::cbor_map_options! {}, &Value::Map(vec![])) && exact(&oasis_cbor::cbor_array![], &Value::Array(vec![])), 4);
    // arrays, tags and single values
    sx::check(exact(&oasis_cbor::cbor_array![st.clone(), any.clone(), i, &by[..], b, x], &Value::Array(vec![vt.clone(), any.clone(), vi.clone(), vb.clone(), vbl.clone(), vx.clone()])), 5);
    sx::check(exact(&oasis_cbor::cbor_array_vec!(vec![any.clone(), vt.clone()]), &Value::Array(vec![any.clone(), vt.clone()])), 6);
    sx::check(exact(&oasis_cbor::cbor_tagged!(x, any.clone()), &Value::Tag(x, Box::new(any.clone()))), 7);
    sx::check(exact(&oasis_cbor::cbor_text!(st.clone()), &vt) && exact(&oasis_cbor::cbor_bytes!(by.clone()), &vb) && exact(&oasis_cbor::cbor_bytes_lit!(&by), &vb) && exact(&oasis_cbor::cbor_bool!(b), &vbl) && exact(&oasis_cbor::cbor_int!(i), &vi) && exact(&oasis_cbor::cbor_unsigned!(x), &vx), 8);
    sx::check(exact(&oasis_cbor::cbor_null!(), &Value::Simple(SimpleValue::NullValue)) && exact(&oasis_cbor::cbor_undefined!(), &Value::Simple(SimpleValue::Undefined)) && exact(&oasis_cbor::cbor_true!(), &Value::Simple(SimpleValue::TrueValue)) && exact(&oasis_cbor::cbor_false!(), &Value::Simple(SimpleValue::FalseValue)), 9);
    sx::reach(1 + on as u32);
});

// Reading arbitrary bytes allocates memory proportional to the input, whatever lengths it announces.
harness!(h_memory, {
    let d = input(4);
    let base = sx::heap_live();
    sx::heap_reset();
    let strict = sx::choose(2) == 0;
    let r = if strict { reader::read_nested(&d, Some(64)) } else { reader::read_nested_non_strict(&d, Some(64)) };
    let peak = sx::heap_peak() - base;
    sx::check(peak <= 512 + 1024 * d.len() as u64, 1);
    if r.is_ok() { sx::reach(1) } else { sx::reach(2) }
    drop(r);
    sx::check(sx::heap_live() == base, 2);
});

// Entry points agree with each other.
harness!(h_api, {
    let d = input(3);
    let a = oasis_cbor::from_slice::<Value>(&d);
    let b = reader::read_nested(&d, Some(64));
    sx::check(a.is_ok() == b.is_ok(), 1);
    // A top-level undefined is read as null (the default of a dynamic value).
    let nul = |v: &Value| match v { Value::Simple(SimpleValue::Undefined) => Value::Simple(SimpleValue::NullValue), v => v.clone() };
    if let (Ok(x), Ok(y)) = (&a, &b) { sx::reach(1); sx::check(exact(x, &nul(y)), 2);
        sx::check(oasis_cbor::to_vec(y.clone()) == d, 3);
        match oasis_cbor::from_value::<Value>(y.clone()) { Ok(z) => sx::check(exact(&z, &nul(y)), 4), Err(_) => sx::check(false, 5) }
        sx::check(exact(&oasis_cbor::to_value(y.clone()), y), 6);
    }
    let c = oasis_cbor::from_slice_non_strict::<Value>(&d);
    let e = reader::read_nested_non_strict(&d, Some(64));
    sx::check(c.is_ok() == e.is_ok(), 7);
    if let (Ok(x), Ok(y)) = (&c, &e) { sx::reach(2); sx::check(exact(x, &nul(y)), 8); } else { sx::reach(3); }
    // typed: a u64 and an optional
    let t = oasis_cbor::from_slice::<u64>(&d); let w = match reader::read_nested(&d, Some(64)) { Ok(v) => oasis_cbor::from_value::<u64>(v).ok(), Err(_) => None };
    sx::check(t.ok() == w, 9);
    let t = oasis_cbor::from_slice_non_strict::<u64>(&d); let w = match reader::read_nested_non_strict(&d, Some(64)) { Ok(v) => oasis_cbor::from_value::<u64>(v).ok(), Err(_) => None };
    sx::check(t.ok() == w, 10);
});

// Strings, arrays, maps and tags of every length class compared with each other: the order of their encodings decides.
harness!(h_order_long, {
    let lens = [0usize, 1, 2, 22, 23, 24, 25, 127, 128, 255, 256, 257, 300, 511, 512, 65535, 65536, 65792];
    let hi = sx::param(0, 15) as u8;
    let kind = sx::choose(4);
    let side = || {
        let n = lens[sx::choose(if kind < 2 { hi } else { 13 }) as usize];
        // One item differs from all others: the first, the middle or the last.
        let at = match sx::choose(4) { 0 => 0, 1 => n / 2, 2 => n.saturating_sub(1), _ => n };
        let b = if at < n { let b = sx::u8(); sx::assume(b == 0x40 || b == 0x42); b } else { 0x41 };
        match kind {
            0 => RV::B((0..n).map(|i| if i == at { b } else { 0x41 }).collect()), 1 => RV::T((0..n).map(|i| if i == at { b } else { 0x41 }).collect()),
            2 => RV::A((0..n).map(|i| RV::U(if i == at { b as u64 } else { 0x41 })).collect()),
            _ => RV::M((0..n).map(|i| (RV::U(i as u64), RV::U(if i == at { b as u64 } else { 0x41 }))).collect()),
        }
    };
    let place = |x: RV| match sx::param(1, 0) { 0 => x, 1 => RV::A(vec![x]), 2 => RV::G(7, Box::new(x)), _ => RV::M(vec![(x, RV::U(0))]) };
    let (a, b) = (place(side()), place(side()));
    let (mut ea, mut eb) = (Vec::new(), Vec::new());
    rm::encode_raw(&a, &mut ea); rm::encode_raw(&b, &mut eb);
    let (less, greater) = (rm::lex_less(&ea, &eb), rm::lex_less(&eb, &ea));
    let (va, vb) = (rm::to_value(&a), rm::to_value(&b));
    let c = va.cmp(&vb);
    sx::check((c == std::cmp::Ordering::Less) == less && (c == std::cmp::Ordering::Greater) == greater, 1);
    sx::check((va == vb) == (!less && !greater), 2);
    if less { sx::reach(1) } else if greater { sx::reach(2) } else { sx::reach(3) }
});

// Maps of several symbolic keys, decoded in the given order and encoded from it.
fn manykey(form: u8) -> RV {
    match form { 0 => { let b = sx::u8(); sx::assume(b < 24); RV::U(b as u64) } 1 => RV::N(sx::u8() as u64), 2 => { let b = sx::u8(); sx::assume(b < 0x80); RV::T(vec![b]) } _ => RV::A(vec![RV::U(sx::u8() as u64)]) }
}
fn map_both(r: &RV) {
    let mut d = Vec::with_capacity(256); rm::encode_raw(r, &mut d);
    match (reader::read(&d), rm::decode(&d, true, Some(64))) {
        (Ok(v), Some((e, n))) => { sx::check(n == d.len() && rm::same(&v, &e), 1); sx::reach(1); let mut o = Vec::new(); sx::check(writer::write(v, &mut o).is_ok() && o == d, 2); }
        (Err(_), None) => sx::reach(2), (Ok(_), None) => sx::check(false, 3), (Err(_), Some(_)) => sx::check(false, 4),
    }
    match reader::read_nested_non_strict(&d, Some(64)) { Ok(v) => sx::check(rm::same(&v, r), 5), Err(_) => sx::check(false, 6) }
    let (mut want, mut got) = (Vec::with_capacity(256), vec![0xEEu8]);
    let ok = rm::encode(r, &mut want);
    match writer::write(rm::to_value(r), &mut got) {
        Ok(()) => { sx::check(ok, 7); sx::check(got[0] == 0xEE && got[1..] == want[..], 8); sx::reach(3); }
        Err(_) => { sx::check(!ok, 9); sx::reach(4); }
    }
}
harness!(h_manykeys, {
    let n = 3 + sx::choose(sx::param(0, 4) as u8 - 2);
    let form = sx::choose(4);
    map_both(&RV::M((0..n).map(|i| { let f = if i == 1 { form } else { form / 2 }; (manykey(f), if form == 3 && n > 3 { RV::U(i as u64) } else { let v = sx::u8(); sx::assume(v < 2); RV::U(v as u64) }) }).collect()));
});
// Larger maps in several orders, with one symbolic key anywhere.
harness!(h_bigmaps, {
    let n = [5usize, 8, 9, 16, 17, 20, 21, 22, 23, 24, 25, 33, 40][sx::choose(sx::param(0, 13) as u8) as usize];
    let at = [0, 1, n / 2, n - 2, n - 1][sx::choose(5) as usize];
    let (order, form) = (sx::choose(5), sx::choose(3));
    let k = sx::u8(); sx::assume(k as usize <= n * 2 + 1);
    let key = |x: u8| match form { 0 => RV::U(x as u64), 1 => { sx::assume(x < 128); RV::T(vec![x]) } _ => RV::A(vec![RV::U(7), RV::N(x as u64)]) };
    let m = (0..n).map(|i| {
        // Keys 0, 2, 4, ... so that the symbolic one may fall between two of them.
        let p = match order { 0 => i, 1 => n - 1 - i, 2 => (i * 7 + 3) % n, 3 => i ^ 1, _ => (i + n / 2) % n };
        (key(if i == at { k } else { 2 * p as u8 }), RV::U(i as u64))
    }).collect();
    map_both(&RV::M(m));
});

// Deeply nested heads, each announcing far more than there is, in front of plain content.
harness!(h_memory_deep, {
    let depth = [1usize, 2, 8, 40, 62][sx::choose(5) as usize]; let fill = [0usize, 1, 100, sx::param(0, 400) as usize][sx::choose(4) as usize];
    let head: &[u8] = [&[0x9b, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff][..], &[0xbb, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0], &[0x99, 0xff, 0xff], &[0xb9, 0xff, 0xff, 0], &[0x98, 200, 0], &[0xb9, 0xff, 0xff]][sx::choose(6) as usize];
    let last = sx::u8();
    let mut d = Vec::with_capacity(2000);
    for _ in 0..depth { d.extend_from_slice(head); }
    for _ in 0..fill { d.push(last & 0x0f); }
    d.push(last);
    let base = sx::heap_live(); sx::heap_reset();
    let r = if sx::choose(2) == 0 { reader::read_nested(&d, Some(64)).is_ok() } else { reader::read_nested_non_strict(&d, Some(64)).is_ok() };
    sx::check(sx::heap_peak() - base <= 512 + 1024 * d.len() as u64, 1);
    sx::check(sx::heap_live() == base, 2);
    if r { sx::reach(2) } else { sx::reach(1) }
});

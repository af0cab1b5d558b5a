#![allow(dead_code)]
#![feature(min_specialization)]
#[macro_export]
macro_rules! harness {
    ($name:ident, $body:block) => {
        #[no_mangle]
        #[inline(never)]
        pub extern "C-unwind" fn $name() { $body }
    };
}
extern crate alloc;

mod refmodel;
mod sx;
mod model;
#[cfg(feature = "value")]
mod value_layer;
#[cfg(feature = "typed")]
mod typed;
#[cfg(any(feature = "derive", feature = "wrap", feature = "attrs", feature = "coll"))]
mod derived;
#[cfg(any(feature = "serdegrp", feature = "swrap"))]
mod serde_layer;

#[cfg(feature = "wrap")]
use derived::wrapped;
#[cfg(feature = "attrs")]
use derived::attrs;
#[cfg(feature = "coll")]
use derived::colls;
#[cfg(feature = "swrap")]
use serde_layer::swrapped;
type H = extern "C-unwind" fn();
macro_rules! list { ($($m:ident :: { $($h:ident),* $(,)? })*) => { &[$($((stringify!($h), $m::$h as H)),*),*] } }
#[cfg(feature = "value")]
#[used]
pub static HARNESSES: &[(&str, H)] = list! { value_layer::{ h_strict, h_rewrite, h_lenient, h_lenient_tail, h_limit, h_depth, h_depth_api, h_write, h_roundtrip, h_struct, h_longheads, h_order, h_order3, h_order_items, h_mapperm, h_nestedkeys, h_keyitems, h_lengths, h_heads, h_convert, h_destructure, h_mapmacros, h_macros, h_memory, h_api, h_order_long, h_manykeys, h_bigmaps, h_memory_deep } };
#[cfg(feature = "typed")]
#[used]
pub static HARNESSES: &[(&str, H)] = list! { typed::{ t_prim, t_coll, t_hash, t_prim_null, t_coll_null, t_hash_null, t_hash_any, t_prim_any, t_coll_any, t_prim_mut, t_coll_mut, t_hash_mut, t_prim_bytes, t_coll_bytes, t_prim_len, t_coll_len, t_long, t_determinism, t_narrow, t_u128, t_refs } };
#[cfg(feature = "derive")]
#[used]
pub static HARNESSES: &[(&str, H)] = list! { derived::{ d_struct, d_struct_null, d_struct_any, d_struct_mut, d_struct_bytes, d_withnot, d_subset, d_skip, d_skipif, d_enum, d_enum_null, d_enum_any, d_enum_mut, d_enum_bytes, d_untagged, d_asmap, d_depth } };
#[cfg(feature = "wrap")]
#[used]
pub static HARNESSES: &[(&str, H)] = list! { wrapped::{ d_wrap, d_wrap_null, d_wrap_mut, d_optdef, d_optdef_null, d_optdef_mut, d_optdef_known } };
#[cfg(feature = "attrs")]
#[used]
pub static HARNESSES: &[(&str, H)] = list! { attrs::{ a_attr, a_attr_null, a_attr_any, a_attr_mut, a_attr_len, a_subset } };
#[cfg(feature = "coll")]
#[used]
pub static HARNESSES: &[(&str, H)] = list! { colls::{ a_coll, a_coll_null, a_coll_mut, a_coll_len } };
#[cfg(feature = "swrap")]
#[used]
pub static HARNESSES: &[(&str, H)] = list! { swrapped::{ s_wrap, s_wrap_compat, s_wrap_mut } };
#[cfg(feature = "serdegrp")]
#[used]
pub static HARNESSES: &[(&str, H)] = list! { serde_layer::{ s_prim, s_comp, s_prim_any, s_comp_any, s_prim_mut, s_comp_mut, s_prim_bytes, s_comp_bytes, s_compat, s_compat_known, s_narrow, s_raw, s_refused, s_floats, s_long, s_pairs, s_buffered, s_depth, s_difffuzz, s_difffuzz_depth, s_api, s_api_depth } };

#[cfg(feature = "native")]
#[global_allocator]
static A: sx::Counting = sx::Counting;

#[cfg(not(feature = "native"))]
fn main() { println!("{}", HARNESSES.len()); }

/// Native replay: one line per run on stdin: `harness \t k=v,k=v \t inputs`; one result line each.
#[cfg(feature = "native")]
fn main() {
    use std::io::BufRead;
    use std::sync::atomic::Ordering::Relaxed;
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split('\t');
        let (name, params, inputs) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap_or(""));
        let h = match HARNESSES.iter().find(|h| h.0 == name) { Some(h) => h.1, None => { println!("R\tunknown\t\t0\t0"); continue; } };
        sx::CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.inputs = inputs.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            c.params = params.split(',').filter(|s| !s.is_empty()).map(|s| { let mut p = s.split('='); (p.next().unwrap().parse().unwrap(), p.next().unwrap().parse().unwrap()) }).collect();
            c.pos = 0; c.trace.clear(); c.reach = 0; c.failed = None;
        });
        sx::heap_reset();
        sx::LIMIT.store(1 << sx::param(92, 20), Relaxed);
        sx::ARMED.store(true, Relaxed);
        let r = std::panic::catch_unwind(|| h());
        sx::ARMED.store(false, Relaxed);
        let out = match &r { Ok(()) => "ok", Err(e) => match e.downcast_ref::<sx::Stop>() { Some(s) => s.0, None => "panic" } };
        sx::CTX.with(|c| { let c = c.borrow(); println!("R\t{}\t{}\t{:x}\t{}", out, c.trace.iter().map(|v| format!("{:x}", v)).collect::<Vec<_>>().join(","), c.reach, c.failed.unwrap_or(0)); });
    }
}

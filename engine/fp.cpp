// IEEE-754 conversions and comparisons (f32, f64) as bit-vector expressions; round to nearest, ties to even.
#include "expr.h"
#include "fp.h"
static ExprId K(u128 v, unsigned w) { return mkConst(v, w); }
static ExprId And(ExprId a, ExprId b) { return mkBin(E_AND, a, b); }
static ExprId Or(ExprId a, ExprId b) { return mkBin(E_OR, a, b); }
static ExprId Bit(ExprId a, unsigned i) { return mkExtract(a, i, 1); }
static ExprId isZero(ExprId a) { return mkBin(E_EQ, a, K(0, N[a].w)); }
static unsigned mantBits(unsigned w) { return w == 32 ? 23 : 52; }
static unsigned bias(unsigned w) { return w == 32 ? 127 : 1023; }
static ExprId Z(ExprId a, unsigned w) { return N[a].w == w ? a : mkZext(a, w); }
// Shifts x left until its top bit is set; lz (16 bits) becomes the distance.
static ExprId normalise(ExprId x, ExprId &lz) {
  unsigned w = N[x].w; lz = K(0, 16);
  for (int k = 6; k >= 0; k--) {
    unsigned s = 1u << k; if (s >= w) continue;
    ExprId z = isZero(mkExtract(x, w - s, s));
    x = mkIte(z, mkBin(E_SHL, x, K(s, w)), x); lz = mkIte(z, mkBin(E_ADD, lz, K(s, 16)), lz);
  }
  return x;
}
static ExprId intToFloat(ExprId x, bool sg, unsigned tw) {
  unsigned m = mantBits(tw), w = N[x].w;
  ExprId neg = sg ? Bit(x, w - 1) : K(0, 1), mag = sg ? mkIte(neg, mkBin(E_SUB, K(0, w), x), x) : x;
  unsigned W = w < m + 4 ? m + 4 : w; mag = Z(mag, W);
  ExprId lz, n = normalise(mag, lz);
  ExprId sig = mkExtract(n, W - m - 1, m + 1), guard = Bit(n, W - m - 2), sticky = mkNot(isZero(mkExtract(n, 0, W - m - 2)));
  ExprId up = And(guard, Or(sticky, Bit(sig, 0)));
  ExprId e = mkBin(E_SUB, K(bias(tw) + W - 2, 16), lz); // one less: the hidden bit adds it back
  ExprId p = mkBin(E_ADD, mkBin(E_ADD, mkBin(E_SHL, Z(e, tw), K(m, tw)), Z(sig, tw)), Z(up, tw));
  p = mkIte(isZero(mag), K(0, tw), p);
  return Or(p, mkBin(E_SHL, Z(neg, tw), K(tw - 1, tw)));
}
static ExprId extend(ExprId x) { // f32 to f64
  ExprId s = Bit(x, 31), e = mkExtract(x, 23, 8), f = mkExtract(x, 0, 23), lz, n = normalise(f, lz);
  ExprId normal = Or(mkBin(E_SHL, Z(mkBin(E_ADD, Z(e, 16), K(1023 - 127, 16)), 64), K(52, 64)), mkBin(E_SHL, Z(f, 64), K(29, 64)));
  ExprId sub = Or(mkBin(E_SHL, Z(mkBin(E_SUB, K(1023 - 127, 16), lz), 64), K(52, 64)), mkBin(E_SHL, Z(mkExtract(n, 0, 22), 64), K(30, 64)));
  ExprId inf = K((u128)0x7ff << 52, 64), nan = Or(Or(inf, K((u128)1 << 51, 64)), mkBin(E_SHL, Z(f, 64), K(29, 64)));
  ExprId f0 = isZero(f), r = mkIte(isZero(e), mkIte(f0, K(0, 64), sub), mkIte(mkBin(E_EQ, e, K(255, 8)), mkIte(f0, inf, nan), normal));
  return Or(r, mkBin(E_SHL, Z(s, 64), K(63, 64)));
}
static ExprId narrow(ExprId x) { // f64 to f32
  ExprId s = Bit(x, 63), e = Z(mkExtract(x, 52, 11), 16), f = mkExtract(x, 0, 52), f0 = isZero(f);
  ExprId sig = mkConcat(K(1, 12), f), small = mkBin(E_ULT, e, K(897, 16)); // below the smallest normal f32
  ExprId extra = mkIte(small, mkBin(E_SUB, K(897, 16), e), K(0, 16)); extra = mkIte(mkBin(E_ULT, K(26, 16), extra), K(26, 16), extra);
  ExprId sh = Z(mkBin(E_ADD, extra, K(29, 16)), 64);
  ExprId q = mkBin(E_LSHR, sig, sh), rest = And(sig, mkBin(E_SUB, mkBin(E_SHL, K(1, 64), sh), K(1, 64))), half = mkBin(E_SHL, K(1, 64), mkBin(E_SUB, sh, K(1, 64)));
  ExprId up = Or(mkBin(E_ULT, half, rest), And(mkBin(E_EQ, half, rest), Bit(q, 0)));
  ExprId base = mkIte(small, K(0, 32), mkBin(E_SHL, Z(mkBin(E_SUB, e, K(897, 16)), 32), K(23, 32)));
  ExprId r = mkBin(E_ADD, mkBin(E_ADD, base, mkExtract(q, 0, 32)), Z(up, 32)), inf = K(0x7f800000u, 32);
  r = mkIte(isZero(e), K(0, 32), mkIte(mkBin(E_ULT, K(1150, 16), e), inf, r));
  r = mkIte(mkBin(E_EQ, e, K(2047, 16)), mkIte(f0, inf, Or(Or(inf, K(1u << 22, 32)), Z(mkExtract(f, 29, 23), 32))), r);
  return Or(r, mkBin(E_SHL, Z(s, 32), K(31, 32)));
}
// Saturating, NaN becomes 0 (as in Rust); out of range is poison for the plain LLVM instructions, so any value will do.
static ExprId floatToInt(ExprId x, bool sg, unsigned tw) {
  unsigned fw = N[x].w, m = mantBits(fw), ew = fw - 1 - m;
  ExprId s = Bit(x, fw - 1), e = Z(mkExtract(x, m, ew), 16), f = mkExtract(x, 0, m), W = 0; (void)W;
  ExprId sig = mkConcat(K(1, 128 - m), f), b = K(bias(fw), 16);
  ExprId exp = mkBin(E_SUB, e, b);
  ExprId left = mkBin(E_SHL, sig, Z(mkBin(E_SUB, exp, K(m, 16)), 128)), right = mkBin(E_LSHR, sig, Z(mkBin(E_SUB, K(m, 16), exp), 128));
  ExprId mag = mkIte(mkBin(E_ULT, exp, K(m, 16)), right, left);
  unsigned lim = sg ? tw - 1 : tw; // values of 2^lim and up do not fit
  ExprId big = mkBin(E_ULT, K(lim - 1, 16), exp), nan = And(mkBin(E_EQ, e, K((1u << ew) - 1, 16)), mkNot(isZero(f)));
  ExprId v = mkExtract(mag, 0, tw), max = K(sg ? maskw(tw) >> 1 : maskw(tw), tw), min = K(sg ? (u128)1 << (tw - 1) : 0, tw);
  ExprId pos = mkIte(big, max, v), ng = sg ? mkIte(big, min, mkBin(E_SUB, K(0, tw), v)) : K(0, tw);
  return mkIte(Or(mkBin(E_ULT, e, b), nan), K(0, tw), mkIte(s, ng, pos));
}
// LLVM's predicate numbers: bit 0 equal, bit 1 greater, bit 2 less, bit 3 unordered.
static ExprId compare(unsigned pred, ExprId a, ExprId b) {
  unsigned w = N[a].w, m = mantBits(w); ExprId mk = K(maskw(w - 1), w), inf = K(maskw(w - 1 - m) << m, w);
  ExprId aa = And(a, mk), ab = And(b, mk), un = Or(mkBin(E_ULT, inf, aa), mkBin(E_ULT, inf, ab)), zz = isZero(Or(aa, ab));
  ExprId eq = Or(mkBin(E_EQ, a, b), zz), sa = Bit(a, w - 1), sb = Bit(b, w - 1);
  ExprId lt = And(mkNot(eq), mkIte(sa, mkIte(sb, mkBin(E_ULT, ab, aa), K(1, 1)), mkIte(sb, K(0, 1), mkBin(E_ULT, aa, ab))));
  ExprId gt = And(mkNot(eq), mkNot(lt)), o = K(0, 1);
  if (pred & 1) o = Or(o, eq); if (pred & 2) o = Or(o, gt); if (pred & 4) o = Or(o, lt);
  return mkIte(un, K(pred >> 3 & 1, 1), o);
}
ExprId fpOp(unsigned kind, unsigned sub, ExprId a, ExprId b, unsigned w) {
  switch (kind) {
  case FP_SI2F: return intToFloat(a, true, w); case FP_UI2F: return intToFloat(a, false, w);
  case FP_EXT: return extend(a); case FP_TRUNC: return narrow(a);
  case FP_F2SI: return floatToInt(a, true, w); case FP_F2UI: return floatToInt(a, false, w);
  case FP_CMP: return compare(sub, a, b);
  case FP_NEG: return mkBin(E_XOR, a, K((u128)1 << (w - 1), w)); default: return And(a, K(maskw(w - 1), w));
  }
}

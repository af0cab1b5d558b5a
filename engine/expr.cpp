#include "expr.h"
#include <cassert>
#include <cstdio>
#include <cstdlib>

std::vector<Node> N;
std::vector<Table> tables;
std::vector<VarInfo> varInfo;

static std::vector<u32> htab; // open addressing, stores expr id (0 = empty)
static u32 hmask;

static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
static u64 hashNode(EOp op, u8 w, ExprId a, ExprId b, ExprId c, u128 v) {
  u64 h = mix(op * 131 + w, a); h = mix(h, ((u64)b << 32) | c); h = mix(h, (u64)v); h = mix(h, (u64)(v >> 64)); return h;
}
void exprInit() {
  htab.assign(1 << 16, 0); hmask = (1 << 16) - 1;
  N.reserve(1 << 16);
  N.push_back(Node{}); // id 0 unused
}
static void rehash() {
  u32 n = (hmask + 1) * 2; hmask = n - 1; htab.assign(n, 0);
  for (u32 i = 1; i < N.size(); i++) {
    Node &x = N[i]; u64 h = hashNode(x.op, x.w, x.a, x.b, x.c, x.val) & hmask;
    while (htab[h]) h = (h + 1) & hmask;
    htab[h] = i;
  }
}
static ExprId intern(EOp op, unsigned w, ExprId a, ExprId b, ExprId c, u128 v) {
  u64 h = hashNode(op, w, a, b, c, v) & hmask;
  while (htab[h]) {
    Node &x = N[htab[h]];
    if (x.op == op && x.w == w && x.a == a && x.b == b && x.c == c && x.val == v) return htab[h];
    h = (h + 1) & hmask;
  }
  Node n; memset(&n, 0, sizeof n);
  n.op = op; n.w = w; n.a = a; n.b = b; n.c = c; n.val = v; n.sup = 0;
  switch (op) {
  case E_CONST: n.ctree = 1; break;
  case E_VAR: n.sup = (u128)1 << a; break;
  case E_EXTRACT: case E_ZEXT: case E_SEXT: case E_NOT: case E_TABLE: n.sup = N[a].sup; break;
  case E_ITE: {
    n.sup = N[a].sup | N[b].sup | N[c].sup;
    unsigned k = N[b].ctree && N[c].ctree ? N[b].ctree + N[c].ctree : 0;
    n.ctree = k <= 16 ? k : 0; break;
  }
  default: n.sup = N[a].sup | N[b].sup; break;
  }
  u32 id = N.size(); N.push_back(n); htab[h] = id;
  if (N.size() * 2 > hmask) rehash();
  return id;
}
ExprId mkConst(u128 v, unsigned w) { return intern(E_CONST, w, 0, 0, 0, v & maskw(w)); }
ExprId mkVar(unsigned idx, unsigned w) { return intern(E_VAR, w, idx, 0, 0, 0); }

u128 evalOp(EOp op, unsigned w, u128 a, u128 b) {
  u128 m = maskw(w);
  switch (op) {
  case E_ADD: return (a + b) & m;
  case E_SUB: return (a - b) & m;
  case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? a / b : m;
  case E_UREM: return b ? a % b : a;
  case E_SDIV: { i128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return (x < 0 ? 1 : m) & m; if (y == -1) return (0 - (u128)x) & m; return (u128)(x / y) & m; }
  case E_SREM: { i128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
  case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
  case E_ASHR: { i128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_SLT: return sextw(a, w) < sextw(b, w);
  default: abort();
  }
}

// Apply f(leaf) over a constant ite-tree.
template <class F> static ExprId mapTree(ExprId t, F f) {
  if (isConst(t)) return f(N[t].val);
  ExprId c = N[t].a, x = N[t].b, y = N[t].c;
  ExprId fx = mapTree(x, f), fy = mapTree(y, f);
  return mkIte(c, fx, fy);
}

ExprId mkNot(ExprId a) {
  Node x = N[a]; assert(x.w == 1);
  if (x.op == E_CONST) return mkConst(!x.val, 1);
  if (x.op == E_NOT) return x.a;
  return intern(E_NOT, 1, a, 0, 0, 0);
}

static bool isBoolOp(EOp op) { return op == E_EQ || op == E_ULT || op == E_SLT; }

ExprId mkBin(EOp op, ExprId a, ExprId b) {
  unsigned w = N[a].w;
  if (N[b].w != w) { fprintf(stderr, "mkBin width mismatch op %d %d %d\n", op, w, N[b].w); abort(); }
  unsigned rw = isBoolOp(op) ? 1 : w;
  bool ca = isConst(a), cb = isConst(b);
  if (ca && cb) return mkConst(evalOp(op, w, N[a].val, N[b].val), rw);
  // commutative: constant to the right, otherwise order by id
  if (op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ) {
    if (ca || (!cb && a > b)) { std::swap(a, b); std::swap(ca, cb); }
  }
  u128 m = maskw(w);
  u128 kb = cb ? N[b].val : 0, ka = ca ? N[a].val : 0;
  // width-1 special cases
  if (w == 1) {
    switch (op) {
    case E_ADD: case E_SUB: op = E_XOR; return mkBin(E_XOR, a, b);
    case E_MUL: return mkBin(E_AND, a, b);
    case E_XOR: if (cb) return kb ? mkNot(a) : a; if (a == b) return mkConst(0, 1); break;
    case E_EQ: if (cb) return kb ? a : mkNot(a); break;
    case E_ULT: return mkBin(E_AND, mkNot(a), b);
    case E_SLT: return mkBin(E_AND, a, mkNot(b));
    default: break;
    }
  }
  switch (op) {
  case E_ADD:
    if (cb && kb == 0) return a;
    if (cb && N[a].op == E_ADD && isConst(N[a].b)) return mkBin(E_ADD, N[a].a, mkConst(N[N[a].b].val + kb, w));
    // concat(A, 0_c) + zext(b)
    for (int sw = 0; sw < 2; sw++) {
      ExprId x = sw ? b : a, y = sw ? a : b;
      if (N[x].op == E_CONCAT && isConst(N[x].b) && N[N[x].b].val == 0 && N[y].op == E_ZEXT && N[N[y].a].w <= N[N[x].b].w)
        return mkConcat(N[x].a, mkZext(N[y].a, N[N[x].b].w));
    }
    break;
  case E_SUB:
    if (cb) return mkBin(E_ADD, a, mkConst((u128)0 - kb, w));
    if (a == b) return mkConst(0, w);
    break;
  case E_MUL:
    if (cb && kb == 0) return b;
    if (cb && kb == 1) return a;
    if (cb && (kb & (kb - 1)) == 0) { unsigned s = 0; while (!((kb >> s) & 1)) s++; return mkBin(E_SHL, a, mkConst(s, w)); }
    break;
  case E_UDIV:
    if (cb && kb == 1) return a;
    if (cb && kb && (kb & (kb - 1)) == 0) { unsigned s = 0; while (!((kb >> s) & 1)) s++; return mkBin(E_LSHR, a, mkConst(s, w)); }
    break;
  case E_UREM:
    if (cb && kb && (kb & (kb - 1)) == 0) return mkBin(E_AND, a, mkConst(kb - 1, w));
    break;
  case E_AND:
    if (a == b) return a;
    if (cb) {
      if (kb == 0) return b;
      if (kb == m) return a;
      if (N[a].op == E_AND && isConst(N[a].b)) return mkBin(E_AND, N[a].a, mkConst(N[N[a].b].val & kb, w));
      if (((kb + 1) & kb) == 0) { unsigned k = 0; while ((kb >> k) & 1) k++; return mkZext(mkExtract(a, 0, k), w); }
      if (N[a].op == E_ZEXT && N[N[a].a].w < w) {
        unsigned iw = N[N[a].a].w; return mkZext(mkBin(E_AND, N[a].a, mkConst(kb, iw)), w);
      }
    }
    if (w == 1) {
      if (N[a].op == E_NOT && N[a].a == b) return mkConst(0, 1);
      if (N[b].op == E_NOT && N[b].a == a) return mkConst(0, 1);
      // absorption with eq constants on the same expression: (x==c1)&(x==c2)
      if (N[a].op == E_EQ && N[b].op == E_EQ && N[a].a == N[b].a && isConst(N[a].b) && isConst(N[b].b)) return mkConst(0, 1);
    }
    break;
  case E_OR:
    if (a == b) return a;
    if (cb) { if (kb == 0) return a; if (kb == m) return b; }
    if (w == 1) {
      if (N[a].op == E_NOT && N[a].a == b) return mkConst(1, 1);
      if (N[b].op == E_NOT && N[b].a == a) return mkConst(1, 1);
      return mkNot(mkBin(E_AND, mkNot(a), mkNot(b)));
    }
    for (int sw = 0; sw < 2; sw++) {
      ExprId x = sw ? b : a, y = sw ? a : b;
      if (N[x].op == E_CONCAT && isConst(N[x].b) && N[N[x].b].val == 0) {
        unsigned lw = N[N[x].b].w;
        if (N[y].op == E_ZEXT && N[N[y].a].w <= lw) return mkConcat(N[x].a, mkZext(N[y].a, lw));
        if (isConst(y) && (N[y].val >> lw) == 0) return mkConcat(N[x].a, mkConst(N[y].val, lw));
        if (N[y].op == E_ZEXT || N[y].op == E_CONCAT)
          return mkConcat(mkBin(E_OR, N[x].a, mkExtract(y, lw, w - lw)), mkExtract(y, 0, lw));
      }
    }
    break;
  case E_XOR:
    if (a == b) return mkConst(0, w);
    if (cb && kb == 0) return a;
    if (cb && N[a].op == E_XOR && isConst(N[a].b)) return mkBin(E_XOR, N[a].a, mkConst(N[N[a].b].val ^ kb, w));
    break;
  case E_SHL:
    if (cb) {
      if (kb == 0) return a;
      if (kb >= w) return mkConst(0, w);
      unsigned s = (unsigned)kb; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
    }
    if (ca && ka == 0) return a;
    break;
  case E_LSHR:
    if (cb) {
      if (kb == 0) return a;
      if (kb >= w) return mkConst(0, w);
      unsigned s = (unsigned)kb; return mkZext(mkExtract(a, s, w - s), w);
    }
    if (ca && ka == 0) return a;
    break;
  case E_ASHR:
    if (cb) {
      if (kb == 0) return a;
      unsigned s = kb >= w ? w - 1 : (unsigned)kb; return mkSext(mkExtract(a, s, w - s), w);
    }
    break;
  case E_EQ:
    if (a == b) return mkConst(1, 1);
    if (cb) {
      Node x = N[a];
      if (x.op == E_ZEXT) { unsigned iw = N[x.a].w; if (kb >> iw) return mkConst(0, 1); return mkBin(E_EQ, x.a, mkConst(kb, iw)); }
      if (x.op == E_SEXT) { unsigned iw = N[x.a].w; if (((u128)sextw(kb, iw) & m) != kb) return mkConst(0, 1); return mkBin(E_EQ, x.a, mkConst(kb, iw)); }
      if (x.op == E_CONCAT) { unsigned lw = N[x.b].w; return mkBin(E_AND, mkBin(E_EQ, x.a, mkConst(kb >> lw, N[x.a].w)), mkBin(E_EQ, x.b, mkConst(kb, lw))); }
      if (x.op == E_ADD && isConst(x.b)) return mkBin(E_EQ, x.a, mkConst(kb - N[x.b].val, w));
      if (x.op == E_XOR && isConst(x.b)) return mkBin(E_EQ, x.a, mkConst(kb ^ N[x.b].val, w));
    } else {
      Node x = N[a], y = N[b];
      if (x.op == E_ZEXT && y.op == E_ZEXT) {
        unsigned wa = N[x.a].w, wb = N[y.a].w, wm = wa > wb ? wa : wb;
        if (wm < w) return mkBin(E_EQ, mkZext(x.a, wm), mkZext(y.a, wm));
      }
      if (x.op == E_CONCAT && y.op == E_CONCAT && N[x.b].w == N[y.b].w)
        return mkBin(E_AND, mkBin(E_EQ, x.a, y.a), mkBin(E_EQ, x.b, y.b));
      if (x.op == E_ADD && y.op == E_ADD && isConst(x.b) && isConst(y.b)) {
        if (x.a == y.a) return mkConst(N[x.b].val == N[y.b].val, 1);
        if (x.b == y.b) return mkBin(E_EQ, x.a, y.a);
      }
    }
    break;
  case E_ULT:
    if (a == b) return mkConst(0, 1);
    if (cb && kb == 0) return mkConst(0, 1);
    if (ca && ka == m) return mkConst(0, 1);
    if (cb && kb == 1) return mkBin(E_EQ, a, mkConst(0, w));
    if (ca && ka == 0) return mkNot(mkBin(E_EQ, b, a));
    if (cb && N[a].op == E_ZEXT) { unsigned iw = N[N[a].a].w; if (kb > maskw(iw)) return mkConst(1, 1); return mkBin(E_ULT, N[a].a, mkConst(kb, iw)); }
    if (ca && N[b].op == E_ZEXT) { unsigned iw = N[N[b].a].w; if (ka >= maskw(iw)) return mkConst(0, 1); return mkBin(E_ULT, mkConst(ka, iw), N[b].a); }
    if (N[a].op == E_ZEXT && N[b].op == E_ZEXT) {
      unsigned wa = N[N[a].a].w, wb = N[N[b].a].w, wm = wa > wb ? wa : wb;
      if (wm < w) return mkBin(E_ULT, mkZext(N[a].a, wm), mkZext(N[b].a, wm));
    }
    if (cb && N[a].op == E_CONCAT) { // concat(hi,lo) < k
      unsigned lw = N[N[a].b].w; u128 lo = kb & maskw(lw);
      if (lo == 0) return mkBin(E_ULT, N[a].a, mkConst(kb >> lw, N[N[a].a].w));
    }
    if (ca && N[b].op == E_CONCAT) { // k < concat(hi,lo)
      unsigned lw = N[N[b].b].w; u128 lo = ka & maskw(lw);
      if (lo == maskw(lw)) return mkBin(E_ULT, mkConst(ka >> lw, N[N[b].a].w), N[b].a);
    }
    break;
  case E_SLT:
    if (a == b) return mkConst(0, 1);
    if (N[a].op == E_ZEXT && N[N[a].a].w < w) {
      if (N[b].op == E_ZEXT && N[N[b].a].w < w) return mkBin(E_ULT, a, b);
      if (cb) { if ((kb >> (w - 1)) & 1) return mkConst(0, 1); return mkBin(E_ULT, a, b); }
    }
    if (N[b].op == E_ZEXT && N[N[b].a].w < w && ca) { if ((ka >> (w - 1)) & 1) return mkConst(1, 1); return mkBin(E_ULT, a, b); }
    if (N[a].op == E_SEXT && cb) {
      unsigned iw = N[N[a].a].w; i128 k = sextw(kb, w); i128 mx = (i128)(maskw(iw) >> 1), mn = -mx - 1;
      if (k > mx) return mkConst(1, 1); if (k <= mn) return mkConst(0, 1);
      return mkBin(E_SLT, N[a].a, mkConst((u128)k, iw));
    }
    if (N[b].op == E_SEXT && ca) {
      unsigned iw = N[N[b].a].w; i128 k = sextw(ka, w); i128 mx = (i128)(maskw(iw) >> 1), mn = -mx - 1;
      if (k >= mx) return mkConst(0, 1); if (k < mn) return mkConst(1, 1);
      return mkBin(E_SLT, mkConst((u128)k, iw), N[b].a);
    }
    if (cb && kb == 0) return mkExtract(a, w - 1, 1);
    break;
  default: break;
  }
  // push through constant ite-trees
  if (cb && N[a].op == E_ITE && N[a].ctree) return mapTree(a, [&](u128 v) { return mkConst(evalOp(op, w, v, kb), rw); });
  if (ca && N[b].op == E_ITE && N[b].ctree) return mapTree(b, [&](u128 v) { return mkConst(evalOp(op, w, ka, v), rw); });
  if (cb && N[a].op == E_ITE && (isConst(N[a].b) || isConst(N[a].c)) && (op == E_EQ)) {
    ExprId c = N[a].a, t = N[a].b, f = N[a].c; ExprId x = mkBin(op, t, b), y = mkBin(op, f, b); return mkIte(c, x, y);
  }
  return intern(op, rw, a, b, 0, 0);
}

ExprId mkIte(ExprId c, ExprId a, ExprId b) {
  if (isConst(c)) return N[c].val ? a : b;
  if (a == b) return a;
  if (N[c].op == E_NOT) { c = N[c].a; std::swap(a, b); }
  if (N[a].w == 1) {
    bool ca = isConst(a), cb = isConst(b);
    if (ca && cb) return N[a].val ? c : mkNot(c);
    if (ca) return N[a].val ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot(c), b);
    if (cb) return N[b].val ? mkBin(E_OR, mkNot(c), a) : mkBin(E_AND, c, a);
  }
  if (N[a].op == E_ITE && N[a].a == c) a = N[a].b;
  if (N[b].op == E_ITE && N[b].a == c) b = N[b].c;
  if (a == b) return a;
  return intern(E_ITE, N[a].w, c, a, b, 0);
}
ExprId mkExtract(ExprId a, unsigned lo, unsigned w) {
  Node x = N[a];
  if (lo + w > x.w || w == 0) { fprintf(stderr, "bad extract %u %u of %u\n", lo, w, x.w); abort(); }
  if (lo == 0 && w == x.w) return a;
  switch (x.op) {
  case E_CONST: return mkConst(x.val >> lo, w);
  case E_EXTRACT: return mkExtract(x.a, x.b + lo, w);
  case E_CONCAT: {
    unsigned lw = N[x.b].w;
    if (lo >= lw) return mkExtract(x.a, lo - lw, w);
    if (lo + w <= lw) return mkExtract(x.b, lo, w);
    return mkConcat(mkExtract(x.a, 0, lo + w - lw), mkExtract(x.b, lo, lw - lo));
  }
  case E_ZEXT: {
    unsigned iw = N[x.a].w;
    if (lo >= iw) return mkConst(0, w);
    if (lo + w <= iw) return mkExtract(x.a, lo, w);
    return mkZext(mkExtract(x.a, lo, iw - lo), w);
  }
  case E_SEXT: {
    unsigned iw = N[x.a].w;
    if (lo + w <= iw) return mkExtract(x.a, lo, w);
    if (lo < iw) return mkSext(mkExtract(x.a, lo, iw - lo), w);
    return mkSext(mkExtract(x.a, iw - 1, 1), w);
  }
  case E_AND: case E_OR: case E_XOR: return mkBin(x.op, mkExtract(x.a, lo, w), mkExtract(x.b, lo, w));
  case E_ADD: case E_SUB: case E_MUL: if (lo == 0) return mkBin(x.op, mkExtract(x.a, 0, w), mkExtract(x.b, 0, w)); break;
  case E_ITE:
    if (x.ctree) return mapTree(a, [&](u128 v) { return mkConst(v >> lo, w); });
    return mkIte(x.a, mkExtract(x.b, lo, w), mkExtract(x.c, lo, w));
  default: break;
  }
  return intern(E_EXTRACT, w, a, lo, 0, 0);
}
ExprId mkConcat(ExprId hi, ExprId lo) {
  unsigned w = N[hi].w + N[lo].w;
  if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isConst(hi) && isConst(lo)) return mkConst((N[hi].val << N[lo].w) | N[lo].val, w);
  if (isConst(hi) && N[hi].val == 0) return mkZext(lo, w);
  if (N[hi].op == E_EXTRACT && N[lo].op == E_EXTRACT && N[hi].a == N[lo].a && N[hi].b == N[lo].b + N[lo].w)
    return mkExtract(N[hi].a, N[lo].b, w);
  // concat(extract(x, k..), concat(extract(x, ..k), rest)) -> merge
  if (N[hi].op == E_EXTRACT && N[lo].op == E_CONCAT) {
    ExprId m = N[lo].a;
    if (N[m].op == E_EXTRACT && N[m].a == N[hi].a && N[hi].b == N[m].b + N[m].w)
      return mkConcat(mkExtract(N[hi].a, N[m].b, N[hi].w + N[m].w), N[lo].b);
  }
  if (N[hi].op == E_EXTRACT && N[hi].a == lo && N[hi].b == N[lo].w && N[lo].op != E_EXTRACT) { /* impossible widths */ }
  if (N[hi].op == E_ZEXT) return mkZext(mkConcat(N[hi].a, lo), w);
  // left-nest normalisation: concat(concat(a,b),c) -> concat(a, concat(b,c))
  if (N[hi].op == E_CONCAT) { ExprId a = N[hi].a, b = N[hi].b; return mkConcat(a, mkConcat(b, lo)); }
  // pieces of ite with the same condition
  if (N[hi].op == E_ITE && N[lo].op == E_ITE && N[hi].a == N[lo].a)
    return mkIte(N[hi].a, mkConcat(N[hi].b, N[lo].b), mkConcat(N[hi].c, N[lo].c));
  return intern(E_CONCAT, w, hi, lo, 0, 0);
}
ExprId mkZext(ExprId a, unsigned w) {
  Node x = N[a];
  if (x.w == w) return a;
  if (x.w > w) { fprintf(stderr, "bad zext\n"); abort(); }
  if (x.op == E_CONST) return mkConst(x.val, w);
  if (x.op == E_ZEXT) return mkZext(x.a, w);
  if (x.ctree && x.op == E_ITE) return mapTree(a, [&](u128 v) { return mkConst(v, w); });
  return intern(E_ZEXT, w, a, 0, 0, 0);
}
ExprId mkSext(ExprId a, unsigned w) {
  Node x = N[a];
  if (x.w == w) return a;
  if (x.op == E_CONST) return mkConst((u128)sextw(x.val, x.w), w);
  if (x.op == E_SEXT) return mkSext(x.a, w);
  if (x.op == E_ZEXT) return mkZext(x.a, w);
  if (x.ctree && x.op == E_ITE) { unsigned iw = x.w; return mapTree(a, [&](u128 v) { return mkConst((u128)sextw(v, iw), w); }); }
  if (x.w == 1) return mkIte(a, mkConst(~(u128)0, w), mkConst(0, w));
  return intern(E_SEXT, w, a, 0, 0, 0);
}
ExprId mkTable(u32 t, ExprId idx, unsigned w) {
  if (isConst(idx)) { u128 i = N[idx].val; return mkConst(i < tables[t].v.size() ? tables[t].v[(size_t)i] : 0, w); }
  return intern(E_TABLE, w, idx, t, 0, 0);
}

static std::vector<u32> evStamp; static std::vector<u128> evVal; static u32 evCur = 0;
static u128 evalRec(ExprId e, const Model &m) {
  Node &x = N[e];
  if (x.op == E_CONST) return x.val;
  if (x.op == E_VAR) return x.a < m.size() ? (m[x.a] & maskw(x.w)) : 0;
  if (evStamp[e] == evCur) return evVal[e];
  u128 r;
  switch (x.op) {
  case E_NOT: r = !evalRec(x.a, m); break;
  case E_ITE: r = evalRec(x.a, m) ? evalRec(x.b, m) : evalRec(x.c, m); break;
  case E_CONCAT: r = (evalRec(x.a, m) << N[x.b].w) | evalRec(x.b, m); break;
  case E_EXTRACT: r = (evalRec(x.a, m) >> x.b) & maskw(x.w); break;
  case E_ZEXT: r = evalRec(x.a, m); break;
  case E_SEXT: r = (u128)sextw(evalRec(x.a, m), N[x.a].w) & maskw(x.w); break;
  case E_TABLE: { u128 i = evalRec(x.a, m); r = i < tables[x.b].v.size() ? tables[x.b].v[(size_t)i] : 0; break; }
  case E_AND: if (x.w == 1) { r = evalRec(x.a, m) ? evalRec(x.b, m) : 0; break; }
  // fallthrough
  default: r = evalOp(x.op, N[x.a].w, evalRec(x.a, m), evalRec(x.b, m));
  }
  evStamp[e] = evCur; evVal[e] = r;
  return r;
}
u128 evalExpr(ExprId e, const Model &m) {
  Node &x = N[e];
  if (x.op == E_CONST) return x.val;
  if (evStamp.size() < N.size()) { evStamp.resize(N.size() + 4096, 0); evVal.resize(N.size() + 4096); }
  evCur++;
  return evalRec(e, m);
}

static std::unordered_map<ExprId, ExprId> sbMemo; static u64 sbHash = ~0ull;
static ExprId substRec(ExprId e, u128 fm, const Model &v) {
  Node x = N[e];
  if (!(x.sup & fm)) return e;
  if (x.op == E_VAR) return mkConst(v[x.a], x.w);
  if ((x.sup & ~fm) == 0) return mkConst(evalExpr(e, v), x.w);
  auto it = sbMemo.find(e); if (it != sbMemo.end()) return it->second;
  ExprId r;
  switch (x.op) {
  case E_NOT: r = mkNot(substRec(x.a, fm, v)); break;
  case E_ITE: {
    ExprId c = substRec(x.a, fm, v);
    if (isConst(c)) r = substRec(N[c].val ? x.b : x.c, fm, v);
    else { ExprId p = substRec(x.b, fm, v), q = substRec(x.c, fm, v); r = mkIte(c, p, q); }
    break;
  }
  case E_CONCAT: { ExprId p = substRec(x.a, fm, v), q = substRec(x.b, fm, v); r = mkConcat(p, q); break; }
  case E_EXTRACT: r = mkExtract(substRec(x.a, fm, v), x.b, x.w); break;
  case E_ZEXT: r = mkZext(substRec(x.a, fm, v), x.w); break;
  case E_SEXT: r = mkSext(substRec(x.a, fm, v), x.w); break;
  case E_TABLE: r = mkTable(x.b, substRec(x.a, fm, v), x.w); break;
  default: { ExprId p = substRec(x.a, fm, v), q = substRec(x.b, fm, v); r = mkBin(x.op, p, q); }
  }
  sbMemo[e] = r;
  return r;
}
ExprId substFixed(ExprId e, u128 fm, const Model &v, u64 h) {
  if (!(N[e].sup & fm)) return e;
  if (h != sbHash || sbMemo.size() > 200000) { sbMemo.clear(); sbHash = h; }
  return substRec(e, fm, v);
}

static std::unordered_map<ExprId, Bits256> ttMemo;
const Bits256 &truthTable(ExprId e, unsigned var) {
  auto it = ttMemo.find(e); if (it != ttMemo.end()) return it->second;
  Node x = N[e]; Bits256 r = Bits256::none();
  unsigned n = 1u << varInfo[var].w;
  if (x.op == E_NOT) { r = truthTable(x.a, var).inv(n); }
  else if (x.op == E_AND && x.w == 1 && N[x.a].sup && N[x.b].sup) { Bits256 p = truthTable(x.a, var); r = p & truthTable(x.b, var); }
  else {
    Model m(var + 1, 0);
    for (unsigned i = 0; i < n; i++) { m[var] = i; if (evalExpr(e, m)) r.set(i); }
  }
  return ttMemo[e] = r;
}
void valueTable(ExprId e, unsigned var, std::vector<u128> &out) {
  unsigned n = 1u << varInfo[var].w; out.resize(n); Model m(var + 1, 0);
  for (unsigned i = 0; i < n; i++) { m[var] = i; out[i] = evalExpr(e, m); }
}
static const char *opn[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","slt","not","ite","concat","extract","zext","sext","table"};
std::string exprStr(ExprId e, int d) {
  Node &x = N[e]; char b[96];
  if (x.op == E_CONST) { snprintf(b, sizeof b, "%llu:%u", (unsigned long long)x.val, x.w); return b; }
  if (x.op == E_VAR) { snprintf(b, sizeof b, "v%u:%u", x.a, x.w); return b; }
  if (d == 0) return "...";
  std::string s = std::string("(") + opn[x.op];
  if (x.op == E_EXTRACT) { snprintf(b, sizeof b, "[%u+%u]", x.b, x.w); return s + b + " " + exprStr(x.a, d - 1) + ")"; }
  if (x.op == E_TABLE) { snprintf(b, sizeof b, "#%u", x.b); return s + b + " " + exprStr(x.a, d - 1) + ")"; }
  s += " " + exprStr(x.a, d - 1);
  if (x.op == E_ZEXT || x.op == E_SEXT) { snprintf(b, sizeof b, " %u", x.w); return s + b + ")"; }
  if (x.b) s += " " + exprStr(x.b, d - 1);
  if (x.c) s += " " + exprStr(x.c, d - 1);
  return s + ")";
}

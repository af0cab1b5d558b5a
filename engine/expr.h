// Hash-consed bit-vector expression DAG (widths 1..128), constant folding, evaluation.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef u32 ExprId; // 0 = none (concrete)

enum EOp : u8 {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_SLT, E_NOT /*w=1*/, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_TABLE
};

static const int MAXVARS = 128;

struct Node {
  EOp op; u8 w; u8 ctree; // ctree: number of const leaves if this is an ite-tree of constants (<=16), else 0
  u8 pad;
  ExprId a, b, c;   // kids; E_EXTRACT: b=low bit; E_TABLE: b=table id; E_VAR: a=var index
  u128 val;         // E_CONST
  u128 sup;         // variable support mask
};

struct Bits256 {
  u64 q[4];
  bool get(unsigned i) const { return (q[i >> 6] >> (i & 63)) & 1; }
  void set(unsigned i) { q[i >> 6] |= 1ull << (i & 63); }
  void clr(unsigned i) { q[i >> 6] &= ~(1ull << (i & 63)); }
  bool empty() const { return !(q[0] | q[1] | q[2] | q[3]); }
  int count() const { return __builtin_popcountll(q[0]) + __builtin_popcountll(q[1]) + __builtin_popcountll(q[2]) + __builtin_popcountll(q[3]); }
  int first() const { for (int i = 0; i < 4; i++) if (q[i]) return i * 64 + __builtin_ctzll(q[i]); return -1; }
  Bits256 operator&(const Bits256 &o) const { Bits256 r; for (int i = 0; i < 4; i++) r.q[i] = q[i] & o.q[i]; return r; }
  Bits256 inv(unsigned n) const { Bits256 r; for (int i = 0; i < 4; i++) r.q[i] = ~q[i]; r.mask(n); return r; }
  void mask(unsigned n) { for (unsigned i = 0; i < 4; i++) { unsigned lo = i * 64; if (n <= lo) q[i] = 0; else if (n < lo + 64) q[i] &= (1ull << (n - lo)) - 1; } }
  bool operator==(const Bits256 &o) const { return !memcmp(q, o.q, sizeof q); }
  static Bits256 full(unsigned n) { Bits256 r; memset(r.q, 0xff, sizeof r.q); r.mask(n); return r; }
  static Bits256 none() { Bits256 r; memset(r.q, 0, sizeof r.q); return r; }
};

struct Table { std::vector<u128> v; u8 w; };

struct VarInfo { u8 w; };

typedef std::vector<u128> Model; // by var index (missing = 0)

extern std::vector<Node> N;
extern std::vector<Table> tables;
extern std::vector<VarInfo> varInfo; // global: var index -> width (fixed on first creation; see exec)

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m) - m); }

void exprInit();
ExprId mkConst(u128 v, unsigned w);
ExprId mkVar(unsigned idx, unsigned w);
ExprId mkBin(EOp op, ExprId a, ExprId b);
ExprId mkNot(ExprId a);
ExprId mkIte(ExprId c, ExprId a, ExprId b);
ExprId mkExtract(ExprId a, unsigned lo, unsigned w);
ExprId mkConcat(ExprId hi, ExprId lo);
ExprId mkZext(ExprId a, unsigned w);
ExprId mkSext(ExprId a, unsigned w);
ExprId mkTable(u32 table, ExprId idx, unsigned w);
static inline bool isConst(ExprId e) { return N[e].op == E_CONST; }
static inline ExprId mkUle(ExprId a, ExprId b) { return mkNot(mkBin(E_ULT, b, a)); }
static inline ExprId mkSle(ExprId a, ExprId b) { return mkNot(mkBin(E_SLT, b, a)); }

u128 evalOp(EOp op, unsigned w, u128 a, u128 b); // w = operand width
u128 evalExpr(ExprId e, const Model &m);
// substitute fixed variables (mask + model values)
ExprId substFixed(ExprId e, u128 fixedMask, const Model &vals, u64 fixedHash);
// truth table of a width-1 expression over a single variable of width <= 8
const Bits256 &truthTable(ExprId e, unsigned var);
// value table
void valueTable(ExprId e, unsigned var, std::vector<u128> &out);
std::string exprStr(ExprId e, int depth = 6);
static inline int supCount(u128 s) { return __builtin_popcountll((u64)s) + __builtin_popcountll((u64)(s >> 64)); }
static inline int supFirst(u128 s) { return (u64)s ? __builtin_ctzll((u64)s) : 64 + __builtin_ctzll((u64)(s >> 64)); }

// Forking symbolic executor over the flat program.
#include "prog.h"
#include "fp.h"
#include "solver.h"
#include <algorithm>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <math.h>
#include <sys/wait.h>
#include <unistd.h>
#include <llvm/Demangle/Demangle.h>

static u64 HUGE_ALLOC = 1ull << 20; // parameter 92 raises it (log2)
static u64 maxSteps = 20000000;
static u64 optVerbose = 0, optParanoid = 0;
static std::map<u32, u64> params;
static double timeBudget = 600;
static u64 maxViol = 40;

struct Val { u128 v; ExprId e; };

struct Obj { u32 rc; u8 kind; bool constant, freed; u64 size; std::vector<u8> b; std::vector<ExprId> s; };
struct Chunk { u32 rc; Obj *o[32]; };
struct Frame { u32 rc; Func *f; u32 pc; int32_t retDst; std::vector<Val> regs; std::vector<u32> allocas; const CallInfo *ci; };

static std::vector<Obj *> globalObjs;
static u32 nGlob;

static void objRel(Obj *o) { if (o && --o->rc == 0) delete o; }
static void chunkRel(Chunk *c) { if (c && --c->rc == 0) { for (auto *o : c->o) objRel(o); delete c; } }
static void frameRel(Frame *f) { if (--f->rc == 0) delete f; }

enum Outcome { O_OK, O_PANIC, O_ABORT, O_MEMERR, O_UNREACH, O_HANG, O_HUGE, O_ASSERT, O_DEADEND /*assume false*/, O_ENGINE };
static const char *outName[] = {"ok", "panic", "abort", "memerr", "unreachable", "hang", "hugealloc", "assert", "deadend", "engine"};

struct Obs { u64 tag; Val v; u8 w; };
struct Ev { bool added; };

struct State {
  std::vector<Frame *> fr; std::vector<Chunk *> chunks; u32 nextId;
  std::vector<ExprId> cons; std::vector<Bits256> dom; u128 small = 0; // vars with domains
  u128 inCons = 0; // vars mentioned in cons
  u128 fixed = 0; Model fixedVals; u64 fixedHash = 1; Model model;
  std::vector<u32> varIds; std::vector<u8> events; u32 nEvents = 0; u32 replayLeft = 0; std::vector<u8> replayEv; std::vector<u128> replayVals;
  std::vector<Obs> trace; u64 steps = 0; u64 live = 0, peak = 0; u64 reach = 0; u64 asserts = 0;
  State() {}
  State(const State &o) : fr(o.fr), chunks(o.chunks), nextId(o.nextId), cons(o.cons), dom(o.dom), small(o.small), inCons(o.inCons), fixed(o.fixed), fixedVals(o.fixedVals), fixedHash(o.fixedHash), model(o.model), varIds(o.varIds), events(o.events), nEvents(o.nEvents), replayLeft(0), trace(o.trace), steps(o.steps), live(o.live), peak(o.peak), reach(o.reach), asserts(o.asserts) {
    for (auto *f : fr) f->rc++; for (auto *c : chunks) if (c) c->rc++;
  }
  ~State() { for (auto *f : fr) frameRel(f); for (auto *c : chunks) chunkRel(c); }
};

struct Stats { u64 paths[10] = {0}; u64 forks = 0, steps = 0, symEvents = 0, infeasible = 0, concretised = 0, dead = 0, replays = 0; } ST;

struct PathEnd { Outcome o; std::string msg; };
[[noreturn]] static void endPath(Outcome o, const char *fmt, ...) { char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); throw PathEnd{o, b}; }

static State *S; // current
static Frame *F;
static std::vector<State *> work;

// ---------- variables ----------
static std::map<std::pair<u32, u8>, u32> varKey; // (ordinal,width) -> var id
static u32 newVar(u32 ord, u8 w) {
  auto it = varKey.find({ord, w}); if (it != varKey.end()) return it->second;
  u32 id = varInfo.size(); if (id >= (u32)MAXVARS) { fprintf(stderr, "too many symbolic variables\n"); endPath(O_ENGINE, "too many symbolic variables"); }
  varInfo.push_back({w}); varKey[{ord, w}] = id; return id;
}

// ---------- constraints ----------
static void addCons(State &st, ExprId c);
static void fixVar(State &st, unsigned v, u128 val) {
  if ((st.fixed >> v) & 1) return;
  st.fixed |= (u128)1 << v; if (st.fixedVals.size() <= v) st.fixedVals.resize(v + 1, 0); st.fixedVals[v] = val;
  st.fixedHash = (st.fixedHash * 0x9e3779b97f4a7c15ull) ^ ((u64)val * 0xff51afd7ed558ccdull) ^ ((u64)(v + 1) << 50) ^ (u64)(val >> 64);
  // order independence: recompute from scratch
  u64 h = 0; for (unsigned i = 0; i < st.fixedVals.size(); i++) if ((st.fixed >> i) & 1) { h = (h ^ ((u64)i + 1)) * 0x9e3779b97f4a7c15ull; h = (h ^ (u64)st.fixedVals[i]) * 0xff51afd7ed558ccdull; h ^= h >> 31; h = (h ^ (u64)(st.fixedVals[i] >> 64)) * 0x9e3779b97f4a7c15ull; }
  st.fixedHash = h | 1;
  if (!((st.inCons >> v) & 1)) return;
  std::vector<ExprId> re; size_t k = 0; u128 m = (u128)1 << v;
  for (size_t i = 0; i < st.cons.size(); i++) { if (N[st.cons[i]].sup & m) re.push_back(st.cons[i]); else st.cons[k++] = st.cons[i]; }
  st.cons.resize(k); st.inCons = 0; for (ExprId c : st.cons) st.inCons |= N[c].sup;
  for (ExprId c : re) addCons(st, c);
}
static void addCons(State &st, ExprId c) {
  c = substFixed(c, st.fixed, st.fixedVals, st.fixedHash);
  Node x = N[c];
  if (x.op == E_CONST) { if (!x.val) { fprintf(stderr, "internal: adding a false constraint\n"); abort(); } return; }
  if (x.op == E_AND) { addCons(st, x.a); addCons(st, x.b); return; }
  if (supCount(x.sup) == 1) {
    unsigned v = supFirst(x.sup);
    if ((st.small >> v) & 1) {
      st.dom[v] = st.dom[v] & truthTable(c, v);
      if (st.dom[v].empty()) { fprintf(stderr, "internal: empty domain\n"); abort(); }
      if (st.dom[v].count() == 1) fixVar(st, v, st.dom[v].first());
      return;
    }
    if (x.op == E_EQ && N[x.a].op == E_VAR && isConst(x.b)) { fixVar(st, v, N[x.b].val); return; }
  }
  for (ExprId d : st.cons) if (d == c) return;
  st.cons.push_back(c); st.inCons |= x.sup;
}
static inline ExprId simp(State &st, ExprId e) { return (N[e].sup & st.fixed) ? substFixed(e, st.fixed, st.fixedVals, st.fixedHash) : e; }

// Is (path condition && c) satisfiable? On SAT and out!=null fills the model (merged over st.model).
static bool feasible(State &st, ExprId c, Model *out) {
  c = simp(st, c); Node x = N[c];
  if (x.op == E_CONST) { if (x.val && out) *out = st.model; return x.val; }
  if (evalExpr(c, st.model)) { SS.modelHits++; if (out) *out = st.model; return true; }
  u128 sup = x.sup;
  bool single = supCount(sup) == 1; unsigned v0 = supFirst(sup);
  if (single && ((st.small >> v0) & 1)) {
    Bits256 d = st.dom[v0] & truthTable(c, v0);
    if (d.empty()) { SS.domainDecided++; if (optParanoid) { Model m = st.model; if (solve({c}, {{v0, st.dom[v0]}}, &m) != UNSAT) { fprintf(stderr, "paranoid: domain/z3 disagreement\n"); abort(); } } return false; }
    if (!((st.inCons >> v0) & 1)) { SS.domainDecided++; if (out) { *out = st.model; (*out)[v0] = d.first(); } return true; }
  }
  // slice
  std::vector<ExprId> cs; cs.push_back(c); std::vector<char> used(st.cons.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < st.cons.size(); i++) if (!used[i] && (N[st.cons[i]].sup & sup)) { used[i] = 1; sup |= N[st.cons[i]].sup; cs.push_back(st.cons[i]); ch = true; } }
  std::vector<std::pair<unsigned, Bits256>> ds;
  for (unsigned v = 0; v < varInfo.size(); v++) if (((sup >> v) & 1) && ((st.small >> v) & 1)) ds.push_back({v, st.dom[v]});
  Model m = st.model;
  SatRes r = solve(cs, ds, &m);
  if (r == UNKNOWN) endPath(O_ENGINE, "solver returned unknown (timeout)");
  if (r == SAT && out) *out = m;
  return r == SAT;
}

// Fraction of the input space described by a path whose condition is a product of byte domains; -1 when it has
// other constraints. Summed over all paths this must give 1: a self-check that no part of the space was lost.
static double pathVol(State &st) {
  if (!st.cons.empty()) return -1;
  double v = 1;
  for (u32 id : st.varIds) { if ((st.small >> id) & 1) v *= st.dom[id].count() / (double)((u64)1 << varInfo[id].w); else if ((st.fixed >> id) & 1) v *= ldexp(1.0, -(int)varInfo[id].w); }
  return v;
}
static double volSum = 0; static u64 volUnknown = 0;
static void volAdd(State &st, double sign = 1) { double v = pathVol(st); if (v < 0) volUnknown++; else volSum += sign * v; }

// ---------- memory ----------
static inline Obj *objGet(State &st, u32 id) {
  u32 c = id >> 5; if (c < st.chunks.size() && st.chunks[c]) { Obj *o = st.chunks[c]->o[id & 31]; if (o) return o; }
  if (id < nGlob) {
    if (gobjs[id].isFunc || id == 0) return nullptr;
    if (!globalObjs[id]) { materialiseGlobal(id); Obj *o = new Obj; o->rc = 1; o->kind = 0; o->constant = gobjs[id].constant; o->freed = false; o->size = gobjs[id].size; o->b = gobjs[id].bytes; globalObjs[id] = o; }
    return globalObjs[id];
  }
  return nullptr;
}
static Obj **slot(State &st, u32 id) {
  u32 c = id >> 5; if (c >= st.chunks.size()) st.chunks.resize(c + 1, nullptr);
  Chunk *&k = st.chunks[c];
  if (!k) { k = new Chunk; k->rc = 1; memset(k->o, 0, sizeof k->o); }
  else if (k->rc > 1) { Chunk *n = new Chunk; n->rc = 1; memcpy(n->o, k->o, sizeof n->o); for (auto *o : n->o) if (o) o->rc++; k->rc--; k = n; }
  return &k->o[id & 31];
}
static Obj *objGetW(State &st, u32 id) {
  Obj *o = objGet(st, id); Obj **s = slot(st, id);
  if (*s && (*s)->rc == 1) return *s;
  Obj *n = new Obj(*o); n->rc = 1; if (*s) (*s)->rc--; *s = n; return n;
}
static u32 objNew(State &st, u64 size, u8 kind) {
  u32 id = st.nextId++; Obj *o = new Obj; o->rc = 1; o->kind = kind; o->constant = false; o->freed = false; o->size = size; o->b.assign(size, 0xA5); *slot(st, id) = o; return id;
}
static void objDrop(State &st, u32 id) { Obj **s = slot(st, id); objRel(*s); *s = nullptr; }

static Obj *resolve(u64 addr, u64 n, bool write, u64 &off) {
  u32 id = addr >> 32; off = addr & 0xffffffffu;
  Obj *o = objGet(*S, id);
  if (!o) endPath(O_MEMERR, "access of %llu bytes at invalid address 0x%llx", (unsigned long long)n, (unsigned long long)addr);
  if (o->freed) endPath(O_MEMERR, "use after free (object %u)", id);
  if (off > o->size || n > o->size - off) endPath(O_MEMERR, "out of bounds: offset %llu size %llu of object of %llu bytes", (unsigned long long)off, (unsigned long long)n, (unsigned long long)o->size);
  if (write) { if (o->constant) endPath(O_MEMERR, "write to constant"); o = objGetW(*S, id); }
  return o;
}

static inline Val cv(u128 v) { Val r; r.v = v; r.e = 0; return r; }
static inline Val ev(ExprId e) { if (isConst(e)) return cv(N[e].val); Val r; r.v = 0; r.e = e; return r; }
static inline ExprId ex(Val v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }

static Val loadMem(u64 addr, unsigned w) {
  unsigned n = (w + 7) / 8; u64 off; Obj *o = resolve(addr, n, false, off);
  bool sym = false;
  if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) { u128 v = 0; memcpy(&v, &o->b[off], n); return cv(v & maskw(w)); }
  ExprId e = 0;
  for (unsigned i = n; i-- > 0;) { ExprId b = o->s[off + i] ? o->s[off + i] : mkConst(o->b[off + i], 8); e = e ? mkConcat(e, b) : b; }
  if (w % 8) e = mkExtract(e, 0, w);
  e = simp(*S, e);
  return ev(e);
}
static void storeMem(u64 addr, Val v, unsigned w) {
  unsigned n = (w + 7) / 8; u64 off; Obj *o = resolve(addr, n, true, off);
  if (!v.e) { u128 x = v.v; memcpy(&o->b[off], &x, n); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = 0; return; }
  if (o->s.empty()) o->s.assign(o->size, 0);
  ExprId e = w % 8 ? mkZext(v.e, n * 8) : v.e;
  for (unsigned i = 0; i < n; i++) { ExprId b = mkExtract(e, i * 8, 8); if (isConst(b)) { o->b[off + i] = (u8)N[b].val; o->s[off + i] = 0; } else o->s[off + i] = b; }
}

// ---------- events & forking ----------
static void pushEvent(State &st, bool added) { if ((st.nEvents & 7) == 0) st.events.push_back(0); if (added) st.events[st.nEvents >> 3] |= 1 << (st.nEvents & 7); st.nEvents++; ST.symEvents++; }
static bool replayBit(State &st, bool &added) { // true if in replay
  if (!st.replayLeft) return false; u32 i = st.nEvents; added = (st.replayEv[i >> 3] >> (i & 7)) & 1; st.replayLeft--; return true;
}

static void takeEdge(State &st, Frame *f, u32 e);
static Frame *topW(State &st) { Frame *f = st.fr.back(); if (f->rc > 1) { Frame *n = new Frame(*f); n->rc = 1; f->rc--; st.fr.back() = n; f = n; } return f; }

// Branch on a symbolic condition. alt(State&) is applied to the forked copy that takes the other side.
template <class Alt> static bool branch(ExprId c, Alt alt) {
  State &st = *S; c = simp(st, c);
  if (isConst(c)) return N[c].val;
  bool dir = evalExpr(c, st.model); bool added;
  ExprId mine = dir ? c : mkNot(c), other = dir ? mkNot(c) : c;
  if (replayBit(st, added)) { if (added) addCons(st, mine); pushEvent(st, added); return dir; }
  Model m; bool of = feasible(st, other, &m);
  if (!of) { pushEvent(st, false); ST.infeasible++; return dir; }
  ST.forks++;
  State *o = new State(st); o->model = m; pushEvent(*o, true); addCons(*o, other); alt(*o); work.push_back(o);
  pushEvent(st, true); addCons(st, mine);
  return dir;
}
// Make an expression concrete; other feasible values are forked with set(State&, value).
template <class SetF> static u128 concretise(ExprId e, SetF set, const char *what) {
  State &st = *S; e = simp(st, e); if (isConst(e)) return N[e].val;
  u128 v = evalExpr(e, st.model); unsigned w = N[e].w; bool added;
  ExprId mine = mkBin(E_EQ, e, mkConst(v, w));
  if (replayBit(st, added)) { if (added) addCons(st, mine); pushEvent(st, added); return v; }
  std::vector<std::pair<u128, Model>> alts; std::set<u128> seen; seen.insert(v);
  Node x = N[e];
  if (supCount(x.sup) == 1 && ((st.small >> supFirst(x.sup)) & 1)) {
    unsigned var = supFirst(x.sup); std::vector<u128> t; valueTable(e, var, t);
    for (unsigned i = 0; i < t.size(); i++) if (st.dom[var].get(i) && !seen.count(t[i])) { Model m; if (feasible(st, mkBin(E_EQ, e, mkConst(t[i], w)), &m)) { seen.insert(t[i]); alts.push_back({t[i], m}); } else seen.insert(t[i]); }
  } else {
    ExprId block = mkNot(mine); Model m;
    while (feasible(st, block, &m)) {
      u128 k = evalExpr(e, m); if (seen.count(k)) { fprintf(stderr, "internal: concretise repeat\n"); abort(); }
      seen.insert(k); alts.push_back({k, m}); if (alts.size() > 600) endPath(O_ENGINE, "concretisation explosion (%s): %s", what, exprStr(e, 4).c_str());
      block = mkBin(E_AND, block, mkNot(mkBin(E_EQ, e, mkConst(k, w))));
    }
  }
  ST.concretised++;
  bool any = !alts.empty();
  for (auto &a : alts) { ST.forks++; State *o = new State(st); o->model = a.second; pushEvent(*o, true); addCons(*o, mkBin(E_EQ, e, mkConst(a.first, w))); set(*o, a.first); work.push_back(o); }
  pushEvent(st, any); if (any) addCons(st, mine);
  return v;
}

// ---------- shared state between workers ----------
struct Slot { u32 used; u32 nvals; u32 nEvents; u128 vals[MAXVARS]; u8 ev[8192]; };
static const int NSLOTS = 512;
struct Shared { std::atomic<int> lock; std::atomic<int> idle; std::atomic<int> qn; std::atomic<int> stop; std::atomic<int> incomplete; std::atomic<u64> viol; int nworkers; Slot slots[NSLOTS]; };
static Shared *SH;
static void lockS() { int z = 0; while (!SH->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(20); } }
static void unlockS() { SH->lock = 0; }
static bool donate(State *st) {
  if (st->events.size() > sizeof SH->slots[0].ev || st->varIds.size() > MAXVARS) return false;
  bool ok = false; lockS();
  if (SH->qn < NSLOTS) for (auto &s : SH->slots) if (!s.used) {
    s.used = 1; s.nvals = st->varIds.size(); for (u32 i = 0; i < s.nvals; i++) s.vals[i] = st->varIds[i] < st->model.size() ? st->model[st->varIds[i]] : 0;
    s.nEvents = st->nEvents; memcpy(s.ev, st->events.data(), st->events.size()); SH->qn++; ok = true; break;
  }
  unlockS(); return ok;
}

static FILE *outF;
static std::string demangle1(const std::string &s) { std::string d = llvm::demangle(s); size_t p = d.rfind("::h"); if (p != std::string::npos && d.size() - p == 19) d.resize(p); return d; }
static std::string stackStr(State &st) { std::string r; int n = 0; for (size_t i = st.fr.size(); i-- > 0 && n < 14; n++) { if (n) r += " < "; std::string d = demangle1(st.fr[i]->f->name); if (d.size() > 90) d = d.substr(0, 90) + ".."; r += d; } for (auto &c : r) if (c == '\n' || c == '\t') c = ' '; return r; }
static std::string u128s(u128 v) { char b[48]; int i = 47; b[i] = 0; if (!v) b[--i] = '0'; while (v) { b[--i] = '0' + (int)(v % 10); v /= 10; } return b + i; }
static void emitInputs(State &st, const Model &m) { for (size_t i = 0; i < st.varIds.size(); i++) fprintf(outF, "%s%s", i ? "," : "", u128s(st.varIds[i] < m.size() ? m[st.varIds[i]] & maskw(varInfo[st.varIds[i]].w) : 0).c_str()); }
static void violation(State &st, Outcome o, u64 id, const Model &m, const std::string &msg) {
  if (++SH->viol >= 400) { SH->stop = 1; SH->incomplete = 1; } ST.paths[o] += (o == O_ASSERT);
  static std::map<std::pair<int, u64>, int> per; if (++per[{(int)o, id}] > (int)maxViol) return;
  fprintf(outF, "V\t%s\t%llu\t", outName[o], (unsigned long long)id); emitInputs(st, m); fprintf(outF, "\t%s\t%s\n", msg.c_str(), stackStr(st).c_str()); fflush(outF);
}
static u64 reachCnt[64], emitted = 0, emitAll = 12000;
static void emitPath(State &st, Outcome o, const std::string &msg) {
  for (ExprId c : st.cons) if (!evalExpr(c, st.model)) { fprintf(stderr, "internal: path model does not satisfy path condition\n"); abort(); }
  for (int i = 0; i < 64; i++) if (st.reach >> i & 1) reachCnt[i]++;
  if (emitted++ >= emitAll && emitted % 32) return;
  fprintf(outF, "P\t%s\t", outName[o]); emitInputs(st, st.model); fprintf(outF, "\t");
  for (size_t i = 0; i < st.trace.size(); i++) { u128 v = st.trace[i].v.e ? evalExpr(st.trace[i].v.e, st.model) : st.trace[i].v.v; fprintf(outF, "%s%llx", i ? "," : "", (unsigned long long)v); }
  fprintf(outF, "\t%llx\t%llu\t%u\t%llu\n", (unsigned long long)st.reach, (unsigned long long)st.asserts, st.nEvents, (unsigned long long)st.steps);
}

// ---------- interpreter ----------
static inline Val rd(Opnd o) {
  if (o < 0) return cv(cpool[~o]);
  Val v = F->regs[o];
  if (v.e && (N[v.e].sup & S->fixed)) { v = ev(simp(*S, v.e)); F->regs[o] = v; }
  return v;
}
static void takeEdge(State &st, Frame *f, u32 e) {
  Edge &ed = f->f->edges[e];
  if (!ed.parallel) { for (auto &m : ed.moves) f->regs[m.first] = m.second >= 0 ? f->regs[m.second] : cv(cpool[~m.second]); }
  else { std::vector<Val> t; for (auto &m : ed.moves) t.push_back(m.second >= 0 ? f->regs[m.second] : cv(cpool[~m.second])); for (size_t i = 0; i < t.size(); i++) f->regs[ed.moves[i].first] = t[i]; }
  f->pc = ed.pc;
}
static u64 concOp(Opnd o, const char *what) { // concretise a register operand in place
  Val v = rd(o); if (!v.e) return (u64)v.v;
  u128 r = concretise(v.e, [&](State &st, u128 k) { topW(st)->regs[o] = cv(k); }, what);
  F = topW(*S); F->regs[o] = cv(r); return (u64)r;
}
static void pushFrame(State &st, Func *f, int32_t retDst, const CallInfo *ci) {
  if (!f->translated) translate(*f);
  if (st.fr.size() > 4000) endPath(O_HANG, "call depth limit (stack overflow?)");
  Frame *n = new Frame; n->rc = 1; n->f = f; n->pc = 0; n->retDst = retDst; n->regs.assign(f->nregs, Val{0, 0}); n->ci = ci; st.fr.push_back(n); f->execCount++;
}
static bool memRange(u64 addr, u64 n, bool w, Obj *&o, u64 &off) { if (!n) return false; o = resolve(addr, n, w, off); return true; }

static void doMemcpy(u64 d, u64 s, u64 n) {
  if (!n) return; u64 so, dofs; Obj *so_ = resolve(s, n, false, so);
  static std::vector<u8> tb; static std::vector<ExprId> ts; // copied out first: the destination may be the same object
  tb.assign(so_->b.begin() + so, so_->b.begin() + so + n);
  bool ss = !so_->s.empty();
  if (ss) ts.assign(so_->s.begin() + so, so_->s.begin() + so + n); else ts.clear();
  Obj *dd = resolve(d, n, true, dofs);
  memcpy(&dd->b[dofs], tb.data(), n);
  if (ss) { bool any = false; for (auto x : ts) if (x) { any = true; break; } if (any && dd->s.empty()) dd->s.assign(dd->size, 0); if (!dd->s.empty()) memcpy(&dd->s[dofs], ts.data(), n * sizeof(ExprId)); }
  else if (!dd->s.empty()) std::fill(dd->s.begin() + dofs, dd->s.begin() + dofs + n, 0);
}
static Val doMemcmp(u64 a, u64 b, u64 n) {
  if (!n) return cv(0);
  u64 ao, bo; Obj *x = resolve(a, n, false, ao), *y = resolve(b, n, false, bo);
  ExprId r = 0; // built from the last byte backwards
  ExprId zero = mkConst(0, 32), one = mkConst(1, 32), mone = mkConst(0xffffffffu, 32);
  r = zero;
  for (u64 i = n; i-- > 0;) {
    ExprId p = !x->s.empty() && x->s[ao + i] ? simp(*S, x->s[ao + i]) : mkConst(x->b[ao + i], 8), q = !y->s.empty() && y->s[bo + i] ? simp(*S, y->s[bo + i]) : mkConst(y->b[bo + i], 8);
    ExprId eq = mkBin(E_EQ, p, q); if (isConst(eq) && N[eq].val) continue;
    ExprId lt = mkBin(E_ULT, p, q);
    r = mkIte(eq, r, mkIte(lt, mone, one));
  }
  return ev(r);
}
static std::map<std::pair<u32, u64>, u32> tabCache;
// symbolic load address: table read from a small constant object, otherwise concretise
static bool tableLoad(ExprId a, unsigned w, Val &out) {
  u64 a0 = (u64)evalExpr(a, S->model); u32 id = a0 >> 32; Obj *o = objGet(*S, id); unsigned n = (w + 7) / 8;
  if (!o || !o->constant || id >= nGlob || o->size > 4096 || o->size < n) return false;
  ExprId off = mkBin(E_SUB, a, mkConst((u64)id << 32, 64));
  // outside the object?
  ExprId oob = mkBin(E_ULT, mkConst(o->size - n, 64), off);
  bool isTab; // the event bit records whether the table form was used
  if (replayBit(*S, isTab)) { pushEvent(*S, isTab); }
  else { isTab = !feasible(*S, oob, nullptr); pushEvent(*S, isTab); }
  if (!isTab) return false;
  auto key = std::make_pair(id, (u64)w); auto it = tabCache.find(key); u32 t;
  if (it == tabCache.end()) { Table tb; tb.w = w; for (u64 i = 0; i + n <= o->size; i++) { u128 v = 0; memcpy(&v, &o->b[i], n); tb.v.push_back(v & maskw(w)); } t = tables.size(); tables.push_back(tb); tabCache[key] = t; } else t = it->second;
  out = ev(mkTable(t, mkExtract(off, 0, 16), w)); return true;
}

static u64 heapAlloc(u64 size) { u32 id = objNew(*S, size, 1); S->live += size; if (S->live > S->peak) S->peak = S->live; return (u64)id << 32; }
static void heapFree(u64 addr) {
  if (!addr) return; u64 off; Obj *o = objGet(*S, addr >> 32); (void)off;
  if (!o || o->freed || o->kind != 1 || (addr & 0xffffffffu)) endPath(O_MEMERR, "invalid free of 0x%llx", (unsigned long long)addr);
  S->live -= o->size; o = objGetW(*S, addr >> 32); o->freed = true; o->b.clear(); o->b.shrink_to_fit(); o->s.clear(); o->s.shrink_to_fit();
}
static u64 allocSize(Opnd o) { // size operand: bounded, then concrete
  Val v = rd(o);
  if (v.e) {
    ExprId big = mkBin(E_ULT, mkConst(HUGE_ALLOC, 64), v.e); big = simp(*S, big);
    if (!isConst(big)) {
      bool added; State &st = *S;
      if (replayBit(st, added)) { if (added) addCons(st, mkNot(big)); pushEvent(st, added); }
      else {
        Model m; if (feasible(st, big, &m)) {
          violation(st, O_HUGE, 0, m, "allocation size can exceed 1 MiB");
          if (!feasible(st, mkNot(big), &m)) endPath(O_HUGE, "huge allocation");
          st.model = m; addCons(st, mkNot(big)); pushEvent(st, true);
        } else pushEvent(st, false);
      }
    } else if (N[big].val) endPath(O_HUGE, "huge allocation");
    return concOp(o, "allocation size");
  }
  if ((u64)v.v > HUGE_ALLOC) endPath(O_HUGE, "allocation of %llu bytes", (unsigned long long)v.v);
  return (u64)v.v;
}

static void setReg(int32_t d, Val v) { if (d >= 0) F->regs[d] = v; }
static void doRet(const Val *vals, unsigned n);

// returns true if handled as a hook
static bool hookCall(Func &fn, const CallInfo &ci, int32_t dst) {
  auto arg = [&](unsigned i) { return rd(ci.args[i]); };
  auto done = [&](Val v, bool has = true) { if (has && dst >= 0) F->regs[dst] = v; if (ci.edge >= 0) takeEdge(*S, F, ci.edge); return true; };
  switch (fn.hook) {
  case H_PANIC: endPath(O_PANIC, "panic via %s", demangle1(fn.name).c_str());
  case H_ABORT: endPath(O_ABORT, "abort");
  case H_ALLOC: case H_MALLOC: { u64 n = allocSize(ci.args[0]); return done(cv(heapAlloc(n))); }
  case H_ALLOC_ZEROED: { u64 n = allocSize(ci.args[0]); u64 a = heapAlloc(n); Obj *o = objGetW(*S, a >> 32); std::fill(o->b.begin(), o->b.end(), 0); return done(cv(a)); }
  case H_CALLOC: { u64 n = allocSize(ci.args[0]), m = allocSize(ci.args[1]); u64 a = heapAlloc(n * m); Obj *o = objGetW(*S, a >> 32); std::fill(o->b.begin(), o->b.end(), 0); return done(cv(a)); }
  case H_DEALLOC: case H_FREE: { u64 p = concOp(ci.args[0], "free"); heapFree(p); return done(cv(0), false); }
  case H_REALLOC: case H_LIBC_REALLOC: {
    u64 p = concOp(ci.args[0], "realloc"); u64 n = allocSize(ci.args[fn.hook == H_REALLOC ? 3 : 1]);
    u64 a = heapAlloc(n); if (p) { Obj *o = objGet(*S, p >> 32); if (!o || o->freed || (p & 0xffffffff)) endPath(O_MEMERR, "invalid realloc"); doMemcpy(a, p, std::min(n, o->size)); heapFree(p); } return done(cv(a));
  }
  case H_MEMCMP: { u64 n = concOp(ci.args[2], "memcmp len"); u64 a = 1, b = 1; if (n) { a = concOp(ci.args[0], "memcmp"); b = concOp(ci.args[1], "memcmp"); } return done(doMemcmp(a, b, n)); }
  case H_MEMCPY: { u64 n = concOp(ci.args[2], "memcpy len"); u64 a = concOp(ci.args[0], "memcpy"), b = concOp(ci.args[1], "memcpy"); doMemcpy(a, b, n); return done(cv(a)); }
  case H_FMT_WRITE: return done(cv(0));
  case H_NOP: return done(cv(0));
  case H_RANDKEYS: F->regs[dst] = cv(params.count(90) ? params[90] : 0x0706050403020100ull); F->regs[dst + 1] = cv(params.count(91) ? params[91] : 0x0f0e0d0c0b0a0908ull); return done(cv(0), false);
  case H_SX_VAR: {
    unsigned w = fn.name == "sx_u8" ? 8 : fn.name == "sx_u16" ? 16 : fn.name == "sx_u32" ? 32 : fn.name == "sx_u64" ? 64 : 1;
    State &st = *S; u32 ord = st.varIds.size(); u32 v = newVar(ord, w); st.varIds.push_back(v);
    if (st.model.size() <= v) st.model.resize(v + 1, 0); st.model[v] = ord < st.replayVals.size() ? st.replayVals[ord] : 0;
    if (w <= 8) { st.small |= (u128)1 << v; if (st.dom.size() <= v) st.dom.resize(v + 1, Bits256::none()); st.dom[v] = Bits256::full(1u << w); }
    return done(ev(mkVar(v, w)));
  }
  case H_SX_ASSUME: {
    Val c = arg(0); State &st = *S;
    if (!c.e) { if (!(c.v & 1)) endPath(O_DEADEND, "assume"); return done(cv(0), false); }
    ExprId e = N[c.e].w == 1 ? c.e : mkExtract(c.e, 0, 1); bool added;
    if (replayBit(st, added)) { if (added) addCons(st, e); pushEvent(st, added); return done(cv(0), false); }
    Model m; if (!feasible(st, e, &m)) endPath(O_DEADEND, "assume"); st.model = m; volAdd(st); u64 uk = volUnknown; addCons(st, e); volAdd(st, -1); if (volUnknown > uk) volUnknown = uk + 1; pushEvent(st, true); return done(cv(0), false);
  }
  case H_SX_ASSERT: {
    Val c = arg(0); Val id = arg(1); if (id.e) id = cv(concOp(ci.args[1], "sx_assert id")); State &st = *S; st.asserts++;
    if (!c.e) { if (!(c.v & 1)) { violation(st, O_ASSERT, (u64)id.v, st.model, "assertion"); endPath(O_ASSERT, "assertion %llu", (unsigned long long)id.v); } SS.assertTrivial++; return done(cv(0), false); }
    ExprId e = simp(st, N[c.e].w == 1 ? c.e : mkExtract(c.e, 0, 1)); bool added;
    if (isConst(e)) { if (!N[e].val) { violation(st, O_ASSERT, (u64)id.v, st.model, "assertion"); endPath(O_ASSERT, "assertion"); } SS.assertTrivial++; return done(cv(0), false); }
    if (replayBit(st, added)) { if (added) addCons(st, e); pushEvent(st, added); return done(cv(0), false); }
    SS.assertQueries++; Model m;
    if (feasible(st, mkNot(e), &m)) {
      violation(st, O_ASSERT, (u64)id.v, m, "assertion");
      if (!feasible(st, e, &m)) endPath(O_ASSERT, "assertion"); st.model = m; addCons(st, e); pushEvent(st, true);
    } else pushEvent(st, false);
    return done(cv(0), false);
  }
  case H_SX_REACH: { Val id = arg(0); if (id.e) id = cv(concOp(ci.args[0], "sx_reach id")); S->reach |= 1ull << ((u64)id.v & 63); return done(cv(0), false); }
  case H_SX_OBSERVE: { Val v = arg(0); S->trace.push_back({0, v, 64}); return done(cv(0), false); }
  case H_SX_PARAM: { u64 i = (u64)arg(0).v; u64 d = (u64)arg(1).v; return done(cv(params.count(i) ? params[i] : d)); }
  case H_SX_CONC: { u64 v = concOp(ci.args[0], "sx_conc"); return done(cv(v)); }
  case H_SX_HEAP: return done(cv(S->peak));
  case H_SX_LIVE: return done(cv(S->live));
  case H_SX_HEAPRESET: S->peak = S->live; return done(cv(0), false);
  case H_STRLEN: { u64 a = concOp(ci.args[0], "strlen"); u64 n = 0; for (;; n++) { Val v = loadMem(a + n, 8); if (v.e) endPath(O_ENGINE, "symbolic strlen"); if (!v.v) break; } return done(cv(n)); }
  case H_EXTERN_UNKNOWN: endPath(O_ENGINE, "call to external function %s", fn.name.c_str());
  default: return false;
  }
}

static Val icmp(u8 p, Val a, Val b, unsigned w) {
  if (!a.e && !b.e) {
    switch (p) {
    case P_EQ: return cv(a.v == b.v); case P_NE: return cv(a.v != b.v); case P_ULT: return cv(a.v < b.v); case P_ULE: return cv(a.v <= b.v); case P_UGT: return cv(a.v > b.v); case P_UGE: return cv(a.v >= b.v);
    case P_SLT: return cv(sextw(a.v, w) < sextw(b.v, w)); case P_SLE: return cv(sextw(a.v, w) <= sextw(b.v, w)); case P_SGT: return cv(sextw(a.v, w) > sextw(b.v, w)); default: return cv(sextw(a.v, w) >= sextw(b.v, w));
    }
  }
  ExprId x = ex(a, w), y = ex(b, w);
  switch (p) {
  case P_EQ: return ev(mkBin(E_EQ, x, y)); case P_NE: return ev(mkNot(mkBin(E_EQ, x, y))); case P_ULT: return ev(mkBin(E_ULT, x, y)); case P_ULE: return ev(mkUle(x, y)); case P_UGT: return ev(mkBin(E_ULT, y, x)); case P_UGE: return ev(mkUle(y, x));
  case P_SLT: return ev(mkBin(E_SLT, x, y)); case P_SLE: return ev(mkSle(x, y)); case P_SGT: return ev(mkBin(E_SLT, y, x)); default: return ev(mkSle(y, x));
  }
}
static u128 bswapw(u128 v, unsigned w) { u128 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((v >> (8 * i)) & 0xff) << (w - 8 - 8 * i); return r; }

static void doRet(const Val *vals, unsigned n) {
  Frame *old = F; const CallInfo *ci = old->ci; int32_t dst = old->retDst;
  std::vector<Val> tmp(vals, vals + n);
  for (u32 id : old->allocas) objDrop(*S, id);
  S->fr.pop_back(); frameRel(old);
  if (S->fr.empty()) endPath(O_OK, "");
  F = topW(*S);
  if (dst >= 0) for (unsigned i = 0; i < tmp.size(); i++) F->regs[dst + i] = tmp[i];
  if (ci && ci->edge >= 0) takeEdge(*S, F, ci->edge);
}

static void runState() { // runs S until the path ends (throws PathEnd)
  F = topW(*S);
  u64 budget = 0;
  for (;;) {
    if (++S->steps > maxSteps) endPath(O_HANG, "step limit %llu", (unsigned long long)maxSteps);
    ST.steps++;
    if ((++budget & 0xffff) == 0 && SH->stop) endPath(O_ENGINE, "stopped (time budget)");
    const Insn &I = F->f->code[F->pc++];
    switch (I.op) {
    case OP_BIN: {
      Val a = rd(I.a), b = rd(I.b);
      if (!a.e && !b.e) {
        if ((I.sub == E_UDIV || I.sub == E_SDIV || I.sub == E_UREM || I.sub == E_SREM) && b.v == 0) endPath(O_MEMERR, "division by zero");
        F->regs[I.dst] = cv(evalOp((EOp)I.sub, I.w, a.v, b.v));
      } else F->regs[I.dst] = ev(mkBin((EOp)I.sub, ex(a, I.w), ex(b, I.w)));
      break;
    }
    case OP_ICMP: F->regs[I.dst] = icmp(I.sub, rd(I.a), rd(I.b), I.w); break;
    case OP_ZEXT: { Val a = rd(I.a); F->regs[I.dst] = a.e ? ev(mkZext(a.e, I.w)) : a; break; }
    case OP_SEXT: { Val a = rd(I.a); F->regs[I.dst] = a.e ? ev(mkSext(a.e, I.w)) : cv((u128)sextw(a.v, I.sub) & maskw(I.w)); break; }
    case OP_TRUNC: { Val a = rd(I.a); F->regs[I.dst] = a.e ? ev(mkExtract(a.e, 0, I.w)) : cv(a.v & maskw(I.w)); break; }
    case OP_MOV: F->regs[I.dst] = rd(I.a); break;
    case OP_SELECT: {
      Val c = rd(I.c);
      if (!c.e) { F->regs[I.dst] = (c.v & 1) ? rd(I.a) : rd(I.b); break; }
      Val a = rd(I.a), b = rd(I.b);
      if (!a.e && !b.e && a.v == b.v) { F->regs[I.dst] = a; break; }
      F->regs[I.dst] = ev(mkIte(c.e, ex(a, I.w), ex(b, I.w))); break;
    }
    case OP_GEP: {
      Val base = rd(I.a);
      if (I.ext == ~0u) { F->regs[I.dst] = base.e ? ev(mkBin(E_ADD, base.e, mkConst(I.imm, 64))) : cv((u64)((u64)base.v + I.imm)); break; }
      const GepInfo &g = F->f->geps[I.ext]; u64 acc = I.imm; ExprId se = 0; if (base.e) se = base.e; else acc += (u64)base.v;
      for (size_t k = 0; k < g.terms.size(); k++) {
        Val t = rd(g.terms[k].first); unsigned tw = g.widths[k];
        if (!t.e) acc += (u64)sextw(t.v, tw) * g.terms[k].second;
        else { ExprId x = tw < 64 ? mkSext(t.e, 64) : tw > 64 ? mkExtract(t.e, 0, 64) : t.e; x = mkBin(E_MUL, x, mkConst(g.terms[k].second, 64)); se = se ? mkBin(E_ADD, se, x) : x; }
      }
      F->regs[I.dst] = se ? ev(mkBin(E_ADD, se, mkConst(acc, 64))) : cv(acc); break;
    }
    case OP_ALLOCA: { u32 id = objNew(*S, I.imm, 2); F->allocas.push_back(id); F->regs[I.dst] = cv((u64)id << 32); break; }
    case OP_LOAD: {
      Val p = rd(I.a);
      if (p.e) {
        ExprId a = I.imm ? mkBin(E_ADD, p.e, mkConst(I.imm, 64)) : p.e; Val out;
        if (tableLoad(a, I.w, out)) { F->regs[I.dst] = out; break; }
        F->pc--; u64 q = concOp(I.a, "load address"); F->pc++; F->regs[I.dst] = loadMem(q + I.imm, I.w); break;
      }
      F->regs[I.dst] = loadMem((u64)p.v + I.imm, I.w); break;
    }
    case OP_STORE: { F->pc--; u64 q = concOp(I.a, "store address"); F->pc++; storeMem(q + I.imm, rd(I.b), I.w); break; }
    case OP_BR: takeEdge(*S, F, I.ext); break;
    case OP_CBR: {
      Val c = rd(I.a); u32 e1 = I.ext, e2 = (u32)I.imm; bool d;
      if (!c.e) d = c.v & 1;
      else { bool mine = evalExpr(c.e, S->model); d = branch(c.e, [&](State &o) { Frame *f = topW(o); takeEdge(o, f, mine ? e2 : e1); }); F = topW(*S); }
      takeEdge(*S, F, d ? e1 : e2); break;
    }
    case OP_SWITCH: {
      Val c = rd(I.a); const SwitchInfo &sw = F->f->switches[I.ext];
      if (!c.e) { u32 e = sw.def; for (auto &k : sw.cases) if (k.first == c.v) { e = k.second; break; } takeEdge(*S, F, e); break; }
      // group the cases by edge
      u128 v = evalExpr(c.e, S->model); std::map<u32, ExprId> conds; ExprId any = mkConst(0, 1); u32 mine = sw.def;
      for (auto &k : sw.cases) { ExprId q = mkBin(E_EQ, c.e, mkConst(k.first, I.w)); any = mkBin(E_OR, any, q); if (k.second == sw.def) continue; auto it = conds.find(k.second); if (it == conds.end()) conds[k.second] = q; else it->second = mkBin(E_OR, it->second, q); if (k.first == v) mine = k.second; }
      ExprId nd = mkConst(1, 1); for (auto &p : conds) nd = mkBin(E_AND, nd, mkNot(p.second)); conds[sw.def] = nd;
      State &st = *S; bool added; ExprId mc = conds[mine];
      if (replayBit(st, added)) { if (added) addCons(st, mc); pushEvent(st, added); takeEdge(*S, F, mine); break; }
      std::vector<std::pair<u32, Model>> alts;
      for (auto &p : conds) { if (p.first == mine) continue; Model m; if (feasible(st, p.second, &m)) alts.push_back({p.first, m}); }
      for (auto &a : alts) { ST.forks++; State *o = new State(st); o->model = a.second; pushEvent(*o, true); addCons(*o, conds[a.first]); takeEdge(*o, topW(*o), a.first); work.push_back(o); }
      F = topW(*S); pushEvent(st, !alts.empty()); if (!alts.empty()) addCons(st, mc);
      takeEdge(*S, F, mine); break;
    }
    case OP_CALL: {
      const CallInfo &ci = F->f->calls[I.ext]; int fi = ci.callee;
      F->pc--;
      if (fi < 0) { u64 a = concOp(ci.calleePtr, "callee"); u32 id = a >> 32; if (id == 0 || id >= nGlob || !gobjs[id].isFunc || (a & 0xffffffff)) endPath(O_MEMERR, "call through invalid pointer"); fi = gobjs[id].func; }
      Func &fn = funcs[fi];
      if (fn.hook) {
        // keep pc at the call while forking so that copies re-execute it with the operand made concrete
        Frame *f0 = F; (void)f0; u32 pc0 = F->pc; size_t depth = S->fr.size();
        F->pc = pc0;
        if (ci.edge >= 0) { hookCall(fn, ci, I.dst); }
        else { hookCall(fn, ci, I.dst); if (S->fr.size() == depth) { F = topW(*S); F->pc = pc0 + 1; } }
        break;
      }
      F->pc++;
      if (fn.isDecl) endPath(O_ENGINE, "call to undefined %s", fn.name.c_str());
      if (!fn.translated) translate(fn);
      Val args[64]; if (ci.args.size() > 64) endPath(O_ENGINE, "too many args");
      for (size_t k = 0; k < ci.args.size(); k++) args[k] = rd(ci.args[k]);
      pushFrame(*S, &fn, I.dst, &ci); F = S->fr.back();
      if (ci.args.size() < fn.nargs) endPath(O_ENGINE, "argument mismatch calling %s", fn.name.c_str());
      for (size_t k = 0; k < fn.nargs; k++) F->regs[k] = args[k];
      break;
    }
    case OP_RET: {
      const std::vector<Opnd> &l = F->f->lists[I.ext]; Val tmp[64]; for (size_t k = 0; k < l.size() && k < 64; k++) tmp[k] = rd(l[k]);
      doRet(tmp, l.size()); break;
    }
    case OP_UNREACHABLE: endPath(O_UNREACH, "unreachable executed"); 
    case OP_TRAP: endPath(O_ABORT, "trap");
    case OP_NOP: break;
    case OP_ADDO: {
      Val a = rd(I.a), b = rd(I.b); unsigned w = I.w; Val r, o;
      if (!a.e && !b.e) {
        u128 m = maskw(w), x = a.v, y = b.v; 
        switch (I.sub) {
        case OV_UADD: r = cv((x + y) & m); o = cv(r.v < x); break;
        case OV_USUB: r = cv((x - y) & m); o = cv(x < y); break;
        case OV_UMUL: { u128 p; bool ov = __builtin_mul_overflow(x, y, &p); r = cv(p & m); o = cv(ov || (p & ~m)); break; }
        case OV_SADD: { i128 p; bool ov = __builtin_add_overflow(sextw(x, w), sextw(y, w), &p); r = cv((u128)p & m); o = cv(ov || sextw(r.v, w) != p); break; }
        case OV_SSUB: { i128 p; bool ov = __builtin_sub_overflow(sextw(x, w), sextw(y, w), &p); r = cv((u128)p & m); o = cv(ov || sextw(r.v, w) != p); break; }
        default: { i128 p; bool ov = __builtin_mul_overflow(sextw(x, w), sextw(y, w), &p); r = cv((u128)p & m); o = cv(ov || sextw(r.v, w) != p); break; }
        }
      } else {
        ExprId x = ex(a, w), y = ex(b, w);
        switch (I.sub) {
        case OV_UADD: { ExprId s = mkBin(E_ADD, x, y); r = ev(s); o = ev(mkBin(E_ULT, s, x)); if (isConst(y)) o = ev(mkBin(E_ULT, mkConst(maskw(w) - N[y].val, w), x)); break; }
        case OV_USUB: r = ev(mkBin(E_SUB, x, y)); o = ev(mkBin(E_ULT, x, y)); break;
        case OV_UMUL: {
          r = ev(mkBin(E_MUL, x, y));
          if (isConst(x)) std::swap(x, y);
          if (isConst(y)) { u128 k = N[y].val; o = k ? ev(mkBin(E_ULT, mkConst(maskw(w) / k, w), x)) : cv(0); }
          else if (w <= 64) { ExprId p = mkBin(E_MUL, mkZext(x, 2 * w), mkZext(y, 2 * w)); o = ev(mkNot(mkBin(E_EQ, mkExtract(p, w, w), mkConst(0, w)))); } else endPath(O_ENGINE, "128-bit symbolic umulo");
          break;
        }
        case OV_SADD: case OV_SSUB: {
          if (w >= 128) { ExprId s = mkBin(I.sub == OV_SADD ? E_ADD : E_SUB, x, y); r = ev(s); ExprId z = mkConst(0, w), sx = mkBin(E_SLT, x, z), sy = mkBin(E_SLT, y, z), sr = mkBin(E_SLT, s, z);
            ExprId same = mkBin(E_EQ, sx, sy); if (I.sub == OV_SSUB) same = mkNot(same); o = ev(mkBin(E_AND, same, mkNot(mkBin(E_EQ, sx, sr)))); break; }
          ExprId s = mkBin(I.sub == OV_SADD ? E_ADD : E_SUB, x, y); r = ev(s); ExprId wide = mkBin(I.sub == OV_SADD ? E_ADD : E_SUB, mkSext(x, w + 1), mkSext(y, w + 1)); o = ev(mkNot(mkBin(E_EQ, wide, mkSext(s, w + 1)))); break;
        }
        default: if (w <= 64) { ExprId p = mkBin(E_MUL, mkSext(x, 2 * w), mkSext(y, 2 * w)); ExprId s = mkExtract(p, 0, w); r = ev(s); o = ev(mkNot(mkBin(E_EQ, mkSext(s, 2 * w), p))); } else endPath(O_ENGINE, "128-bit symbolic smulo");
        }
      }
      F->regs[I.dst] = r; F->regs[I.dst + 1] = o; break;
    }
    case OP_MEMCPY: { F->pc--; u64 n = concOp(I.c, "memcpy length"); if (n) { u64 d = concOp(I.a, "memcpy dst"), s = concOp(I.b, "memcpy src"); doMemcpy(d, s, n); } F = topW(*S); F->pc++; break; }
    case OP_MEMSET: {
      F->pc--; u64 n = concOp(I.c, "memset length"); if (n) { u64 d = concOp(I.a, "memset dst"); Val v = rd(I.b); u64 off; Obj *o = resolve(d, n, true, off);
        if (!v.e) { memset(&o->b[off], (u8)v.v, n); if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, 0); }
        else { if (o->s.empty()) o->s.assign(o->size, 0); for (u64 k = 0; k < n; k++) o->s[off + k] = v.e; } }
      F = topW(*S); F->pc++; break;
    }
    case OP_CTLZ: case OP_CTTZ: case OP_CTPOP: {
      Val a = rd(I.a); unsigned w = I.w;
      if (!a.e) { u128 v = a.v; unsigned r = 0; if (I.op == OP_CTPOP) { for (unsigned i = 0; i < w; i++) r += (v >> i) & 1; } else if (I.op == OP_CTTZ) { while (r < w && !((v >> r) & 1)) r++; } else { while (r < w && !((v >> (w - 1 - r)) & 1)) r++; } F->regs[I.dst] = cv(r); break; }
      ExprId r;
      if (I.op == OP_CTPOP) { r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(E_ADD, r, mkZext(mkExtract(a.e, i, 1), w)); }
      else { r = mkConst(w, w); for (unsigned k = 0; k < w; k++) { unsigned bit = I.op == OP_CTTZ ? w - 1 - k : k; unsigned cnt = I.op == OP_CTTZ ? bit : w - 1 - bit; r = mkIte(mkExtract(a.e, bit, 1), mkConst(cnt, w), r); } }
      F->regs[I.dst] = ev(r); break;
    }
    case OP_BSWAP: { Val a = rd(I.a); if (!a.e) F->regs[I.dst] = cv(bswapw(a.v, I.w)); else { ExprId r = mkExtract(a.e, 0, 8); for (unsigned i = 8; i < I.w; i += 8) r = mkConcat(r, mkExtract(a.e, i, 8)); F->regs[I.dst] = ev(r); } break; }
    case OP_BITREV: { Val a = rd(I.a); if (a.e) endPath(O_ENGINE, "symbolic bitreverse"); u128 r = 0; for (unsigned i = 0; i < I.w; i++) if ((a.v >> i) & 1) r |= (u128)1 << (I.w - 1 - i); F->regs[I.dst] = cv(r); break; }
    case OP_MINMAX: {
      Val a = rd(I.a), b = rd(I.b); bool sg = I.sub >= 2, mx = I.sub & 1; Val lt = icmp(sg ? P_SLT : P_ULT, a, b, I.w);
      if (!lt.e) { F->regs[I.dst] = (bool)lt.v != mx ? a : b; } else { ExprId x = ex(a, I.w), y = ex(b, I.w); F->regs[I.dst] = ev(mx ? mkIte(lt.e, y, x) : mkIte(lt.e, x, y)); }
      break;
    }
    case OP_SAT: {
      Val a = rd(I.a), b = rd(I.b); ExprId x = ex(a, I.w), y = ex(b, I.w);
      if (I.sub == 0) { ExprId s = mkBin(E_ADD, x, y); F->regs[I.dst] = ev(mkIte(mkBin(E_ULT, s, x), mkConst(maskw(I.w), I.w), s)); }
      else F->regs[I.dst] = ev(mkIte(mkBin(E_ULT, x, y), mkConst(0, I.w), mkBin(E_SUB, x, y)));
      break;
    }
    case OP_FSH: {
      Val a = rd(I.a), b = rd(I.b), c = rd(I.c); unsigned w = I.w; if (c.e) endPath(O_ENGINE, "symbolic funnel shift amount");
      unsigned s = (unsigned)(c.v % w); ExprId x = ex(a, w), y = ex(b, w);
      if (I.sub == 0) F->regs[I.dst] = s ? ev(mkConcat(mkExtract(x, 0, w - s), mkExtract(y, w - s, s))) : a;
      else F->regs[I.dst] = s ? ev(mkConcat(mkExtract(x, 0, s), mkExtract(y, s, w - s))) : b;
      break;
    }
    case OP_ABS: { Val a = rd(I.a); ExprId x = ex(a, I.w); F->regs[I.dst] = ev(mkIte(mkBin(E_SLT, x, mkConst(0, I.w)), mkBin(E_SUB, mkConst(0, I.w), x), x)); break; }
    case OP_FP: { ExprId r = fpOp(I.sub, I.sub2, ex(rd(I.a), I.imm), I.sub == FP_CMP ? ex(rd(I.b), I.imm) : 0, I.w); F->regs[I.dst] = isConst(r) ? cv(N[r].val) : ev(r); break; }
    case OP_BITCAST: {
      const BitcastInfo &b = F->f->bitcasts[I.ext]; ExprId e = 0; for (auto &s : b.src) { ExprId x = ex(rd(s.first), s.second); e = e ? mkConcat(x, e) : x; }
      unsigned lo = 0; for (size_t k = 0; k < b.dst.size(); k++) { F->regs[I.dst + k] = ev(mkExtract(e, lo, b.dst[k])); lo += b.dst[k]; }
      break;
    }
    case OP_CMPXCHG: {
      F->pc--; u64 p = concOp(I.a, "cmpxchg"); F->pc++; Val o = loadMem(p, I.w), e = rd(I.b), n = rd(I.c); if (o.e || e.e) endPath(O_ENGINE, "symbolic cmpxchg");
      bool eq = o.v == e.v; if (eq) storeMem(p, n, I.w); F->regs[I.dst] = o; F->regs[I.dst + 1] = cv(eq); break;
    }
    case OP_ARMW: {
      F->pc--; u64 p = concOp(I.a, "atomicrmw"); F->pc++; Val o = loadMem(p, I.w), v = rd(I.b); ExprId x = ex(o, I.w), y = ex(v, I.w), r;
      switch (I.sub) { case 0: r = y; break; case 1: r = mkBin(E_ADD, x, y); break; case 2: r = mkBin(E_SUB, x, y); break; case 3: r = mkBin(E_AND, x, y); break; case 4: r = mkBin(E_OR, x, y); break; case 5: r = mkBin(E_XOR, x, y); break; default: endPath(O_ENGINE, "atomicrmw kind"); }
      storeMem(p, ev(r), I.w); F->regs[I.dst] = o; break;
    }
    case OP_UNSUPPORTED: endPath(O_ENGINE, "unsupported instruction: %s", F->f->msgs[I.ext].c_str());
    default: endPath(O_ENGINE, "bad op %d", I.op);
    }
  }
}

static int entry;
static State *rootState() { State *s = new State; s->nextId = nGlob; pushFrame(*s, &funcs[entry], -1, nullptr); return s; }
static int workerId;
static u64 engineErrs = 0;
static void explore() {
  // returns when the local work list is empty
  while (!work.empty()) {
    if (SH->idle > 0 && SH->qn < SH->nworkers * 2 && work.size() > 1) {
      // give away the shallowest states
      size_t n = work.size() / 2; if (n > 4) n = 4; if (n < 1) n = 1; size_t k = 0;
      while (k < n && donate(work[k])) { delete work[k]; k++; }
      work.erase(work.begin(), work.begin() + k);
      if (work.empty()) break;
    }
    S = work.back(); work.pop_back();
    try { runState(); }
    catch (PathEnd &pe) {
      State &st = *S; if (st.replayLeft == 0) volAdd(st);
      if (pe.o != O_ASSERT || true) ST.paths[pe.o] += pe.o != O_ASSERT;
      switch (pe.o) {
      case O_OK: emitPath(st, O_OK, ""); break;
      case O_DEADEND: break;
      case O_ENGINE: SH->incomplete = 1; if (engineErrs++ < 5) { fprintf(outF, "E\t%s\t", pe.msg.c_str()); emitInputs(st, st.model); fprintf(outF, "\t%s\n", stackStr(st).c_str()); fflush(outF); } break;
      case O_ASSERT: break;
      default: violation(st, pe.o, 0, st.model, pe.msg); break;
      }
    }
    delete S; S = nullptr;
    if (SH->stop) { if (!work.empty()) SH->incomplete = 1; for (auto *s : work) delete s; work.clear(); }
  }
}
static void worker(int id, const char *outdir, bool first) {
  workerId = id; char b[512]; snprintf(b, sizeof b, "%s/w%d.txt", outdir, id); outF = fopen(b, "w"); if (!outF) _exit(70); static char iobuf[1 << 20]; setvbuf(outF, iobuf, _IOFBF, sizeof iobuf);
  solverInit(30000);
  if (first) { work.push_back(rootState()); explore(); }
  // idle loop
  SH->idle++;
  for (;;) {
    if (SH->stop) break;
    bool got = false; static Slot sl;
    if (SH->qn > 0) { lockS(); for (auto &s : SH->slots) if (s.used) { memcpy(&sl, &s, sizeof sl); s.used = 0; SH->qn--; SH->idle--; got = true; break; } unlockS(); }
    if (got) {
      State *st = rootState(); st->replayLeft = sl.nEvents; st->replayEv.assign(sl.ev, sl.ev + sizeof sl.ev); st->replayVals.assign(sl.vals, sl.vals + sl.nvals); ST.replays++;
      work.push_back(st); explore(); SH->idle++; continue;
    }
    if (SH->idle >= SH->nworkers && SH->qn == 0) { lockS(); bool fin = SH->qn == 0 && SH->idle >= SH->nworkers; unlockS(); if (fin) break; }
    usleep(300);
  }
  fprintf(outF, "S\t{\"steps\":%llu,\"forks\":%llu,\"events\":%llu,\"infeasible\":%llu,\"concretised\":%llu,\"replays\":%llu,\"z3\":%llu,\"z3sat\":%llu,\"z3unsat\":%llu,\"z3unknown\":%llu,\"z3time\":%.3f,\"cache\":%llu,\"modelhits\":%llu,\"domain\":%llu,\"assertTrivial\":%llu,\"assertQueries\":%llu,\"exprs\":%llu",
    (unsigned long long)ST.steps, (unsigned long long)ST.forks, (unsigned long long)ST.symEvents, (unsigned long long)ST.infeasible, (unsigned long long)ST.concretised, (unsigned long long)ST.replays, (unsigned long long)SS.z3Queries, (unsigned long long)SS.z3Sat, (unsigned long long)SS.z3Unsat, (unsigned long long)SS.z3Unknown, SS.z3Time, (unsigned long long)SS.cacheHits, (unsigned long long)SS.modelHits, (unsigned long long)SS.domainDecided, (unsigned long long)SS.assertTrivial, (unsigned long long)SS.assertQueries, (unsigned long long)N.size());
  for (int i = 0; i < 10; i++) fprintf(outF, ",\"p_%s\":%llu", outName[i], (unsigned long long)ST.paths[i]);
  fprintf(outF, ",\"vol\":%.17g,\"volUnknown\":%llu", volSum, (unsigned long long)volUnknown);
  fprintf(outF, ",\"emitted\":%llu", (unsigned long long)emitted);
  for (int i = 0; i < 64; i++) if (reachCnt[i]) fprintf(outF, ",\"r_%d\":%llu", i, (unsigned long long)reachCnt[i]);
  fprintf(outF, "}\n");
  for (auto &f : funcs) if (f.execCount && !f.hook) fprintf(outF, "F\t%llu\t%u\t%s\n", (unsigned long long)f.execCount, (unsigned)f.code.size(), demangle1(f.name).c_str());
  fclose(outF);
}

int main(int argc, char **argv) {
  std::string bc, ent, outdir = "."; int nw = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-e") ent = argv[++i]; else if (a == "-o") outdir = argv[++i]; else if (a == "-j") nw = atoi(argv[++i]);
    else if (a == "-p") { unsigned k; unsigned long long v; if (sscanf(argv[++i], "%u=%lli", &k, &v) == 2) params[k] = v; }
    else if (a == "-t") timeBudget = atof(argv[++i]); else if (a == "-s") maxSteps = strtoull(argv[++i], 0, 10); else if (a == "--paranoid") optParanoid = 1; else if (a == "-v") optVerbose = 1; else if (a == "--emit") emitAll = strtoull(argv[++i], 0, 10);
    else bc = a;
  }
  if (params.count(92)) HUGE_ALLOC = 1ull << params[92];
  mkdir(outdir.c_str(), 0777); exprInit(); loadModule(bc.c_str()); nGlob = gobjs.size(); globalObjs.assign(nGlob, nullptr);
  entry = findFunc(ent); if (entry < 0) { fprintf(stderr, "no entry %s\n", ent.c_str()); return 66; }
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->nworkers = nw;
  auto t0 = std::chrono::steady_clock::now(); std::vector<pid_t> kids;
  for (int i = 0; i < nw; i++) { pid_t p = fork(); if (p == 0) { worker(i, outdir.c_str(), i == 0); _exit(0); } kids.push_back(p); }
  int left = nw, bad = 0;
  while (left) {
    int stt; pid_t p = waitpid(-1, &stt, WNOHANG);
    if (p > 0) { left--; if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { bad = 1; SH->stop = 1; SH->incomplete = 1; fprintf(stderr, "worker failed: status %d\n", stt); } continue; }
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (el > timeBudget && !SH->stop) { SH->stop = 1; SH->incomplete = 1; }
    if (SH->stop && el > timeBudget + 60) { for (auto k : kids) kill(k, 9); }
    usleep(2000);
  }
  double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  printf("{\"wall\":%.3f,\"incomplete\":%d,\"violations\":%llu,\"failed\":%d}\n", el, (int)SH->incomplete, (unsigned long long)SH->viol, bad);
  fflush(stdout); _exit(bad ? 67 : 0);
}

// Flat executable form of the LLVM module (aggregates and vectors are scalarised).
#pragma once
#include "expr.h"
#include <string>
#include <vector>

enum Op : u8 {
  OP_BIN, OP_ICMP, OP_ZEXT, OP_SEXT, OP_TRUNC, OP_SELECT, OP_MOV, OP_LOAD, OP_STORE, OP_GEP, OP_ALLOCA,
  OP_BR, OP_CBR, OP_SWITCH, OP_CALL, OP_RET, OP_UNREACHABLE, OP_ADDO /*sub: kind*/, OP_MEMCPY, OP_MEMSET,
  OP_CTLZ, OP_CTTZ, OP_CTPOP, OP_BSWAP, OP_BITREV, OP_MINMAX, OP_SAT, OP_FSH, OP_ABS, OP_BITCAST, OP_CMPXCHG, OP_ARMW,
  OP_FP, OP_TRAP, OP_NOP, OP_UNSUPPORTED
};
enum Pred : u8 { P_EQ, P_NE, P_ULT, P_ULE, P_UGT, P_UGE, P_SLT, P_SLE, P_SGT, P_SGE };
enum OvKind : u8 { OV_UADD, OV_USUB, OV_UMUL, OV_SADD, OV_SSUB, OV_SMUL };

typedef int32_t Opnd; // >=0: register, <0: constant pool index ~x
struct Insn {
  u8 op, w, sub, sub2;
  int32_t dst; Opnd a, b, c;
  u32 ext; u64 imm;
};
struct Edge { u32 block; u32 pc; std::vector<std::pair<int32_t, Opnd>> moves; bool parallel; };
struct SwitchInfo { std::vector<std::pair<u128, u32>> cases; u32 def; }; // edges
struct GepInfo { std::vector<std::pair<Opnd, u64>> terms; std::vector<u8> widths; };
struct CallInfo { int callee; /* func index or -1 */ Opnd calleePtr; std::vector<Opnd> args; u32 nres; std::vector<u8> resw; int edge; /* invoke normal dest or -1 */ };
struct BitcastInfo { std::vector<std::pair<Opnd, u8>> src; std::vector<u8> dst; };

enum Hook : int { H_NONE = 0, H_PANIC, H_ABORT, H_ALLOC, H_ALLOC_ZEROED, H_DEALLOC, H_REALLOC, H_MALLOC, H_CALLOC, H_FREE, H_LIBC_REALLOC,
  H_MEMCMP, H_MEMCPY, H_MEMSET, H_STRLEN, H_FMT_WRITE, H_RANDKEYS, H_NOP,
  H_SX_VAR, H_SX_ASSUME, H_SX_ASSERT, H_SX_REACH, H_SX_OBSERVE, H_SX_PARAM, H_SX_CONC, H_SX_CHOICE, H_SX_HEAP, H_SX_HEAPRESET, H_SX_LIVE, H_EXTERN_UNKNOWN };

struct Func {
  std::string name; void *llvm = nullptr; bool isDecl = false; int hook = 0; bool translated = false;
  u32 nregs = 0; u32 nargs = 0; u64 addr = 0;
  std::vector<Insn> code; std::vector<Edge> edges; std::vector<SwitchInfo> switches; std::vector<GepInfo> geps; std::vector<CallInfo> calls;
  std::vector<std::vector<Opnd>> lists; std::vector<BitcastInfo> bitcasts; std::vector<std::string> msgs;
  u64 execCount = 0; bool inRepo = false;
};
struct GlobalObj { std::string name; std::vector<u8> bytes; bool constant = false; bool isFunc = false; int func = -1; bool materialised = false; void *llvm = nullptr; u64 size = 0; };

extern std::vector<Func> funcs;
extern std::vector<GlobalObj> gobjs; // id 1.. (index 0 unused)
extern std::vector<u128> cpool;
void loadModule(const char *path);
void translate(Func &f);
void materialiseGlobal(u32 id);
int findFunc(const std::string &name);

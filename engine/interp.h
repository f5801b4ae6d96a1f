#pragma once
#include "expr.h"
#include "mem.h"
#include "solver.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
namespace llvm { class Function; class Module; class Value; class Type; class Instruction; class Constant; class BasicBlock; }

struct Value { uint64_t u; Expr* e; };
enum TK : uint8_t { TK_INT, TK_F64, TK_F32, TK_WIDE };
struct TyI { TK k; uint16_t w; };

enum IOp : uint8_t {
  I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
  I_FADD, I_FSUB, I_FMUL, I_FDIV, I_FREM, I_FNEG, I_ICMP, I_FCMP, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA,
  I_CALL, I_RET, I_BR, I_CONDBR, I_SWITCH, I_TRUNC, I_ZEXT, I_SEXT, I_FPTOSI, I_FPTOUI, I_SITOFP, I_UITOFP,
  I_FPEXT, I_FPTRUNC, I_BITCAST, I_MOVE, I_INSELT, I_EXTELT, I_UNREACHABLE, I_RMW, I_CMPXCHG, I_FENCE, I_UNSUP
};
struct Inst {
  IOp op; TyI ty; TyI ty2;            // result type / operand type
  uint8_t sub = 0; bool atomic = false;
  uint16_t n = 1;                     // number of slots (vectors/aggregates)
  int32_t dst = -1, a = 0, b = 0, c = 0;
  int64_t imm = 0;
  int32_t ext = -1;                   // index into side tables
  llvm::Instruction* I = nullptr;
};
struct Copy { int32_t dst, src; };
struct Func;
struct CallInfo { Func* callee = nullptr; int32_t fnOp = 0; std::vector<int32_t> args; std::vector<TyI> argTy; std::vector<int32_t> flat; int builtin = -1; };
struct GepInfo { int64_t off; std::vector<std::tuple<int32_t, int64_t, uint16_t>> idx; };
struct SwitchInfo { std::vector<std::pair<uint64_t, std::pair<int, int>>> cases; std::pair<int, int> def; };
struct AggType { std::vector<std::pair<uint64_t, TyI>> leaves; };
struct Func {
  llvm::Function* F = nullptr; std::string name; bool decoded = false; int id = -1; uint64_t addr = 0;
  int nregs = 0; int nargs = 0; bool decl = false; int builtin = -1;
  std::vector<Inst> code; std::vector<int> bbStart;
  std::vector<std::vector<Copy>> copies; std::vector<CallInfo> calls; std::vector<GepInfo> geps; std::vector<SwitchInfo> switches; std::vector<AggType> aggs;
};
struct Frame { Func* f; int pc; Value* regs; uint64_t stackTop; int32_t retDst; int retN; uint64_t rpSave; };
struct Thread {
  int id; std::vector<Frame> st; Value* regBase; uint64_t regTop = 0; uint64_t stackTop, stackLimit;
  enum { RUN, MUTEX, COND, JOIN, DONE } state = RUN; uint64_t wait = 0, wait2 = 0; int joinId = -1; bool notified = false;
  std::map<uint64_t, uint64_t> clock;
};

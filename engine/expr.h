// Hash-consed bit-vector expressions, evaluation, simplification and z3 translation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <algorithm>
#include <cmath>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

[[noreturn]] void engine_error(const std::string& msg);

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}

enum Op : u8 {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_UREM, O_SDIV, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_CONCAT, O_EXTRACT, O_SEXT, O_ITE, O_TBL,
  // floating point (operands/results are IEEE bit patterns of width 32/64)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FOEQ, O_FOLT, O_FOLE, O_FUNO, O_UITOFP, O_SITOFP, O_FPTOUI, O_FPTOSI, O_FPTOUISAT, O_FPTOSISAT,
  O_FFLOOR, O_FTRUNC, O_FCEIL, O_FROUNDEVEN, O_FABS, O_FPEXT, O_FPTRUNC
};

struct VarSet { std::vector<u64> b; u64 hash = 0; int count = 0; int first = -1; };
struct Table { std::vector<u64> v; unsigned w; };

struct Expr {
  Op op; u8 nk; uint16_t w; u32 id;
  Expr* k[3];
  u128 c;          // constant value / var index / extract low bit / source width
  VarSet* vs;
  u64 lo, hi;      // unsigned bounds (w<=64)
  Table* tbl;
  mutable u32 gen; mutable u128 ev;
  Z3_ast z;
};

struct Model { std::vector<u8> v; u32 gen = 0; };
typedef std::shared_ptr<Model> ModelP;

extern std::vector<Expr*> g_vars;          // all byte variables created in this process
extern u32 g_eval_gen;
extern u64 g_nexpr;

Expr* eConst(u128 c, unsigned w);
Expr* eVar(unsigned idx);
Expr* eBin(Op op, Expr* a, Expr* b);
Expr* eConcat(Expr* hi, Expr* lo);
Expr* eExtract(Expr* a, unsigned lo, unsigned w);
Expr* eExtractMem(Expr* a, unsigned lo, unsigned w);
Expr* eZext(Expr* a, unsigned w);
Expr* eSext(Expr* a, unsigned w);
Expr* eIte(Expr* c, Expr* a, Expr* b);
Expr* eTbl(Expr* idx, Table* t);
Expr* eFp(Op op, unsigned w, Expr* a, Expr* b = nullptr);
static inline Expr* eNot1(Expr* a) { return eBin(O_XOR, a, eConst(1, 1)); }
static inline bool isC(Expr* e) { return e->op == O_CONST; }

u128 evalExpr(Expr* e, const Model& m);
std::string exprStr(Expr* e, int depth = 6);
u128 evalOp(Op op, unsigned w, u128 a, u128 b, unsigned wa);

Z3_ast toZ3(Z3_context ctx, Expr* e);
bool hasFp(Expr* e);

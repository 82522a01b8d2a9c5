// LLVM textual IR loader (the subset rustc emits after opt's lower-invoke/scalarizer/lower-atomic).
#pragma once
#include "expr.h"
#include <unordered_set>

enum TK : u8 { T_VOID, T_INT, T_PTR, T_FLT, T_DBL, T_ARR, T_STRUCT, T_VEC, T_LABEL, T_META, T_FUNC };
struct Type {
  TK k; unsigned bits = 0; u64 n = 0; bool packed = false; std::vector<Type*> el; std::vector<u64> off;
  u64 size = 0, align = 1; unsigned nslots = 0; u64 elsize = 0;
  unsigned width() const { return bits; }
};
struct Opd { int slot = -1; u32 cidx = 0; Type* t = nullptr; };   // slot>=0: register; else constants[cidx..]
struct PhiCopy { u32 dst; Opd src; u32 n; };
struct Edge { int block = -1; std::vector<PhiCopy> copies; };
struct GepIdx { Opd op; u64 scale; };
enum IC : u8 {
  I_BIN, I_ICMP, I_FCMP, I_FBIN, I_CAST, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_SELECT, I_EXTRACTV, I_INSERTV,
  I_EXTRACTE, I_INSERTE, I_SHUFFLE, I_UNREACH, I_FREEZE, I_FNEG, I_FENCE, I_NOP, I_ATOMICRMW, I_CMPXCHG
};
enum CastK : u8 { C_TRUNC, C_ZEXT, C_SEXT, C_PTRINT, C_BITCAST, C_UITOFP, C_SITOFP, C_FPTOUI, C_FPTOSI, C_FPEXT, C_FPTRUNC };
struct Func;
struct Instr {
  IC ic; u8 sub = 0; u8 pred = 0; int dbg = -1; u32 dst = 0; Type* t = nullptr; Type* t2 = nullptr;
  std::vector<Opd> ops; std::vector<Edge> edges; std::vector<u128> cases; std::vector<GepIdx> gep; u64 imm = 0; std::vector<int> idxs;
  Func* callee = nullptr; int intr = 0; u64 execs = 0;
};
struct Block { std::vector<Instr> in; std::string name; };
struct Func {
  std::string name; u64 addr = 0; bool defined = false; Type* ret = nullptr; std::vector<Type*> params; std::vector<u32> pslot; bool vararg = false, noreturn = false;
  std::vector<Block> bl; u32 nslots = 0; std::vector<u128> consts; u64 frameSize = 0; int ext = 0; int subprogram = -1; bool isPanic = false, isFmt = false; u64 calls = 0;
  size_t bodyPos = 0, bodyEnd = 0; bool parsed = false;
};
struct Global { std::string name; u64 addr = 0, size = 0, align = 1; bool constant = false, ext = false; Type* t = nullptr; size_t initPos = 0; std::vector<u8> data; };
struct DILoc { int line, scope, inl; };
struct DIScope { int parent, file; int line; std::string name; bool sub; };

struct Module {
  std::string src;
  std::vector<Func*> funcs; std::unordered_map<std::string, Func*> fmap; std::unordered_map<u64, Func*> faddr;
  std::vector<Global*> globals; std::unordered_map<std::string, Global*> gmap;
  std::unordered_map<int, DILoc> locs; std::unordered_map<int, DIScope> scopes; std::unordered_map<int, std::string> files;
  void load(const std::string& path);
  void parseBody(Func* f);
};
extern Module g_mod;

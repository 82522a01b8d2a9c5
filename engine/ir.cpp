#include "ir.h"
#include <fstream>
#include <sstream>

Module g_mod;
static std::unordered_map<std::string, Type*> namedTypes;
static Type *tVoid, *tPtr, *tFlt, *tDbl, *tLabel, *tMeta;
static std::unordered_map<unsigned, Type*> intTypes;

static Type* intT(unsigned b) { Type*& t = intTypes[b]; if (!t) { t = new Type; t->k = T_INT; t->bits = b; t->size = (b + 7) / 8; if (b > 64) t->size = 16; else { u64 s = 1; while (s < t->size) s *= 2; t->size = s; } t->align = t->size > 16 ? 16 : t->size; t->nslots = 1; } return t; }
static void initTypes() {
  auto m = [](TK k, unsigned b, u64 s) { Type* t = new Type; t->k = k; t->bits = b; t->size = s; t->align = s ? s : 1; t->nslots = (k == T_VOID || k == T_LABEL || k == T_META) ? 0 : 1; return t; };
  tVoid = m(T_VOID, 0, 0); tPtr = m(T_PTR, 64, 8); tFlt = m(T_FLT, 32, 4); tDbl = m(T_DBL, 64, 8); tLabel = m(T_LABEL, 0, 0); tMeta = m(T_META, 0, 0);
}
static void layout(Type* t) {
  if (t->k == T_ARR) { Type* e = t->el[0]; t->elsize = (e->size + e->align - 1) / e->align * e->align; t->size = t->elsize * t->n; t->align = e->align; t->nslots = (unsigned)std::min<u64>(t->n * e->nslots, 1u << 30); }
  else if (t->k == T_VEC) { Type* e = t->el[0]; t->elsize = e->size; t->size = e->bits * t->n / 8; if (!t->size) t->size = 1; t->align = t->size ? t->size : 1; t->nslots = t->n * e->nslots; }
  else if (t->k == T_STRUCT) {
    u64 o = 0, al = 1; t->nslots = 0; t->off.clear();
    for (Type* e : t->el) { u64 a = t->packed ? 1 : e->align; o = (o + a - 1) / a * a; t->off.push_back(o); o += e->size; al = std::max(al, a); t->nslots += e->nslots; }
    t->size = (o + al - 1) / al * al; t->align = al;
  }
}

struct Lx {
  const char* s; size_t p; size_t end;
  Lx(const std::string& str, size_t a, size_t e) : s(str.data()), p(a), end(e) {}
  void ws() { while (p < end && (s[p] == ' ' || s[p] == '\t')) p++; }
  void wsnl() { while (p < end && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n')) p++; }
  bool eol() { ws(); return p >= end || s[p] == '\n' || s[p] == ';'; }
  void skipLine() { while (p < end && s[p] != '\n') p++; if (p < end) p++; }
  char peek() { ws(); return p < end ? s[p] : 0; }
  bool acc(char c) { ws(); if (p < end && s[p] == c) { p++; return true; } return false; }
  [[noreturn]] void fail(const std::string& m) { size_t a = p; while (a > 0 && s[a - 1] != '\n') a--; size_t b = p; while (b < end && s[b] != '\n') b++; engine_error("IR parse: " + m + " at col " + std::to_string(p - a) + " in: " + std::string(s + a, std::min<size_t>(b - a, 400))); }
  void exp(char c) { if (!acc(c)) fail(std::string("expected '") + c + "'"); }
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  std::string word() { ws(); size_t a = p; while (p < end && idc(s[p])) p++; return std::string(s + a, p - a); }
  std::string peekWord() { ws(); size_t a = p; while (a < end && idc(s[a])) a++; return std::string(s + p, a - p); }
  bool accW(const char* w) { if (peekWord() == w) { word(); return true; } return false; }
  std::string name() {  // after % or @
    if (s[p] == '"') { p++; size_t a = p; while (s[p] != '"') p++; std::string r(s + a, p - a); p++; return r; }
    size_t a = p; while (p < end && idc(s[p])) p++; return std::string(s + a, p - a);
  }
  void skipParens() { exp('('); int d = 1; while (d) { char c = s[p++]; if (c == '(') d++; else if (c == ')') d--; else if (c == '"') { while (s[p] != '"') p++; p++; } } }
};

static Type* parseType(Lx& l);
static Type* parseType0(Lx& l) {
  l.ws(); char c = l.s[l.p];
  if (c == '[') { l.p++; u64 n = strtoull(l.word().c_str(), 0, 10); if (!l.accW("x")) l.fail("x"); Type* t = new Type; t->k = T_ARR; t->n = n; t->el.push_back(parseType(l)); l.exp(']'); layout(t); return t; }
  if (c == '<') {
    l.p++; if (l.peek() == '{') { l.exp('{'); Type* t = new Type; t->k = T_STRUCT; t->packed = true; if (!l.acc('}')) { do t->el.push_back(parseType(l)); while (l.acc(',')); l.exp('}'); } l.exp('>'); layout(t); return t; }
    u64 n = strtoull(l.word().c_str(), 0, 10); if (!l.accW("x")) l.fail("x"); Type* t = new Type; t->k = T_VEC; t->n = n; t->el.push_back(parseType(l)); l.exp('>'); layout(t); return t;
  }
  if (c == '{') { l.p++; Type* t = new Type; t->k = T_STRUCT; if (!l.acc('}')) { do t->el.push_back(parseType(l)); while (l.acc(',')); l.exp('}'); } layout(t); return t; }
  if (c == '%') { l.p++; std::string n = l.name(); auto it = namedTypes.find(n); if (it == namedTypes.end()) l.fail("unknown type " + n); return it->second; }
  std::string w = l.word();
  if (w == "ptr") { if (l.peekWord() == "addrspace") { l.word(); l.skipParens(); } return tPtr; }
  if (w == "void") return tVoid; if (w == "float") return tFlt; if (w == "double") return tDbl; if (w == "label") return tLabel; if (w == "metadata") return tMeta; if (w == "token") return tMeta;
  if (w.size() > 1 && w[0] == 'i' && isdigit(w[1])) return intT(atoi(w.c_str() + 1));
  l.fail("type '" + w + "'");
}
static std::unordered_map<std::string, Type*> typeCache;
static Type* parseType(Lx& l) {
  l.ws(); size_t a = l.p; Type* t = parseType0(l);
  if (t->k == T_ARR || t->k == T_STRUCT || t->k == T_VEC) { std::string key(l.s + a, l.p - a); auto it = typeCache.find(key); if (it != typeCache.end()) return it->second; typeCache[key] = t; }
  return t;
}

// constant -> flattened scalar list
static u128 parseNum(const std::string& w, unsigned bits) {
  bool neg = w[0] == '-'; u128 v = 0; for (size_t i = neg; i < w.size(); i++) { if (!isdigit((unsigned char)w[i])) engine_error("number '" + w + "'"); v = v * 10 + (w[i] - '0'); }
  if (neg) v = (u128)0 - v; return v & maskw(bits);
}
static u64 globalAddr(Lx& l, const std::string& n) {
  auto f = g_mod.fmap.find(n); if (f != g_mod.fmap.end()) return f->second->addr;
  auto g = g_mod.gmap.find(n); if (g != g_mod.gmap.end()) return g->second->addr;
  l.fail("unknown global @" + n);
}
static void parseConst(Lx& l, Type* t, std::vector<u128>& out);
static u128 parseConst1(Lx& l, Type* t) { std::vector<u128> v; parseConst(l, t, v); if (v.size() != 1) l.fail("scalar const"); return v[0]; }
static void skipFlags(Lx& l) { while (true) { std::string w = l.peekWord(); if (w == "nuw" || w == "nsw" || w == "exact" || w == "inbounds" || w == "nusw" || w == "disjoint" || w == "nneg" || w == "samesign" || w == "fast" || w == "nnan" || w == "ninf" || w == "nsz" || w == "arcp" || w == "contract" || w == "afn" || w == "reassoc") l.word(); else if (w == "inrange") { l.word(); l.skipParens(); } else break; } }
static u128 constExpr(Lx& l, const std::string& op) {
  skipFlags(l);
  l.exp('('); u128 r = 0;
  if (op == "getelementptr") {
    skipFlags(l); Type* bt = parseType(l); l.exp(','); Type* pt = parseType(l); u128 base = parseConst1(l, pt); bool first = true; Type* cur = bt; u64 off = 0;
    while (l.acc(',')) {
      Type* it = parseType(l); i128 ix = sextw(parseConst1(l, it), it->bits);
      if (first) { off += (u64)ix * ((bt->size + bt->align - 1) / bt->align * bt->align); first = false; }
      else if (cur->k == T_STRUCT) { off += cur->off[(size_t)ix]; cur = cur->el[(size_t)ix]; }
      else { off += (u64)ix * cur->elsize; cur = cur->el[0]; }
    }
    r = (u64)base + off;
  } else if (op == "ptrtoint" || op == "inttoptr" || op == "trunc" || op == "bitcast" || op == "addrspacecast" || op == "ptrtoaddr") {
    Type* t = parseType(l); u128 v = parseConst1(l, t); if (!l.accW("to")) l.fail("to"); Type* t2 = parseType(l); r = v & maskw(t2->bits);
  } else if (op == "add" || op == "sub" || op == "xor") {
    Type* t = parseType(l); u128 a = parseConst1(l, t); l.exp(','); Type* t2 = parseType(l); u128 b = parseConst1(l, t2);
    r = (op == "add" ? a + b : op == "sub" ? a - b : a ^ b) & maskw(t->bits);
  } else l.fail("constexpr " + op);
  l.exp(')'); return r;
}
static void zeros(Type* t, std::vector<u128>& out) { for (unsigned i = 0; i < t->nslots; i++) out.push_back(0); }
static void parseConst(Lx& l, Type* t, std::vector<u128>& out) {
  l.ws(); char c = l.s[l.p];
  if (c == '@') { l.p++; out.push_back(globalAddr(l, l.name())); return; }
  if (c == 'c' && l.s[l.p + 1] == '"') {
    l.p += 2; while (l.s[l.p] != '"') { if (l.s[l.p] == '\\') { if (l.s[l.p+1]=='\\') { out.push_back('\\'); l.p += 2; } else { char b[3] = {l.s[l.p + 1], l.s[l.p + 2], 0}; out.push_back(strtoul(b, 0, 16)); l.p += 3; } } else out.push_back((u8)l.s[l.p++]); } l.p++; return;
  }
  if (c == '[' || c == '{' || (c == '<')) {
    bool ps = c == '<' && l.s[l.p + 1] == '{'; l.p += ps ? 2 : 1; char close = c == '[' ? ']' : c == '{' ? '}' : ps ? '}' : '>';
    if (l.acc(close)) { if (ps) l.exp('>'); return; }
    do { Type* et = parseType(l); parseConst(l, et, out); } while (l.acc(','));
    l.exp(close); if (ps) l.exp('>'); return;
  }
  std::string w = l.word();
  if (w == "true") { out.push_back(1); return; } if (w == "false" || w == "null") { out.push_back(0); return; }
  if (w == "none") { zeros(t, out); return; }
  if (w == "undef" || w == "poison" || w == "zeroinitializer") { zeros(t, out); return; }
  if (w == "splat") { l.exp('('); Type* et = parseType(l); std::vector<u128> v; parseConst(l, et, v); l.exp(')'); for (u64 i = 0; i < t->n; i++) out.insert(out.end(), v.begin(), v.end()); return; }
  if (w == "getelementptr" || w == "ptrtoint" || w == "inttoptr" || w == "trunc" || w == "add" || w == "sub" || w == "xor" || w == "bitcast" || w == "ptrtoaddr") { out.push_back(constExpr(l, w)); return; }
  if (t->k == T_DBL || t->k == T_FLT) {
    double d;
    if (w.size() > 2 && w[0] == '0' && w[1] == 'x') { u64 x = strtoull(w.c_str() + 2, 0, 16); memcpy(&d, &x, 8); }
    else if (w.size() > 3 && w[0] == 'f' && w[1] == '0' && w[2] == 'x') { u64 x = strtoull(w.c_str() + 3, 0, 16); out.push_back(x); return; }
    else { if (l.s[l.p] == '+') { l.p++; w += "+" + l.word(); } d = strtod(w.c_str(), 0); }
    if (t->k == T_DBL) { u64 x; memcpy(&x, &d, 8); out.push_back(x); } else { float f = (float)d; u32 x; memcpy(&x, &f, 4); out.push_back(x); } return;
  }
  if (w.empty() || !(isdigit((unsigned char)w[0]) || w[0] == '-')) l.fail("const '" + w + "'");
  out.push_back(parseNum(w, t->bits));
}
static void storeFlat(Type* t, const std::vector<u128>& v, size_t& i, std::vector<u8>& d, u64 off) {
  switch (t->k) {
    case T_STRUCT: for (size_t k = 0; k < t->el.size(); k++) storeFlat(t->el[k], v, i, d, off + t->off[k]); break;
    case T_ARR: case T_VEC: for (u64 k = 0; k < t->n; k++) storeFlat(t->el[0], v, i, d, off + k * t->elsize); break;
    default: { u128 x = v[i++]; for (u64 b = 0; b < t->size; b++) d[off + b] = (u8)(x >> (8 * b)); }
  }
}

// skip attributes before an operand/parameter value
static void skipAttrs(Lx& l) {
  while (true) {
    l.ws(); char c = l.s[l.p];
    if (c == '"') { l.p++; while (l.s[l.p] != '"') l.p++; l.p++; if (l.acc('=')) { l.exp('"'); while (l.s[l.p] != '"') l.p++; l.p++; } continue; }
    if (c == '#') { l.p++; l.word(); continue; }
    std::string w = l.peekWord();
    static const std::unordered_set<std::string> A = {"noundef","nonnull","noalias","nocapture","readonly","readnone","writeonly","writable","zeroext","signext","inreg","returned","nofree","nest","immarg","allocptr","allocalign","dead_on_unwind","dead_on_return","noext","swiftself","swifterror","swiftasync","nounwind","unnamed_addr","local_unnamed_addr","willreturn","mustprogress","cold","noreturn","memory","noinline"};
    static const std::unordered_set<std::string> P = {"dereferenceable","dereferenceable_or_null","captures","range","sret","byval","initializes","nofpclass","elementtype","byref","inalloca","preallocated","alignstack","memory","dead_on_return","addrspace"};
    if (w == "align") { l.word(); if (l.peek() == '(') l.skipParens(); else l.word(); continue; }
    if (P.count(w)) { l.word(); if (l.peek() == '(') l.skipParens(); continue; }
    if (A.count(w)) { l.word(); continue; }
    break;
  }
}

enum { PH_NONE };
struct FnParse { Func* f; std::unordered_map<std::string, u32> slot; std::unordered_map<std::string, int> blk; std::unordered_map<u128*, int> x; std::map<std::pair<u64,u64>, u32> cc; };

static u32 addConsts(FnParse& P, const std::vector<u128>& v) {
  if (v.size() == 1) { auto key = std::make_pair((u64)v[0], (u64)(v[0] >> 64)); auto it = P.cc.find(key); if (it != P.cc.end()) return it->second; u32 i = P.f->consts.size(); P.f->consts.push_back(v[0]); P.cc[key] = i; return i; }
  u32 i = P.f->consts.size(); P.f->consts.insert(P.f->consts.end(), v.begin(), v.end()); return i;
}
static u32 slotOf(FnParse& P, const std::string& n, Type* t) {
  auto it = P.slot.find(n); if (it != P.slot.end()) return it->second;
  u32 s = P.f->nslots; P.f->nslots += std::max(1u, t->nslots); P.slot[n] = s; return s;
}
static Opd parseOpd(Lx& l, FnParse& P, Type* t) {
  skipAttrs(l); Opd o; o.t = t; l.ws();
  if (t->k == T_META) { // metadata operand: skip to , or )
    int d = 0; while (true) { char c = l.s[l.p]; if (c == '(' || c == '{') d++; if (c == ')' || c == '}') { if (!d) break; d--; } if (c == ',' && !d) break; l.p++; } return o; }
  if (l.s[l.p] == '%') { l.p++; o.slot = slotOf(P, l.name(), t); return o; }
  if (l.peekWord() == "asm") { while (l.s[l.p] != '(' ) { if (l.s[l.p] == '"') { l.p++; while (l.s[l.p] != '"') l.p++; } l.p++; } o.slot = -2; return o; }
  std::vector<u128> v; parseConst(l, t, v); o.cidx = addConsts(P, v); return o;
}
static Opd parseTOpd(Lx& l, FnParse& P) { Type* t = parseType(l); return parseOpd(l, P, t); }
static int blockOf(FnParse& P, const std::string& n) { auto it = P.blk.find(n); if (it == P.blk.end()) engine_error("unknown block %" + n + " in " + P.f->name); return it->second; }

static const std::unordered_map<std::string, Op> BINOPS = {{"add",O_ADD},{"sub",O_SUB},{"mul",O_MUL},{"udiv",O_UDIV},{"urem",O_UREM},{"sdiv",O_SDIV},{"srem",O_SREM},{"and",O_AND},{"or",O_OR},{"xor",O_XOR},{"shl",O_SHL},{"lshr",O_LSHR},{"ashr",O_ASHR}};
static const std::unordered_map<std::string, Op> FBINOPS = {{"fadd",O_FADD},{"fsub",O_FSUB},{"fmul",O_FMUL},{"fdiv",O_FDIV}};
static const std::unordered_map<std::string, CastK> CASTS = {{"trunc",C_TRUNC},{"zext",C_ZEXT},{"sext",C_SEXT},{"ptrtoint",C_PTRINT},{"inttoptr",C_PTRINT},{"ptrtoaddr",C_PTRINT},{"bitcast",C_BITCAST},{"uitofp",C_UITOFP},{"sitofp",C_SITOFP},{"fptoui",C_FPTOUI},{"fptosi",C_FPTOSI},{"fpext",C_FPEXT},{"fptrunc",C_FPTRUNC},{"addrspacecast",C_PTRINT}};
static const std::vector<std::string> ICMPS = {"eq","ne","ugt","uge","ult","ule","sgt","sge","slt","sle"};
static const std::vector<std::string> FCMPS = {"false","oeq","ogt","oge","olt","ole","one","ord","ueq","ugt","uge","ult","ule","une","uno","true"};

static unsigned slotOff(Type* t, const std::vector<int>& idx, Type*& out) {
  unsigned o = 0; for (int i : idx) { if (t->k == T_STRUCT) { for (int k = 0; k < i; k++) o += t->el[k]->nslots; t = t->el[i]; } else { o += i * t->el[0]->nslots; t = t->el[0]; } } out = t; return o;
}

struct PhiRec { int block; u32 dst; Type* t; std::vector<std::pair<Opd, std::string>> in; };

void Module::parseBody(Func* f) {
  if (f->parsed) return; f->parsed = true;
  Lx l(src, f->bodyPos, f->bodyEnd); FnParse P; P.f = f;
  // params got slots at header parse time under their names
  // first pass: block labels
  {
    Lx q(src, f->bodyPos, f->bodyEnd); bool first = true; std::string firstName;
    // entry block may be unlabeled: its implicit name is the next unnamed number (= number of unnamed params); we never branch to it
    while (q.p < q.end) {
      size_t a = q.p; size_t b = a; while (b < q.end && src[b] != '\n') b++;
      if (b > a && src[a] != ' ' && src[a] != '}' && src[a] != '\t' && src[a] != ';') {
        Lx z(src, a, b); std::string n = src[a] == '"' ? z.name() : z.name();
        if (first && f->bl.empty()) {}
        P.blk[n] = f->bl.size(); f->bl.emplace_back(); f->bl.back().name = n;
      } else if (first && b > a) { P.blk["<entry>"] = 0; f->bl.emplace_back(); f->bl.back().name = "<entry>"; }
      first = false; q.p = b + 1;
    }
  }
  for (size_t i = 0; i < f->params.size(); i++) {}
  // parameters: re-parse names from header stored in pnames via P.slot
  extern std::unordered_map<Func*, std::vector<std::string>> g_pnames;
  { auto& pn = g_pnames[f]; for (size_t i = 0; i < pn.size(); i++) { P.slot[pn[i]] = f->nslots; f->pslot.push_back(f->nslots); f->nslots += std::max(1u, f->params[i]->nslots); } }
  std::vector<PhiRec> phis; int cur = 0; bool started = false;
  while (l.p < l.end) {
    if (src[l.p] == '\n') { l.p++; continue; }
    if (src[l.p] != ' ' && src[l.p] != '\t') { // label or }
      if (src[l.p] == '}') break;
      if (src[l.p] == ';') { l.skipLine(); continue; }
      std::string n = l.name(); cur = blockOf(P, n); started = true; l.skipLine(); continue;
    }
    if (!started) { cur = 0; started = true; }
    l.ws(); if (l.s[l.p] == '#') { l.skipLine(); continue; }
    if (l.s[l.p] == ';') { l.skipLine(); continue; }
    std::string res; bool hasRes = false;
    if (l.s[l.p] == '%') { l.p++; res = l.name(); l.exp('='); hasRes = true; }
    Instr I; std::string op = l.word(); bool skip = false;
    auto setDst = [&](Type* t) { I.t = t; if (hasRes) I.dst = slotOf(P, res, t); };
    auto bi = BINOPS.find(op); auto fi = FBINOPS.find(op); auto ci = CASTS.find(op);
    if (bi != BINOPS.end()) { skipFlags(l); I.ic = I_BIN; I.sub = bi->second; Type* t = parseType(l); I.ops.push_back(parseOpd(l, P, t)); l.exp(','); I.ops.push_back(parseOpd(l, P, t)); setDst(t); }
    else if (fi != FBINOPS.end()) { skipFlags(l); I.ic = I_FBIN; I.sub = fi->second; Type* t = parseType(l); I.ops.push_back(parseOpd(l, P, t)); l.exp(','); I.ops.push_back(parseOpd(l, P, t)); setDst(t); }
    else if (ci != CASTS.end()) { skipFlags(l); I.ic = I_CAST; I.sub = ci->second; I.ops.push_back(parseTOpd(l, P)); if (!l.accW("to")) l.fail("to"); setDst(parseType(l)); }
    else if (op == "fneg") { skipFlags(l); I.ic = I_FNEG; I.ops.push_back(parseTOpd(l, P)); setDst(I.ops[0].t); }
    else if (op == "icmp" || op == "fcmp") {
      skipFlags(l); std::string p = l.word(); auto& tab = op == "icmp" ? ICMPS : FCMPS; I.ic = op == "icmp" ? I_ICMP : I_FCMP; bool ok = false; for (size_t i = 0; i < tab.size(); i++) if (tab[i] == p) { I.pred = i; ok = true; } if (!ok) l.fail("pred");
      Type* t = parseType(l); I.ops.push_back(parseOpd(l, P, t)); l.exp(','); I.ops.push_back(parseOpd(l, P, t));
      Type* rt = intT(1); if (t->k == T_VEC) { rt = new Type; rt->k = T_VEC; rt->n = t->n; rt->el.push_back(intT(1)); layout(rt); } setDst(rt);
    }
    else if (op == "load") { I.ic = I_LOAD; l.accW("atomic"); l.accW("volatile"); Type* t = parseType(l); l.exp(','); I.ops.push_back(parseTOpd(l, P)); setDst(t); }
    else if (op == "store") { I.ic = I_STORE; l.accW("atomic"); l.accW("volatile"); I.ops.push_back(parseTOpd(l, P)); l.exp(','); I.ops.push_back(parseTOpd(l, P)); I.t = I.ops[0].t; }
    else if (op == "getelementptr") {
      skipFlags(l); I.ic = I_GEP; Type* bt = parseType(l); l.exp(','); I.ops.push_back(parseTOpd(l, P)); bool first = true; Type* c = bt; u64 off = 0;
      while (l.acc(',')) {
        l.ws(); if (l.s[l.p] == '!') break;
        Type* it = parseType(l); Opd o = parseOpd(l, P, it); u64 scale;
        if (first) { scale = (bt->size + bt->align - 1) / bt->align * bt->align; first = false; }
        else if (c->k == T_STRUCT) { size_t ix = (size_t)f->consts[o.cidx]; off += c->off[ix]; c = c->el[ix]; continue; }
        else { scale = c->elsize; c = c->el[0]; }
        if (o.slot == -1) off += (u64)sextw(f->consts[o.cidx], it->bits) * scale; else I.gep.push_back({o, scale});
      }
      I.imm = off; setDst(tPtr);
    }
    else if (op == "alloca") { I.ic = I_ALLOCA; l.accW("inalloca"); Type* t = parseType(l); u64 n = 1, al = t->align; while (l.acc(',')) { l.ws(); if (l.s[l.p] == '!') break; if (l.accW("align")) al = atoi(l.word().c_str()); else { Type* it = parseType(l); n = (u64)parseConst1(l, it); } }
      f->frameSize = (f->frameSize + al - 1) / al * al; I.imm = f->frameSize; f->frameSize += t->size * n + 8; setDst(tPtr); }
    else if (op == "br") {
      if (l.accW("label")) { I.ic = I_BR; l.exp('%'); I.edges.resize(1); I.edges[0].block = blockOf(P, l.name()); }
      else { I.ic = I_CBR; I.ops.push_back(parseTOpd(l, P)); I.edges.resize(2); for (int i = 0; i < 2; i++) { l.exp(','); if (!l.accW("label")) l.fail("label"); l.exp('%'); I.edges[i].block = blockOf(P, l.name()); } }
    }
    else if (op == "switch") {
      I.ic = I_SWITCH; I.ops.push_back(parseTOpd(l, P)); l.exp(','); if (!l.accW("label")) l.fail("label"); l.exp('%'); I.edges.resize(1); I.edges[0].block = blockOf(P, l.name()); l.exp('[');
      while (true) { l.wsnl(); if (l.acc(']')) break; Type* t = parseType(l); u128 v = parseConst1(l, t); l.exp(','); if (!l.accW("label")) l.fail("label"); l.exp('%'); I.cases.push_back(v); Edge e; e.block = blockOf(P, l.name()); I.edges.push_back(e); }
    }
    else if (op == "ret") { I.ic = I_RET; Type* t = parseType(l); if (t->k != T_VOID) I.ops.push_back(parseOpd(l, P, t)); }
    else if (op == "unreachable") I.ic = I_UNREACH;
    else if (op == "phi") {
      skipFlags(l); Type* t = parseType(l); PhiRec r; r.block = cur; r.t = t; r.dst = slotOf(P, res, t);
      do { l.ws(); if (l.s[l.p] != '[') break; l.exp('['); Opd o = parseOpd(l, P, t); l.exp(','); l.exp('%'); std::string n = l.name(); l.exp(']'); r.in.push_back({o, n}); } while (l.acc(','));
      phis.push_back(r); skip = true;
    }
    else if (op == "select") { skipFlags(l); I.ic = I_SELECT; for (int i = 0; i < 3; i++) { if (i) l.exp(','); I.ops.push_back(parseTOpd(l, P)); } setDst(I.ops[1].t); }
    else if (op == "extractvalue" || op == "insertvalue") {
      bool ins = op == "insertvalue"; I.ic = ins ? I_INSERTV : I_EXTRACTV; I.ops.push_back(parseTOpd(l, P)); if (ins) { l.exp(','); I.ops.push_back(parseTOpd(l, P)); }
      std::vector<int> ix; while (l.acc(',')) { l.ws(); if (!isdigit((unsigned char)l.s[l.p])) break; ix.push_back(atoi(l.word().c_str())); }
      Type* o; I.imm = slotOff(I.ops[0].t, ix, o); setDst(ins ? I.ops[0].t : o);
    }
    else if (op == "extractelement") { I.ic = I_EXTRACTE; I.ops.push_back(parseTOpd(l, P)); l.exp(','); I.ops.push_back(parseTOpd(l, P)); setDst(I.ops[0].t->el[0]); }
    else if (op == "insertelement") { I.ic = I_INSERTE; for (int i = 0; i < 3; i++) { if (i) l.exp(','); I.ops.push_back(parseTOpd(l, P)); } setDst(I.ops[0].t); }
    else if (op == "shufflevector") {
      I.ic = I_SHUFFLE; I.ops.push_back(parseTOpd(l, P)); l.exp(','); I.ops.push_back(parseTOpd(l, P)); l.exp(','); Type* mt = parseType(l); l.ws();
      std::vector<u128> v; parseConst(l, mt, v); for (u128 x : v) I.idxs.push_back((int)(u32)x);
      Type* rt = new Type; rt->k = T_VEC; rt->n = mt->n; rt->el.push_back(I.ops[0].t->el[0]); layout(rt); setDst(rt);
    }
    else if (op == "freeze") { I.ic = I_FREEZE; I.ops.push_back(parseTOpd(l, P)); setDst(I.ops[0].t); }
    else if (op == "fence") { I.ic = I_NOP; }
    else if (op == "atomicrmw") { I.ic = I_ATOMICRMW; l.accW("volatile"); std::string k = l.word(); static const std::vector<std::string> K = {"xchg","add","sub","and","or","xor"}; I.sub = 99; for (size_t i = 0; i < K.size(); i++) if (K[i] == k) I.sub = i; I.ops.push_back(parseTOpd(l, P)); l.exp(','); I.ops.push_back(parseTOpd(l, P)); setDst(I.ops[1].t); }
    else if (op == "cmpxchg") { I.ic = I_CMPXCHG; l.accW("weak"); l.accW("volatile"); for (int i = 0; i < 3; i++) { if (i) l.exp(','); I.ops.push_back(parseTOpd(l, P)); } Type* rt = new Type; rt->k = T_STRUCT; rt->el = {I.ops[1].t, intT(1)}; layout(rt); setDst(rt); }
    else if (op == "call" || op == "tail" || op == "musttail" || op == "notail" || op == "invoke") {
      if (op != "call" && op != "invoke") { l.word(); } 
      I.ic = I_CALL; skipFlags(l);
      while (true) { std::string w = l.peekWord(); if (w == "fastcc" || w == "coldcc" || w == "ccc" || w == "preserve_mostcc" || w == "preserve_allcc" || w == "rustcoldcc" || w == "preserve_nonecc" || w == "tailcc") l.word(); else break; }
      skipAttrs(l); Type* rt = parseType(l);
      l.ws(); if (l.s[l.p] == '(') { l.skipParens(); }   // vararg function type
      std::string fname; bool direct = false; l.ws();
      if (l.s[l.p] == '@') { l.p++; fname = l.name(); direct = true; } else I.ops.push_back(parseOpd(l, P, tPtr));
      l.exp('('); if (!l.acc(')')) { do { l.ws(); if (l.s[l.p] == '.') { l.fail("..."); } I.ops.push_back(parseTOpd(l, P)); } while (l.acc(',')); l.exp(')'); }
      if (direct) { auto it = fmap.find(fname); if (it == fmap.end()) l.fail("unknown function " + fname); I.callee = it->second; I.sub = 1; }
      else if (I.ops[0].slot == -2) { I.sub = 2; }
      setDst(rt);
      if (op == "invoke") engine_error("invoke not lowered");
    }
    else if (op == "landingpad" || op == "resume" || op == "cleanuppad" || op == "catchpad") { I.ic = I_UNREACH; // unreachable after lower-invoke
      if (hasRes) { Type* t = parseType(l); slotOf(P, res, t); }
      l.skipLine(); while (true) { size_t q = l.p; while (src[q] == ' ') q++; if (!src.compare(q, 6, "catch ") || !src.compare(q, 8, "cleanup\n") || !src.compare(q, 7, "filter ")|| !src.compare(q, 8, "cleanup,")) l.skipLine(); else break; } 
      f->bl[cur].in.push_back(std::move(I)); continue; }
    else l.fail("opcode " + op);
    // debug location
    { size_t q = l.p; while (q < l.end && src[q] != '\n') { if (src[q] == '!' && !src.compare(q, 6, "!dbg !")) { I.dbg = atoi(src.c_str() + q + 6); break; } q++; } }
    l.skipLine();
    if (!skip) f->bl[cur].in.push_back(std::move(I));
  }
  // phi copies onto edges
  std::vector<std::vector<PhiRec*>> byBlock(f->bl.size());
  for (auto& r : phis) byBlock[r.block].push_back(&r);
  for (size_t b = 0; b < f->bl.size(); b++) {
    if (f->bl[b].in.empty()) continue;
    for (Edge& e : f->bl[b].in.back().edges) for (PhiRec* r : byBlock[e.block]) {
      bool ok = false;
      for (auto& in : r->in) { auto it = P.blk.find(in.second); int pb = it == P.blk.end() ? (P.blk.count("<entry>") ? 0 : -1) : it->second; if (pb == (int)b) { e.copies.push_back({r->dst, in.first, r->t->nslots}); ok = true; break; } }
      if (!ok) engine_error("phi without incoming in " + f->name);
    }
  }
}
std::unordered_map<Func*, std::vector<std::string>> g_pnames;

static int mdRef(const std::string& line, const char* key) { size_t p = line.find(key); if (p == std::string::npos) return -1; p += strlen(key); if (line[p] != '!') return -1; return atoi(line.c_str() + p + 1); }
static int mdInt(const std::string& line, const char* key) { size_t p = line.find(key); if (p == std::string::npos) return 0; return atoi(line.c_str() + p + strlen(key)); }
static std::string mdStr(const std::string& line, const char* key) { size_t p = line.find(key); if (p == std::string::npos) return ""; p += strlen(key); size_t q = line.find('"', p); return line.substr(p, q - p); }

void Module::load(const std::string& path) {
  initTypes();
  { std::ifstream in(path, std::ios::binary); if (!in) engine_error("cannot open " + path); std::stringstream ss; ss << in.rdbuf(); src = ss.str(); }
  size_t p = 0, n = src.size(); std::vector<size_t> typeDefs;
  std::vector<std::pair<std::string, size_t>> aliases;
  u64 faddr_next = 0x10000;
  while (p < n) {
    size_t e = src.find('\n', p); if (e == std::string::npos) e = n;
    if (e == p) { p = e + 1; continue; }
    char c = src[p];
    if (c == '%') { Lx l(src, p, e); l.p++; std::string nm = l.name(); l.exp('='); if (!l.accW("type")) l.fail("type"); if (l.accW("opaque")) { Type* t = new Type; t->k = T_STRUCT; layout(t); namedTypes[nm] = t; } else namedTypes[nm] = parseType(l); }
    else if (c == '@') {
      Lx l(src, p, e); l.p++; std::string nm = l.name(); l.exp('='); Global* g = new Global; g->name = nm; bool alias = false; bool ext = false;
      while (true) { l.ws(); std::string w = l.word(); if (w == "constant") { g->constant = true; break; } if (w == "global") break; if (w == "alias") { alias = true; break; } if (w == "external" || w == "extern_weak") ext = true; if (l.peek() == '(') l.skipParens(); if (w.empty()) l.fail("global"); }
      if (alias) { aliases.push_back({nm, p}); delete g; }
      else { g->t = parseType(l); g->size = g->t->size; g->align = g->t->align; g->ext = ext; g->initPos = l.p; size_t q = src.rfind(", align ", e); if (q != std::string::npos && q > p) g->align = std::max<u64>(g->align, atoi(src.c_str() + q + 8)); globals.push_back(g); gmap[nm] = g; }
    }
    else if (!src.compare(p, 7, "define ") || !src.compare(p, 8, "declare ")) {
      bool def = c == 'd' && src[p + 2] == 'f'; Func* f = new Func; f->defined = def; Lx l(src, p, e); l.word();
      // return type: skip linkage words
      while (true) {
        l.ws(); std::string w = l.peekWord();
        static const std::unordered_set<std::string> K = {"internal","private","external","weak","weak_odr","linkonce_odr","linkonce","hidden","protected","default","dso_local","dso_preemptable","fastcc","coldcc","ccc","extern_weak","available_externally","common","preserve_mostcc","rustcoldcc","local_unnamed_addr","unnamed_addr","preserve_nonecc","tailcc"};
        if (K.count(w)) { l.word(); continue; } size_t q = l.p; skipAttrs(l); if (l.p == q) break;
      }
      f->ret = parseType(l); l.exp('@'); f->name = l.name(); l.exp('('); std::vector<std::string> pn;
      if (!l.acc(')')) { do { l.ws(); if (l.s[l.p] == '.') { f->vararg = true; l.p += 3; break; } Type* t = parseType(l); f->params.push_back(t); skipAttrs(l); l.ws(); if (l.s[l.p] == '%') { l.p++; pn.push_back(l.name()); } else pn.push_back(std::to_string(pn.size())); if (t->k == T_META) {} } while (l.acc(',')); l.exp(')'); }
      f->addr = faddr_next; faddr_next += 16; std::string rest = src.substr(l.p, e - l.p); 
      f->subprogram = mdRef(rest, "!dbg ");
      if (def) { f->bodyPos = e + 1; size_t b = src.find("\n}", e); f->bodyEnd = b + 1; e = b + 2; g_pnames[f] = pn; }
      auto it = fmap.find(f->name); if (it == fmap.end()) { funcs.push_back(f); fmap[f->name] = f; faddr[f->addr] = f; }
    }
    else if (c == '!') {
      std::string line = src.substr(p, e - p); int id = atoi(line.c_str() + 1);
      if (line.find("!DILocation(") != std::string::npos) locs[id] = {mdInt(line, "line: "), mdRef(line, "scope: "), mdRef(line, "inlinedAt: ")};
      else if (line.find("!DISubprogram(") != std::string::npos) scopes[id] = {mdRef(line, "scope: "), mdRef(line, "file: "), mdInt(line, ", line: "), mdStr(line, "linkageName: \"").empty() ? mdStr(line, "name: \"") : mdStr(line, "linkageName: \""), true};
      else if (line.find("!DILexicalBlock") != std::string::npos) scopes[id] = {mdRef(line, "scope: "), mdRef(line, "file: "), 0, "", false};
      else if (line.find("!DIFile(") != std::string::npos) { std::string fn = mdStr(line, "filename: \""), d = mdStr(line, "directory: \""); files[id] = (fn[0] == '/' || d.empty()) ? fn : d + "/" + fn; }
    }
    p = e + 1;
  }
  for (auto& a : aliases) { Lx l(src, a.second, n); l.p++; l.name(); size_t q = src.find(", ptr @", a.second); if (q == std::string::npos) engine_error("alias " + a.first); q += 7; Lx z(src, q, n); std::string tgt = z.name(); if (fmap.count(tgt)) fmap[a.first] = fmap[tgt]; else if (gmap.count(tgt)) gmap[a.first] = gmap[tgt]; else engine_error("alias target " + tgt); }
  u64 ca = 0x10000000, ma = 0x80000000;
  for (Global* g : globals) { u64& a = g->constant ? ca : ma; u64 al = std::max<u64>(g->align, 1); a = (a + al - 1) / al * al; g->addr = a; a += g->size + 16; }
  for (Global* g : globals) {
    g->data.assign(g->size, 0); if (g->ext) continue;
    Lx l(src, g->initPos, n); std::vector<u128> v; l.ws(); if (l.eol() || l.s[l.p] == ',') continue;
    if (l.peekWord() == "zeroinitializer" || l.peekWord() == "undef" || l.peekWord() == "poison") continue;
    parseConst(l, g->t, v); size_t i = 0; storeFlat(g->t, v, i, g->data, 0);
  }
}

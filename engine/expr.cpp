#include "expr.h"
#include <unordered_set>

std::vector<Expr*> g_vars;
u32 g_eval_gen = 1;
u64 g_nexpr = 0;

namespace {
struct H {
  size_t operator()(const Expr* e) const {
    u64 h = e->op * 0x9E3779B97F4A7C15ull + e->w * 1315423911ull;
    for (int i = 0; i < e->nk; i++) h = (h ^ e->k[i]->id) * 0xff51afd7ed558ccdull, h ^= h >> 29;
    h ^= (u64)e->c * 0xc4ceb9fe1a85ec53ull; h ^= (u64)(e->c >> 64) * 31; h ^= h >> 32;
    h ^= (u64)(uintptr_t)e->tbl;
    return h;
  }
};
struct Q {
  bool operator()(const Expr* a, const Expr* b) const {
    if (a->op != b->op || a->w != b->w || a->nk != b->nk || a->c != b->c || a->tbl != b->tbl) return false;
    for (int i = 0; i < a->nk; i++) if (a->k[i] != b->k[i]) return false;
    return true;
  }
};
std::unordered_set<Expr*, H, Q> table;
struct VH { size_t operator()(const VarSet* s) const { return s->hash; } };
struct VQ { bool operator()(const VarSet* a, const VarSet* b) const { return a->b == b->b; } };
std::unordered_set<VarSet*, VH, VQ> vstable;
VarSet* emptyVS = nullptr;
char* arena = nullptr; size_t arenaLeft = 0;

VarSet* internVS(std::vector<u64> b) {
  while (!b.empty() && b.back() == 0) b.pop_back();
  VarSet t; t.b = std::move(b); t.hash = 1469598103934665603ull;
  for (u64 x : t.b) t.hash = (t.hash ^ x) * 1099511628211ull, t.hash ^= t.hash >> 31;
  auto it = vstable.find(&t);
  if (it != vstable.end()) return *it;
  VarSet* s = new VarSet(t);
  s->count = 0; s->first = -1;
  for (size_t i = 0; i < s->b.size(); i++) { if (s->b[i] && s->first < 0) s->first = i * 64 + __builtin_ctzll(s->b[i]); s->count += __builtin_popcountll(s->b[i]); }
  vstable.insert(s);
  return s;
}
std::unordered_map<u64, VarSet*> unionCache;
VarSet* unionVS(VarSet* a, VarSet* b) {
  if (a == b || b->count == 0) return a;
  if (a->count == 0) return b;
  u64 key = ((u64)(uintptr_t)a * 0x9E3779B97F4A7C15ull) ^ ((u64)(uintptr_t)b * 0xc4ceb9fe1a85ec53ull);
  auto it = unionCache.find(key);
  if (it != unionCache.end()) return it->second;
  std::vector<u64> r(std::max(a->b.size(), b->b.size()), 0);
  for (size_t i = 0; i < a->b.size(); i++) r[i] |= a->b[i];
  for (size_t i = 0; i < b->b.size(); i++) r[i] |= b->b[i];
  VarSet* s = internVS(std::move(r));
  unionCache[key] = s;
  return s;
}

void bounds(Expr* e) {
  unsigned w = e->w;
  e->lo = 0; e->hi = w >= 64 ? ~0ull : (u64)maskw(w);
  if (w > 64) return;
  Expr *a = e->nk > 0 ? e->k[0] : nullptr, *b = e->nk > 1 ? e->k[1] : nullptr;
  switch (e->op) {
    case O_CONST: e->lo = e->hi = (u64)e->c; break;
    case O_ADD: { u128 h = (u128)a->hi + b->hi, l = (u128)a->lo + b->lo; u128 M = maskw(w);
        if (h <= M) { e->lo = (u64)l; e->hi = (u64)h; }
        else if (l > M) { e->lo = (u64)(l & M); e->hi = (u64)(h & M); } break; }
    case O_MUL: { u128 h = (u128)a->hi * b->hi; if (h <= maskw(w)) { e->lo = a->lo * b->lo; e->hi = (u64)h; } break; }
    case O_SUB: if (a->lo >= b->hi) { e->lo = a->lo - b->hi; e->hi = a->hi - b->lo; } break;
    case O_AND: e->hi = std::min(a->hi, b->hi); break;
    case O_OR: { e->lo = std::max(a->lo, b->lo); u64 m = a->hi | b->hi; int n = m ? 64 - __builtin_clzll(m) : 0; e->hi = (u64)maskw(n); break; }
    case O_XOR: { u64 m = a->hi | b->hi; int n = m ? 64 - __builtin_clzll(m) : 0; e->hi = (u64)maskw(n); break; }
    case O_UDIV: if (b->lo > 0) { e->lo = a->lo / b->hi; e->hi = a->hi / b->lo; } break;
    case O_UREM: if (b->lo > 0) { e->hi = std::min(a->hi, b->hi - 1); } break;
    case O_LSHR: if (isC(b) && b->c < w) { e->lo = a->lo >> (unsigned)b->c; e->hi = a->hi >> (unsigned)b->c; } else e->hi = a->hi; break;
    case O_CONCAT: e->lo = (a->lo << b->w) | b->lo; e->hi = (a->hi << b->w) | b->hi; break;
    case O_EXTRACT: if (e->c == 0 && a->w <= 64 && a->hi <= maskw(w)) { e->lo = a->lo; e->hi = a->hi; }
        else if (a->w <= 64 && (u64)e->c + w == a->w) { e->lo = a->lo >> (u64)e->c; e->hi = a->hi >> (u64)e->c; } break;
    case O_ITE: e->lo = std::min(b->lo, e->k[2]->lo); e->hi = std::max(b->hi, e->k[2]->hi); break;
    case O_TBL: { u64 lo = ~0ull, hi = 0; for (u64 v : e->tbl->v) { lo = std::min(lo, v); hi = std::max(hi, v); } e->lo = lo; e->hi = hi; break; }
    default: break;
  }
}

Expr* mk(Op op, unsigned w, int nk, Expr* a, Expr* b, Expr* c, u128 cv, Table* t = nullptr) {
  Expr tmp; tmp.op = op; tmp.w = w; tmp.nk = nk; tmp.k[0] = a; tmp.k[1] = b; tmp.k[2] = c; tmp.c = cv; tmp.tbl = t;
  auto it = table.find(&tmp);
  if (it != table.end()) return *it;
  if (arenaLeft < sizeof(Expr)) { arenaLeft = 1 << 22; arena = (char*)aligned_alloc(64, arenaLeft); }
  Expr* e = (Expr*)arena; size_t sz = (sizeof(Expr) + 15) & ~15ull; if (arenaLeft < sz) { arenaLeft = 1 << 22; arena = (char*)aligned_alloc(64, arenaLeft); e = (Expr*)arena; }
  arena += sz; arenaLeft -= sz;
  *e = tmp; e->id = ++g_nexpr; e->gen = 0; e->z = nullptr;
  if (!emptyVS) emptyVS = internVS({});
  if (op == O_VAR) { std::vector<u64> bb((size_t)cv / 64 + 1, 0); bb[(size_t)cv / 64] |= 1ull << ((u64)cv % 64); e->vs = internVS(std::move(bb)); }
  else { e->vs = emptyVS; for (int i = 0; i < nk; i++) e->vs = unionVS(e->vs, e->k[i]->vs); }
  bounds(e);
  table.insert(e);
  return e;
}
double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
float asF(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
u128 fromF(float d) { u32 x; memcpy(&x, &d, 4); return x; }
}  // namespace

Expr* eConst(u128 c, unsigned w) { return mk(O_CONST, w, 0, 0, 0, 0, c & maskw(w)); }
Expr* eVar(unsigned idx) { while (g_vars.size() <= idx) g_vars.push_back(mk(O_VAR, 8, 0, 0, 0, 0, g_vars.size())); return g_vars[idx]; }

template <class T, class S> static T satconv(double d) {
  if (std::isnan(d)) return 0;
  if (d <= (double)std::numeric_limits<T>::min()) return std::numeric_limits<T>::min();
  if (d >= (double)std::numeric_limits<T>::max()) return std::numeric_limits<T>::max();
  return (T)d;
}

u128 evalOp(Op op, unsigned w, u128 a, u128 b, unsigned wa) {
  u128 M = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & M;
    case O_SUB: return (a - b) & M;
    case O_MUL: return (a * b) & M;
    case O_UDIV: return b == 0 ? M : a / b;
    case O_UREM: return b == 0 ? a : a % b;
    case O_SDIV: { if (b == 0) return sextw(a, wa) < 0 ? 1 : M; i128 x = sextw(a, wa), y = sextw(b, wa); if (y == -1) return (u128)(-(u128)x) & M; return (u128)(x / y) & M; }
    case O_SREM: { if (b == 0) return a; i128 x = sextw(a, wa), y = sextw(b, wa); if (y == -1) return 0; return (u128)(x % y) & M; }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
    case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case O_ASHR: { i128 x = sextw(a, wa); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & M; }
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sextw(a, wa) < sextw(b, wa);
    case O_SLE: return sextw(a, wa) <= sextw(b, wa);
    case O_FADD: return wa == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case O_FSUB: return wa == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case O_FMUL: return wa == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case O_FDIV: return wa == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case O_FOEQ: return wa == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case O_FOLT: return wa == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case O_FOLE: return wa == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case O_FUNO: return wa == 64 ? std::isnan(asD(a)) || std::isnan(asD(b)) : std::isnan(asF(a)) || std::isnan(asF(b));
    case O_UITOFP: return w == 64 ? fromD((double)a) : fromF((float)a);
    case O_SITOFP: return w == 64 ? fromD((double)sextw(a, wa)) : fromF((float)sextw(a, wa));
    case O_FFLOOR: return wa == 64 ? fromD(floor(asD(a))) : fromF(floorf(asF(a)));
    case O_FTRUNC: return wa == 64 ? fromD(trunc(asD(a))) : fromF(truncf(asF(a)));
    case O_FCEIL: return wa == 64 ? fromD(ceil(asD(a))) : fromF(ceilf(asF(a)));
    case O_FROUNDEVEN: return wa == 64 ? fromD(nearbyint(asD(a))) : fromF(nearbyintf(asF(a)));
    case O_FABS: return a & (maskw(wa) >> 1);
    case O_FPEXT: return fromD((double)asF(a));
    case O_FPTRUNC: return fromF((float)asD(a));
    case O_FPTOUI: case O_FPTOUISAT: { double d = wa == 64 ? asD(a) : (double)asF(a); if (std::isnan(d) || d <= 0) return 0; if (d >= ldexp(1.0, w)) return M; return (u128)d & M; }
    case O_FPTOSI: case O_FPTOSISAT: { double d = wa == 64 ? asD(a) : (double)asF(a); if (std::isnan(d)) return 0; if (d <= -ldexp(1.0, w - 1)) return ((u128)1 << (w - 1)) & M; if (d >= ldexp(1.0, w - 1)) return M >> 1; return (u128)(i128)d & M; }
    default: engine_error("evalOp: bad op " + std::to_string(op));
  }
}

u128 evalExpr(Expr* e, const Model& m) {
  if (e->op == O_CONST) return e->c;
  if (e->op == O_VAR) { size_t i = (size_t)e->c; return i < m.v.size() ? m.v[i] : 0; }
  if (e->gen == g_eval_gen) return e->ev;
  u128 r;
  switch (e->op) {
    case O_CONCAT: r = (evalExpr(e->k[0], m) << e->k[1]->w) | evalExpr(e->k[1], m); break;
    case O_EXTRACT: r = (evalExpr(e->k[0], m) >> (unsigned)e->c) & maskw(e->w); break;
    case O_SEXT: r = (u128)sextw(evalExpr(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
    case O_ITE: {
      // iterative along the else-chain
      Expr* x = e; std::vector<Expr*> chain;
      while (true) {
        if (x->op != O_ITE) { r = evalExpr(x, m); break; }
        if (x->gen == g_eval_gen) { r = x->ev; break; }
        chain.push_back(x);
        if (evalExpr(x->k[0], m)) { r = evalExpr(x->k[1], m); break; }
        x = x->k[2];
      }
      for (Expr* y : chain) { y->gen = g_eval_gen; y->ev = r; }
      return r;
    }
    case O_TBL: { u64 i = (u64)evalExpr(e->k[0], m); r = i < e->tbl->v.size() ? e->tbl->v[i] : 0; break; }
    default: {
      u128 a = evalExpr(e->k[0], m);
      u128 b = e->nk > 1 ? evalExpr(e->k[1], m) : 0;
      r = evalOp(e->op, e->w, a, b, e->k[0]->w);
    }
  }
  e->gen = g_eval_gen; e->ev = r;
  return r;
}

// ---- construction with simplification -------------------------------------------------------
Expr* eExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) engine_error("extract out of range");
  switch (a->op) {
    case O_CONST: return eConst(a->c >> lo, w);
    case O_EXTRACT: return eExtract(a->k[0], (unsigned)a->c + lo, w);
    case O_CONCAT: {
      unsigned lw = a->k[1]->w;
      if (lo >= lw) return eExtract(a->k[0], lo - lw, w);
      if (lo + w <= lw) return eExtract(a->k[1], lo, w);
      return eConcat(eExtract(a->k[0], 0, lo + w - lw), eExtract(a->k[1], lo, lw - lo));
    }
    case O_SEXT: if (lo + w <= a->k[0]->w) return eExtract(a->k[0], lo, w); break;
    case O_AND: case O_OR: case O_XOR:
      return eBin(a->op, eExtract(a->k[0], lo, w), eExtract(a->k[1], lo, w));
    case O_ADD: case O_SUB: case O_MUL:
      if (lo == 0) return eBin(a->op, eExtract(a->k[0], 0, w), eExtract(a->k[1], 0, w));
      break;
    case O_ITE:
      if (isC(a->k[1]) || isC(a->k[2])) return eIte(a->k[0], eExtract(a->k[1], lo, w), eExtract(a->k[2], lo, w));
      break;
    default: break;
  }
  if (a->w <= 64 && lo < 64 && (a->hi >> lo) == 0) return eConst(0, w);
  return mk(O_EXTRACT, w, 1, a, 0, 0, lo);
}

// byte split used by memory: keeps arithmetic whole so that re-assembling the bytes restores the original value
Expr* eExtractMem(Expr* a, unsigned lo, unsigned w) {
  if ((a->op == O_ADD || a->op == O_SUB || a->op == O_MUL || a->op == O_AND || a->op == O_OR || a->op == O_XOR || a->op == O_ITE) && a->w > w && !(a->w <= 64 && lo < 64 && (a->hi >> lo) == 0)) return mk(O_EXTRACT, w, 1, a, 0, 0, lo);
  return eExtract(a, lo, w);
}
Expr* eConcat(Expr* hi, Expr* lo) {
  if (hi->w == 0) return lo;
  if (lo->w == 0) return hi;
  if (isC(hi) && isC(lo)) return eConst((hi->c << lo->w) | lo->c, hi->w + lo->w);
  if (hi->op == O_CONCAT) return eConcat(hi->k[0], eConcat(hi->k[1], lo));  // right-nest
  if (isC(hi) && !hi->c && lo->op == O_EXTRACT && lo->c == 0 && lo->k[0]->w <= 64 && hi->w + lo->w >= lo->k[0]->w && lo->w < 64 && lo->k[0]->hi < (1ull << lo->w)) return eZext(lo->k[0], hi->w + lo->w);
  Expr* l0 = lo->op == O_CONCAT ? lo->k[0] : lo;
  Expr* rest = lo->op == O_CONCAT ? lo->k[1] : nullptr;
  Expr* merged = nullptr;
  if (isC(hi) && isC(l0)) merged = eConst((hi->c << l0->w) | l0->c, hi->w + l0->w);
  else if (hi->op == O_EXTRACT && l0->op == O_EXTRACT && hi->k[0] == l0->k[0] && hi->c == l0->c + l0->w) merged = (l0->c == 0 && hi->w + l0->w == hi->k[0]->w) ? hi->k[0] : eExtractMem(hi->k[0], (unsigned)l0->c, hi->w + l0->w);
  if (merged) return rest ? eConcat(merged, rest) : merged;
  return mk(O_CONCAT, hi->w + lo->w, 2, hi, lo, 0, 0);
}
Expr* eZext(Expr* a, unsigned w) { if (w == a->w) return a; if (w < a->w) return eExtract(a, 0, w); return eConcat(eConst(0, w - a->w), a); }
static bool topZero(Expr* a) { return (a->op == O_CONCAT && isC(a->k[0]) && !(a->k[0]->c >> (a->k[0]->w - 1))) || (a->w <= 64 && !((a->hi >> (a->w - 1)) & 1)); }
Expr* eSext(Expr* a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) return eExtract(a, 0, w);
  if (isC(a)) return eConst((u128)sextw(a->c, a->w), w);
  if (topZero(a)) return eZext(a, w);
  if (a->op == O_SEXT) return eSext(a->k[0], w);
  return mk(O_SEXT, w, 1, a, 0, 0, 0);
}
Expr* eIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : eNot1(c);
    if (isC(a)) return a->c ? eBin(O_OR, c, b) : eBin(O_AND, eNot1(c), b);
    if (isC(b)) return b->c ? eBin(O_OR, eNot1(c), a) : eBin(O_AND, c, a);
  }
  if (c->op == O_XOR && isC(c->k[1]) && c->w == 1) return eIte(c->k[0], b, a);
  if (b->op == O_ITE && b->k[1] == a) return eIte(eBin(O_OR, c, b->k[0]), a, b->k[2]);
  if (b->op == O_ITE && b->k[0] == c) return eIte(c, a, b->k[2]);
  if (a->op == O_ITE && a->k[0] == c) return eIte(c, a->k[1], b);
  // common high parts of concats
  if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[0]->w == b->k[0]->w) {
    if (a->k[0] == b->k[0]) return eConcat(a->k[0], eIte(c, a->k[1], b->k[1]));
    if (a->k[1] == b->k[1]) return eConcat(eIte(c, a->k[0], b->k[0]), a->k[1]);
  }
  if (a->op == O_CONCAT && isC(a->k[0]) && isC(b) && (b->c >> a->k[1]->w) == a->k[0]->c) return eConcat(a->k[0], eIte(c, a->k[1], eExtract(b, 0, a->k[1]->w)));
  if (b->op == O_CONCAT && isC(b->k[0]) && isC(a) && (a->c >> b->k[1]->w) == b->k[0]->c) return eConcat(b->k[0], eIte(c, eExtract(a, 0, b->k[1]->w), b->k[1]));
  return mk(O_ITE, a->w, 3, c, a, b, 0);
}
Expr* eTbl(Expr* idx, Table* t) {
  if (isC(idx)) return eConst((u64)idx->c < t->v.size() ? t->v[(u64)idx->c] : 0, t->w);
  return mk(O_TBL, t->w, 1, idx, 0, 0, 0, t);
}
static void flat(Expr* e, std::vector<Expr*>& o) { while (e->op == O_CONCAT) { flat(e->k[0], o); e = e->k[1]; } o.push_back(e); }
// piecewise bitwise op if every piece pair has a constant all-0/all-1 on one side (or both consts)
static Expr* piecewise(Op op, Expr* a, Expr* b) {
  bool ca = a->op == O_CONCAT || isC(a), cb = b->op == O_CONCAT || isC(b);
  if (!(ca && cb)) { if (!isC(b)) return nullptr; }
  // split points
  std::vector<Expr*> fa, fb; flat(a, fa); flat(b, fb);
  std::vector<unsigned> cuts; unsigned p = 0;
  for (int i = (int)fa.size() - 1; i >= 0; i--) { p += fa[i]->w; cuts.push_back(p); }
  p = 0;
  for (int i = (int)fb.size() - 1; i >= 0; i--) {
    if (isC(fb[i])) { // also cut at runs of equal bits
      for (unsigned j = 1; j < fb[i]->w; j++) if (((fb[i]->c >> j) & 1) != ((fb[i]->c >> (j - 1)) & 1)) cuts.push_back(p + j);
    }
    p += fb[i]->w; cuts.push_back(p);
  }
  p = 0;
  for (int i = (int)fa.size() - 1; i >= 0; i--) {
    if (isC(fa[i])) for (unsigned j = 1; j < fa[i]->w; j++) if (((fa[i]->c >> j) & 1) != ((fa[i]->c >> (j - 1)) & 1)) cuts.push_back(p + j);
    p += fa[i]->w;
  }
  std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
  if (cuts.size() > 24) return nullptr;
  std::vector<Expr*> out; unsigned prev = 0;
  for (unsigned c : cuts) {
    Expr* x = eExtract(a, prev, c - prev); Expr* y = eExtract(b, prev, c - prev); Expr* r = nullptr; u128 M = maskw(c - prev);
    if (isC(x)) std::swap(x, y);
    if (isC(x) && isC(y)) r = eConst(evalOp(op, c - prev, x->c, y->c, c - prev), c - prev);
    else if (isC(y)) {
      if (op == O_AND) r = y->c == 0 ? y : y->c == M ? x : nullptr;
      else if (op == O_OR) r = y->c == 0 ? x : y->c == M ? y : nullptr;
      else if (op == O_XOR) r = y->c == 0 ? x : nullptr;
    } else if (x == y) r = op == O_XOR ? eConst(0, c - prev) : x;
    if (!r) return nullptr;
    out.push_back(r); prev = c;
  }
  Expr* r = out[0];
  for (size_t i = 1; i < out.size(); i++) r = eConcat(out[i], r);
  return r;
}

static int cmpPair(Expr* a, Expr* b) { return a->id < b->id ? -1 : a->id > b->id; }

static Expr* mkEq(Expr* a, Expr* b) {
  if (a == b) return eConst(1, 1);
  if (isC(a)) std::swap(a, b);
  if (isC(a) && isC(b)) return eConst(a->c == b->c, 1);
  if (a->w <= 64 && (a->hi < b->lo || b->hi < a->lo)) return eConst(0, 1);
  if (a->w == 1 && isC(b)) return b->c ? a : eNot1(a);
  if (isC(b) && a->op == O_ADD && a->w <= 64 && a->k[0]->hi <= maskw(a->w) - a->k[1]->hi && !isC(a->k[1])) {
    if (b->c == (u128)a->k[0]->hi + a->k[1]->hi) return eBin(O_AND, mkEq(a->k[0], eConst(a->k[0]->hi, a->w)), mkEq(a->k[1], eConst(a->k[1]->hi, a->w)));
    if (b->c == (u128)a->k[0]->lo + a->k[1]->lo) return eBin(O_AND, mkEq(a->k[0], eConst(a->k[0]->lo, a->w)), mkEq(a->k[1], eConst(a->k[1]->lo, a->w)));
  }
  if (isC(b)) {
    switch (a->op) {
      case O_CONCAT: {
        unsigned lw = a->k[1]->w;
        Expr* h = mkEq(a->k[0], eConst(b->c >> lw, a->k[0]->w));
        if (isC(h) && !h->c) return h;
        return eBin(O_AND, h, mkEq(a->k[1], eConst(b->c, lw)));
      }
      case O_ADD: if (isC(a->k[1])) return mkEq(a->k[0], eConst(b->c - a->k[1]->c, a->w)); break;
      case O_XOR: if (isC(a->k[1])) return mkEq(a->k[0], eConst(b->c ^ a->k[1]->c, a->w)); break;
      case O_SUB: if (isC(a->k[0])) return mkEq(a->k[1], eConst(a->k[0]->c - b->c, a->w)); if (b->c == 0) return mkEq(a->k[0], a->k[1]); break;
      case O_SEXT: { u128 t = b->c & maskw(a->k[0]->w); if (((u128)sextw(t, a->k[0]->w) & maskw(a->w)) != b->c) return eConst(0, 1); return mkEq(a->k[0], eConst(t, a->k[0]->w)); }
      case O_ITE: {
        if (isC(a->k[1]) || isC(a->k[2])) {
          Expr* x = mkEq(a->k[1], b); Expr* y = mkEq(a->k[2], b);
          return eIte(a->k[0], x, y);
        }
        break;
      }
      default: break;
    }
  } else {
    if (a->op == O_CONCAT && b->op == O_CONCAT) {
      if (a->k[0]->w == b->k[0]->w) return eBin(O_AND, mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
      // split at the boundary of the lowest component... recurse on top piece
      unsigned tw = std::min(a->k[0]->w, b->k[0]->w), lw = a->w - tw;
      return eBin(O_AND, mkEq(eExtract(a, lw, tw), eExtract(b, lw, tw)), mkEq(eExtract(a, 0, lw), eExtract(b, 0, lw)));
    }
    if (a->op == O_ADD && b->op == O_ADD && a->k[0] == b->k[0]) return mkEq(a->k[1], b->k[1]);
    if (a->op == O_ADD && isC(a->k[1]) && a->k[0] == b) return eConst(0, 1);
    if (b->op == O_ADD && isC(b->k[1]) && b->k[0] == a) return eConst(0, 1);
    if (cmpPair(a, b) > 0) std::swap(a, b);
  }
  return mk(O_EQ, 1, 2, a, b, 0, 0);
}

static Expr* mkUlt(Expr* a, Expr* b) {  // a < b
  if (a == b) return eConst(0, 1);
  if (a->w <= 64) { if (a->hi < b->lo) return eConst(1, 1); if (a->lo >= b->hi) return eConst(0, 1); }
  else if (isC(a) && isC(b)) return eConst(a->c < b->c, 1);
  if (isC(b) && b->c == 0) return eConst(0, 1);
  if (isC(b) && b->c == 1) return mkEq(a, eConst(0, a->w));
  if (isC(a) && a->c == 0) return eNot1(mkEq(b, eConst(0, b->w)));
  // strip common constant high part
  if (a->op == O_CONCAT && isC(a->k[0])) {
    unsigned lw = a->k[1]->w; Expr* bh = eExtract(b, lw, a->w - lw);
    if (isC(bh)) { if (bh->c == a->k[0]->c) return mkUlt(a->k[1], eExtract(b, 0, lw)); return eConst(a->k[0]->c < bh->c, 1); }
  }
  if (b->op == O_CONCAT && isC(b->k[0])) {
    unsigned lw = b->k[1]->w; Expr* ah = eExtract(a, lw, a->w - lw);
    if (isC(ah)) { if (ah->c == b->k[0]->c) return mkUlt(eExtract(a, 0, lw), b->k[1]); return eConst(ah->c < b->k[0]->c, 1); }
  }
  if (a->op == O_ITE && isC(b) && (isC(a->k[1]) || isC(a->k[2]))) return eIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
  if (b->op == O_ITE && isC(a) && (isC(b->k[1]) || isC(b->k[2]))) return eIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
  // (x + c1) < c2 without wrap
  if (a->w <= 64 && a->op == O_ADD && isC(a->k[1]) && isC(b)) {
    u64 c1 = (u64)a->k[1]->c, c2 = (u64)b->c; Expr* x = a->k[0];
    if ((u128)x->hi + c1 <= maskw(a->w)) { if (c2 <= c1) return eConst(0, 1); return mkUlt(x, eConst(c2 - c1, a->w)); }
  }
  if (a->w <= 64 && b->op == O_ADD && isC(b->k[1]) && isC(a)) {
    u64 c1 = (u64)b->k[1]->c, c2 = (u64)a->c; Expr* x = b->k[0];
    if ((u128)x->hi + c1 <= maskw(a->w)) { if (c2 < c1) return eConst(1, 1); return mkUlt(eConst(c2 - c1, a->w), x); }
  }
  return mk(O_ULT, 1, 2, a, b, 0, 0);
}

Expr* eBin(Op op, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return eConst(evalOp(op, (op >= O_EQ && op <= O_SLE) ? 1 : w, a->c, b->c, w), (op >= O_EQ && op <= O_SLE) ? 1 : w);
  u128 M = maskw(w);
  switch (op) {
    case O_EQ: return mkEq(a, b);
    case O_ULT: return mkUlt(a, b);
    case O_ULE: return eNot1(mkUlt(b, a));
    case O_SLT:
      if (a == b) return eConst(0, 1);
      if (topZero(a) && topZero(b)) return mkUlt(a, b);
      if (isC(b) && b->c == 0) return mkEq(eExtract(a, w - 1, 1), eConst(1, 1));
      if (isC(a) && a->c == M) return mkEq(eExtract(b, w - 1, 1), eConst(0, 1));
      if (isC(a) && topZero(b) && (a->c >> (w - 1))) return eConst(1, 1);
      if (isC(b) && topZero(a) && (b->c >> (w - 1))) return eConst(0, 1);
      return mk(O_SLT, 1, 2, a, b, 0, 0);
    case O_SLE: return eNot1(eBin(O_SLT, b, a));
    case O_ADD:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->c == 0) return a;
        if (a->op == O_ADD && isC(a->k[1])) return eBin(O_ADD, a->k[0], eConst(a->k[1]->c + b->c, w));
        if (a->op == O_SUB && isC(a->k[0])) return eBin(O_SUB, eConst(a->k[0]->c + b->c, w), a->k[1]);
        if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eConst(a->k[1]->c + b->c, w), eConst(a->k[2]->c + b->c, w));
      } else {
        if (a->op == O_ADD && isC(a->k[1])) return eBin(O_ADD, eBin(O_ADD, a->k[0], b), a->k[1]);
        if (b->op == O_ADD && isC(b->k[1])) return eBin(O_ADD, eBin(O_ADD, a, b->k[0]), b->k[1]);
        if (a->op == O_SUB && a->k[1] == b) return a->k[0];
        if (b->op == O_SUB && b->k[1] == a) return b->k[0];
        if (cmpPair(a, b) > 0) std::swap(a, b);
      }
      break;
    case O_SUB:
      if (a == b) return eConst(0, w);
      if (isC(b)) return eBin(O_ADD, a, eConst((u128)0 - b->c, w));
      if (a->op == O_ADD) {
        if (a->k[1] == b) return a->k[0];
        if (a->k[0] == b) return a->k[1];
        if (isC(a->k[1])) return eBin(O_ADD, eBin(O_SUB, a->k[0], b), a->k[1]);
      }
      if (b->op == O_ADD) {
        if (isC(b->k[1])) return eBin(O_ADD, eBin(O_SUB, a, b->k[0]), eConst((u128)0 - b->k[1]->c, w));
        if (b->k[0] == a) return eBin(O_SUB, eConst(0, w), b->k[1]);
        if (b->k[1] == a) return eBin(O_SUB, eConst(0, w), b->k[0]);
      }
      if (a->op == O_ADD && b->op == O_ADD) {
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (a->k[i] == b->k[j]) return eBin(O_SUB, a->k[1 - i], b->k[1 - j]);
      }
      if (b->op == O_SUB && b->k[0] == a) return b->k[1];
      break;
    case O_MUL:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return eBin(O_SHL, a, eConst(s, w)); }
        if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eConst(a->k[1]->c * b->c, w), eConst(a->k[2]->c * b->c, w));
      } else if (cmpPair(a, b) > 0) std::swap(a, b);
      break;
    case O_UDIV:
      if (isC(b)) { if (b->c == 1) return a; if (b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return eBin(O_LSHR, a, eConst(s, w)); } }
      if (w <= 64 && a->hi < b->lo) return eConst(0, w);
      break;
    case O_UREM:
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return s ? eZext(eExtract(a, 0, s), w) : eConst(0, w); }
      if (w <= 64 && a->hi < b->lo) return a;
      break;
    case O_AND: case O_OR: case O_XOR: {
      if (isC(a)) std::swap(a, b);
      if (a == b) return op == O_XOR ? eConst(0, w) : a;
      if (isC(b)) {
        if (op == O_AND) { if (b->c == 0) return b; if (b->c == M) return a; }
        if (op == O_OR) { if (b->c == 0) return a; if (b->c == M) return b; }
        if (op == O_XOR && b->c == 0) return a;
        if (a->op == op && isC(a->k[1])) return eBin(op, a->k[0], eConst(evalOp(op, w, a->k[1]->c, b->c, w), w));
        if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eBin(op, a->k[1], b), eBin(op, a->k[2], b));
      }
      if (w == 1) {
        // x & !x, x | !x, absorption
        auto neg = [](Expr* x, Expr* y) { return (x->op == O_XOR && isC(x->k[1]) && x->k[0] == y) || (y->op == O_XOR && isC(y->k[1]) && y->k[0] == x); };
        if (op != O_XOR && neg(a, b)) return eConst(op == O_OR, 1);
        if (op == O_AND) { if (a->op == O_AND && (a->k[0] == b || a->k[1] == b)) return a; if (b->op == O_AND && (b->k[0] == a || b->k[1] == a)) return b; }
        if (op == O_OR) { if (a->op == O_OR && (a->k[0] == b || a->k[1] == b)) return a; if (b->op == O_OR && (b->k[0] == a || b->k[1] == a)) return b; }
      } else {
        Expr* r = piecewise(op, a, b);
        if (r) return r;
        if (w <= 64 && op == O_AND && isC(b)) { // mask clears nothing that could be set
          u64 m = (u64)b->c; int n = a->hi ? 64 - __builtin_clzll(a->hi) : 0; u64 pos = (u64)maskw(n); if ((pos & ~m) == 0) return a; if ((pos & m) == 0) return eConst(0, w);
        }
      }
      if (!isC(b) && cmpPair(a, b) > 0) std::swap(a, b);
      break;
    }
    case O_SHL:
      if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return eConst(0, w); unsigned s = (unsigned)b->c; return eConcat(eExtract(a, 0, w - s), eConst(0, s)); }
      if (isC(a) && a->c == 0) return a;
      break;
    case O_LSHR:
      if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return eConst(0, w); unsigned s = (unsigned)b->c; return eZext(eExtract(a, s, w - s), w); }
      if (isC(a) && a->c == 0) return a;
      break;
    case O_ASHR:
      if (isC(b)) { if (b->c == 0) return a; unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return eSext(eExtract(a, s, w - s), w); }
      break;
    default: break;
  }
  return mk(op, (op >= O_EQ && op <= O_SLE) ? 1 : w, 2, a, b, 0, 0);
}
Expr* eFp(Op op, unsigned w, Expr* a, Expr* b) {
  if (isC(a) && (!b || isC(b))) return eConst(evalOp(op, w, a->c, b ? b->c : 0, a->w), w);
  if (op == O_FABS) return eConcat(eConst(0, 1), eExtract(a, 0, a->w - 1));
  return mk(op, w, b ? 2 : 1, a, b, 0, 0);
}
static std::unordered_map<Expr*, bool> fpMemo;
bool hasFp(Expr* e) {
  if (e->op >= O_FADD) return true;
  if (e->nk == 0) return false;
  auto it = fpMemo.find(e); if (it != fpMemo.end()) return it->second;
  bool r = false; for (int i = 0; i < e->nk && !r; i++) r = hasFp(e->k[i]);
  return fpMemo[e] = r;
}

std::string exprStr(Expr* e, int depth) {
  static const char* nm[] = {"const","v","add","sub","mul","udiv","urem","sdiv","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","sext","ite","tbl",
    "fadd","fsub","fmul","fdiv","foeq","folt","fole","funo","uitofp","sitofp","fptoui","fptosi","fptouisat","fptosisat","ffloor","ftrunc","fceil","froundeven","fabs","fpext","fptrunc"};
  if (e->op == O_CONST) { char b[64]; snprintf(b, 64, "0x%llx", (unsigned long long)e->c); return b; }
  if (e->op == O_VAR) return "v" + std::to_string((u64)e->c);
  if (depth == 0) return "...";
  std::string s = "(" + std::string(nm[e->op]) + std::to_string(e->w);
  if (e->op == O_EXTRACT) s += "@" + std::to_string((u64)e->c);
  for (int i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], depth - 1);
  return s + ")";
}

// ---- z3 translation ----------------------------------------------------------------------------
static Z3_ast b2bv(Z3_context c, Z3_ast b) { return Z3_mk_ite(c, b, Z3_mk_unsigned_int(c, 1, Z3_mk_bv_sort(c, 1)), Z3_mk_unsigned_int(c, 0, Z3_mk_bv_sort(c, 1))); }
static Z3_ast bvconst(Z3_context c, u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(c, w);
  if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, s);
  Z3_ast hi = Z3_mk_unsigned_int64(c, (u64)(v >> 64), Z3_mk_bv_sort(c, w - 64)); Z3_ast lo = Z3_mk_unsigned_int64(c, (u64)v, Z3_mk_bv_sort(c, 64));
  return Z3_mk_concat(c, hi, lo);
}
static Z3_sort fpsort(Z3_context c, unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(c) : Z3_mk_fpa_sort_32(c); }
static Z3_ast asfp(Z3_context c, Expr* e) { return Z3_mk_fpa_to_fp_bv(c, toZ3(c, e), fpsort(c, e->w)); }
static Z3_ast build(Z3_context c, Expr* e);
// width-1 expressions are Bool terms in z3
Z3_ast toZ3(Z3_context c, Expr* e) {
  if (e->z) return e->z;
  // iterative DFS to avoid deep recursion on long ITE chains
  std::vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back();
    if (x->z) { st.pop_back(); continue; }
    bool ready = true;
    for (int i = 0; i < x->nk; i++) if (!x->k[i]->z) { st.push_back(x->k[i]); ready = false; }
    if (!ready) continue;
    x->z = build(c, x); Z3_inc_ref(c, x->z); st.pop_back();
  }
  return e->z;
}
static Z3_ast asBv(Z3_context c, Expr* e) { Z3_ast z = toZ3(c, e); return e->w == 1 ? b2bv(c, z) : z; }
static Z3_ast bv1b(Z3_context c, Z3_ast z) { return Z3_mk_eq(c, z, Z3_mk_unsigned_int(c, 1, Z3_mk_bv_sort(c, 1))); }
static Z3_ast build(Z3_context c, Expr* e) {
  Expr *a = e->nk > 0 ? e->k[0] : 0, *b = e->nk > 1 ? e->k[1] : 0;
  switch (e->op) {
    case O_CONST: return e->w == 1 ? (e->c ? Z3_mk_true(c) : Z3_mk_false(c)) : bvconst(c, e->c, e->w);
    case O_VAR: { Z3_symbol s = Z3_mk_int_symbol(c, (int)e->c); return Z3_mk_const(c, s, Z3_mk_bv_sort(c, 8)); }
    case O_ITE: return Z3_mk_ite(c, toZ3(c, a), toZ3(c, b), toZ3(c, e->k[2]));
    case O_EQ: return a->w == 1 ? Z3_mk_iff(c, toZ3(c, a), toZ3(c, b)) : Z3_mk_eq(c, toZ3(c, a), toZ3(c, b));
    case O_ULT: return Z3_mk_bvult(c, asBv(c, a), asBv(c, b));
    case O_ULE: return Z3_mk_bvule(c, asBv(c, a), asBv(c, b));
    case O_SLT: return Z3_mk_bvslt(c, asBv(c, a), asBv(c, b));
    case O_SLE: return Z3_mk_bvsle(c, asBv(c, a), asBv(c, b));
    case O_CONCAT: return Z3_mk_concat(c, asBv(c, a), asBv(c, b));
    case O_EXTRACT: { Z3_ast z = Z3_mk_extract(c, (unsigned)e->c + e->w - 1, (unsigned)e->c, asBv(c, a)); return e->w == 1 ? bv1b(c, z) : z; }
    case O_SEXT: return Z3_mk_sign_ext(c, e->w - a->w, asBv(c, a));
    case O_TBL: {
      // balanced mux over the index bits
      Z3_ast idx = asBv(c, a); unsigned iw = a->w; size_t n = e->tbl->v.size(); unsigned bits = 0; while ((1ull << bits) < n) bits++;
      std::vector<Z3_ast> cur; for (size_t i = 0; i < (1ull << bits); i++) cur.push_back(bvconst(c, i < n ? e->tbl->v[i] : 0, e->w));
      for (unsigned k = 0; k < bits; k++) {
        Z3_ast bit = k < iw ? bv1b(c, Z3_mk_extract(c, k, k, idx)) : Z3_mk_false(c);
        std::vector<Z3_ast> nx; for (size_t i = 0; i < cur.size(); i += 2) nx.push_back(cur[i] == cur[i + 1] ? cur[i] : Z3_mk_ite(c, bit, cur[i + 1], cur[i]));
        cur.swap(nx);
      }
      Z3_ast r = cur[0];
      if (iw > bits) { Z3_ast over = Z3_mk_not(c, Z3_mk_eq(c, Z3_mk_extract(c, iw - 1, bits, idx), bvconst(c, 0, iw - bits))); r = Z3_mk_ite(c, over, bvconst(c, 0, e->w), r); }
      return e->w == 1 ? bv1b(c, r) : r;
    }
    case O_AND: case O_OR: case O_XOR:
      if (e->w == 1) { Z3_ast ar[2] = {toZ3(c, a), toZ3(c, b)}; if (e->op == O_AND) return Z3_mk_and(c, 2, ar); if (e->op == O_OR) return Z3_mk_or(c, 2, ar); if (isC(b)) return b->c ? Z3_mk_not(c, ar[0]) : ar[0]; return Z3_mk_xor(c, ar[0], ar[1]); }
      break;
    case O_UITOFP: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), asBv(c, a), fpsort(c, e->w)));
    case O_SITOFP: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), asBv(c, a), fpsort(c, e->w)));
    case O_FADD: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, Z3_mk_fpa_rne(c), asfp(c, a), asfp(c, b)));
    case O_FSUB: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, Z3_mk_fpa_rne(c), asfp(c, a), asfp(c, b)));
    case O_FMUL: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, Z3_mk_fpa_rne(c), asfp(c, a), asfp(c, b)));
    case O_FDIV: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, Z3_mk_fpa_rne(c), asfp(c, a), asfp(c, b)));
    case O_FOEQ: return Z3_mk_fpa_eq(c, asfp(c, a), asfp(c, b));
    case O_FOLT: return Z3_mk_fpa_lt(c, asfp(c, a), asfp(c, b));
    case O_FOLE: return Z3_mk_fpa_leq(c, asfp(c, a), asfp(c, b));
    case O_FUNO: { Z3_ast ar[2] = {Z3_mk_fpa_is_nan(c, asfp(c, a)), Z3_mk_fpa_is_nan(c, asfp(c, b))}; return Z3_mk_or(c, 2, ar); }
    case O_FFLOOR: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), asfp(c, a)));
    case O_FTRUNC: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), asfp(c, a)));
    case O_FCEIL: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), asfp(c, a)));
    case O_FROUNDEVEN: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rne(c), asfp(c, a)));
    case O_FPEXT: case O_FPTRUNC: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), asfp(c, a), fpsort(c, e->w)));
    case O_FPTOUI: case O_FPTOUISAT: {
      Z3_ast f = asfp(c, a); Z3_sort s = fpsort(c, a->w);
      Z3_ast z = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), f, e->w);
      Z3_ast top = Z3_mk_fpa_numeral_double(c, ldexp(1.0, e->w), s); Z3_ast zero = Z3_mk_fpa_numeral_double(c, 0.0, s);
      return Z3_mk_ite(c, Z3_mk_fpa_geq(c, f, top), bvconst(c, maskw(e->w), e->w), Z3_mk_ite(c, Z3_mk_fpa_gt(c, f, zero), z, bvconst(c, 0, e->w)));
    }
    case O_FPTOSI: case O_FPTOSISAT: {
      Z3_ast f = asfp(c, a); Z3_sort s = fpsort(c, a->w);
      Z3_ast z = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), f, e->w);
      Z3_ast top = Z3_mk_fpa_numeral_double(c, ldexp(1.0, e->w - 1), s), bot = Z3_mk_fpa_numeral_double(c, -ldexp(1.0, e->w - 1), s);
      return Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), bvconst(c, 0, e->w), Z3_mk_ite(c, Z3_mk_fpa_geq(c, f, top), bvconst(c, maskw(e->w) >> 1, e->w), Z3_mk_ite(c, Z3_mk_fpa_leq(c, f, bot), bvconst(c, (u128)1 << (e->w - 1), e->w), z)));
    }
    default: break;
  }
  Z3_ast x = asBv(c, a), y = b ? asBv(c, b) : nullptr, r = nullptr;
  switch (e->op) {
    case O_ADD: r = Z3_mk_bvadd(c, x, y); break;
    case O_SUB: r = Z3_mk_bvsub(c, x, y); break;
    case O_MUL: r = Z3_mk_bvmul(c, x, y); break;
    case O_UDIV: r = Z3_mk_bvudiv(c, x, y); break;
    case O_UREM: r = Z3_mk_bvurem(c, x, y); break;
    case O_SDIV: r = Z3_mk_bvsdiv(c, x, y); break;
    case O_SREM: r = Z3_mk_bvsrem(c, x, y); break;
    case O_AND: r = Z3_mk_bvand(c, x, y); break;
    case O_OR: r = Z3_mk_bvor(c, x, y); break;
    case O_XOR: r = Z3_mk_bvxor(c, x, y); break;
    case O_SHL: r = Z3_mk_bvshl(c, x, y); break;
    case O_LSHR: r = Z3_mk_bvlshr(c, x, y); break;
    case O_ASHR: r = Z3_mk_bvashr(c, x, y); break;
    default: engine_error("toZ3: op " + std::to_string(e->op));
  }
  return e->w == 1 ? bv1b(c, r) : r;
}

#include "solver.h"
#include <chrono>
SolverStats g_ss; unsigned g_z3_timeout_ms = 60000;
static Z3_context ctx = nullptr;
static void zerr(Z3_context c, Z3_error_code e) { engine_error(std::string("z3: ") + Z3_get_error_msg(c, e)); }
static void init() {
  Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, zerr);
}

static int z3solve(const std::vector<Expr*>& cs, const std::vector<int>& vars, Model& m) {
  if (!ctx) init();
  auto t0 = std::chrono::steady_clock::now();
  bool fp = false; for (Expr* c : cs) if (hasFp(c)) fp = true;
  Z3_solver s; static Z3_solver ps0 = nullptr; static int mode = getenv("SX_SOLVER") ? atoi(getenv("SX_SOLVER")) : 1; static u64 uses = 0; bool persistent = false;
  auto setTo = [&](Z3_solver x) { Z3_params ps = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, ps); Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), g_z3_timeout_ms); Z3_solver_set_params(ctx, x, ps); Z3_params_dec_ref(ctx, ps); };
  if (fp) { Z3_symbol l = Z3_mk_string_symbol(ctx, "QF_FPBV"); s = Z3_mk_solver_for_logic(ctx, l); Z3_solver_inc_ref(ctx, s); setTo(s); }
  else if (mode == 0) { Z3_symbol l = Z3_mk_string_symbol(ctx, "QF_BV"); s = Z3_mk_solver_for_logic(ctx, l); Z3_solver_inc_ref(ctx, s); setTo(s); }
  else { if (ps0 && ++uses > 2000) { Z3_solver_dec_ref(ctx, ps0); ps0 = nullptr; uses = 0; } if (!ps0) { ps0 = mode == 1 ? Z3_mk_simple_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, ps0); setTo(ps0); Z3_solver_push(ctx, ps0); Z3_solver_check(ctx, ps0); Z3_solver_pop(ctx, ps0, 1);} s = ps0; persistent = true; Z3_solver_push(ctx, s); }
  for (Expr* c : cs) Z3_solver_assert(ctx, s, toZ3(ctx, c));
  Z3_lbool r = Z3_solver_check(ctx, s); int res = -1;
  if (r == Z3_L_TRUE) {
    res = 1; Z3_model zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm);
    for (int v : vars) { Z3_ast out; if (Z3_model_eval(ctx, zm, toZ3(ctx, g_vars[v]), true, &out)) { Z3_inc_ref(ctx, out); u64 x = 0; Z3_get_numeral_uint64(ctx, out, &x); if ((int)m.v.size() <= v) m.v.resize(v + 1, 0); m.v[v] = (u8)x; Z3_dec_ref(ctx, out); } }
    Z3_model_dec_ref(ctx, zm);
  } else if (r == Z3_L_FALSE) res = 0;
  if (persistent) Z3_solver_pop(ctx, s, 1); else Z3_solver_dec_ref(ctx, s);
  { double d = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); static const char* sl = getenv("SX_SLOW"); if (sl && d > atof(sl)) { fprintf(stderr, "SLOW %.2fs res=%d\n", d, res); for (Expr* c : cs) fprintf(stderr, "   %s\n", exprStr(c, 12).c_str()); } }
  g_ss.z3++; g_ss.z3time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (res < 0) g_ss.unknown++;
  return res;
}
struct VHash { size_t operator()(const std::vector<u64>& v) const { u64 h = 1469598103934665603ull; for (u64 x : v) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; } return h; } };
struct CacheE { int res; std::vector<std::pair<int, u8>> asg; };
static std::unordered_map<std::vector<u64>, CacheE, VHash> cache;

// model repair: try to set variables so that e evaluates to target
static void setVar(Model& m, u64 i, u8 v) { if (m.v.size() <= i) m.v.resize(i + 1, 0); m.v[i] = v; }
static u128 ev(Expr* e, Model& m) { g_eval_gen++; return evalExpr(e, m); }
static bool isFixed(const std::vector<u64>& f, u64 i) { return i / 64 < f.size() && ((f[i / 64] >> (i % 64)) & 1); }
static bool repair(Expr* e, u128 t, Model& m, const std::vector<u64>& fx, int depth) {
  if (e->op == O_CONST) return e->c == t;
  if (depth > 40) return false;
  u128 M = maskw(e->w); t &= M;
  switch (e->op) {
    case O_VAR: if (isFixed(fx, (u64)e->c)) return ((u64)e->c < m.v.size() ? m.v[(u64)e->c] : 0) == t; setVar(m, (u64)e->c, (u8)t); return true;
    case O_CONCAT: return repair(e->k[0], t >> e->k[1]->w, m, fx, depth + 1) && repair(e->k[1], t, m, fx, depth + 1);
    case O_EXTRACT: { u128 cur = ev(e->k[0], m); u128 mk = maskw(e->w) << (unsigned)e->c; return repair(e->k[0], (cur & ~mk) | (t << (unsigned)e->c), m, fx, depth + 1); }
    case O_ADD: if (isC(e->k[1])) return repair(e->k[0], t - e->k[1]->c, m, fx, depth + 1); { u128 b = ev(e->k[1], m); return repair(e->k[0], t - b, m, fx, depth + 1); }
    case O_SUB: if (isC(e->k[0])) return repair(e->k[1], e->k[0]->c - t, m, fx, depth + 1); { u128 b = ev(e->k[1], m); return repair(e->k[0], t + b, m, fx, depth + 1); }
    case O_XOR: { if (isC(e->k[1])) return repair(e->k[0], t ^ e->k[1]->c, m, fx, depth + 1); if (e->k[1]->vs->count < e->k[0]->vs->count) { u128 a = ev(e->k[0], m); return repair(e->k[1], t ^ a, m, fx, depth + 1); } u128 b = ev(e->k[1], m); return repair(e->k[0], t ^ b, m, fx, depth + 1); }
    case O_SEXT: return repair(e->k[0], t & maskw(e->k[0]->w), m, fx, depth + 1);
    case O_ITE: { bool c = ev(e->k[0], m) != 0; Expr* x = c ? e->k[1] : e->k[2]; Expr* o = c ? e->k[2] : e->k[1];
        if (isC(x) && x->c != t) { if (!repair(e->k[0], !c, m, fx, depth + 1)) return false; return repair(o, t, m, fx, depth + 1); }
        return repair(x, t, m, fx, depth + 1); }
    case O_TBL: { for (size_t i = 0; i < e->tbl->v.size(); i++) if (e->tbl->v[i] == t) return repair(e->k[0], i, m, fx, depth + 1); return false; }
    case O_AND:
      if (e->w == 1) { if (t) return repair(e->k[0], 1, m, fx, depth + 1) && repair(e->k[1], 1, m, fx, depth + 1); if (!ev(e->k[0], m) || !ev(e->k[1], m)) return true; return repair(e->k[1], 0, m, fx, depth + 1) || repair(e->k[0], 0, m, fx, depth + 1); }
      if (isC(e->k[1])) { if (t & ~e->k[1]->c) return false; u128 cur = ev(e->k[0], m); return repair(e->k[0], (cur & ~e->k[1]->c) | t, m, fx, depth + 1); } return false;
    case O_OR:
      if (e->w == 1) { if (!t) return repair(e->k[0], 0, m, fx, depth + 1) && repair(e->k[1], 0, m, fx, depth + 1); if (ev(e->k[0], m) || ev(e->k[1], m)) return true; return repair(e->k[0], 1, m, fx, depth + 1) || repair(e->k[1], 1, m, fx, depth + 1); }
      if (isC(e->k[1])) { if (e->k[1]->c & ~t) return false; return repair(e->k[0], t, m, fx, depth + 1); } return false;
    case O_EQ: {
      if (t) { if (isC(e->k[1])) return repair(e->k[0], e->k[1]->c, m, fx, depth + 1); if (e->k[1]->vs->count < e->k[0]->vs->count && repair(e->k[1], ev(e->k[0], m), m, fx, depth + 1)) return true; u128 b = ev(e->k[1], m); if (repair(e->k[0], b, m, fx, depth + 1)) return true; return repair(e->k[1], ev(e->k[0], m), m, fx, depth + 1); }
      if (!ev(e, m)) return true; u128 b = ev(e->k[1], m); return repair(e->k[0], (b ^ 1), m, fx, depth + 1); }
    case O_ULT: { u128 a = ev(e->k[0], m), b = ev(e->k[1], m); if ((a < b) == (bool)t) return true; u128 W = maskw(e->k[0]->w);
      if (t) { if (b > 0 && !isC(e->k[0]) && repair(e->k[0], b - 1, m, fx, depth + 1)) return true; if (a < W && !isC(e->k[1])) return repair(e->k[1], a + 1, m, fx, depth + 1); return false; }
      if (!isC(e->k[0]) && repair(e->k[0], b, m, fx, depth + 1)) return true; if (!isC(e->k[1])) return repair(e->k[1], a, m, fx, depth + 1); return false; }
    case O_SLT: { u128 a = ev(e->k[0], m), b = ev(e->k[1], m); unsigned w = e->k[0]->w; if ((sextw(a, w) < sextw(b, w)) == (bool)t) return true; u128 W = maskw(w);
      if (t) { if (!isC(e->k[0])) return repair(e->k[0], (b - 1) & W, m, fx, depth + 1); return repair(e->k[1], (a + 1) & W, m, fx, depth + 1); }
      if (!isC(e->k[0])) return repair(e->k[0], b, m, fx, depth + 1); return repair(e->k[1], a, m, fx, depth + 1); }
    case O_MUL: if (isC(e->k[1]) && e->k[1]->c && (t % e->k[1]->c) == 0) return repair(e->k[0], t / e->k[1]->c, m, fx, depth + 1); return false;
    case O_UDIV: if (isC(e->k[1])) return repair(e->k[0], t * e->k[1]->c, m, fx, depth + 1); return false;
    default: return false;
  }
}

// rewrite with variables whose value is fixed by another constraint
static Expr* subst(Expr* e, const std::unordered_map<u64, u8>& m, const std::vector<u64>& mask, std::unordered_map<Expr*, Expr*>& memo) {
  if (isC(e)) return e;
  if (e->op == O_VAR) { auto it = m.find((u64)e->c); return it == m.end() ? e : eConst(it->second, 8); }
  bool any = false; for (size_t i = 0; i < mask.size() && i < e->vs->b.size(); i++) if (mask[i] & e->vs->b[i]) { any = true; break; }
  if (!any) return e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Expr* k[3] = {nullptr, nullptr, nullptr}; for (int i = 0; i < e->nk; i++) k[i] = subst(e->k[i], m, mask, memo);
  Expr* r = e;
  switch (e->op) {
    case O_CONCAT: r = eConcat(k[0], k[1]); break;
    case O_EXTRACT: r = eExtract(k[0], (unsigned)e->c, e->w); break;
    case O_SEXT: r = eSext(k[0], e->w); break;
    case O_ITE: r = eIte(k[0], k[1], k[2]); break;
    case O_TBL: r = eTbl(k[0], e->tbl); break;
    default: if (e->op >= O_ADD && e->op <= O_SLE) r = eBin(e->op, k[0], k[1]); else r = e; break;
  }
  memo[e] = r; return r;
}
// set of byte values satisfying a constraint over a single variable
struct Dom { u64 w[4]; bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); } bool has(u8 v) const { return (w[v / 64] >> (v % 64)) & 1; } int count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]); } u8 any() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return 0; } };
static const Dom& domOf(Expr* e) {
  static std::unordered_map<Expr*, Dom> memo; auto it = memo.find(e); if (it != memo.end()) return it->second;
  Dom d = {{0, 0, 0, 0}}; Model t; int v = e->vs->first; setVar(t, v, 0);
  for (int x = 0; x < 256; x++) { t.v[v] = (u8)x; g_eval_gen++; if (evalExpr(e, t)) d.w[x / 64] |= 1ull << (x % 64); }
  return memo[e] = d;
}
// 0: found contradictory
static bool simplifyQuery(std::vector<Expr*>& q) {
  std::unordered_map<u64, u8> m; std::vector<u64> mask; std::vector<Expr*> eqs;
  for (int round = 0; round < 4; round++) {
    bool grew = false; std::vector<Expr*> rest;
    for (Expr* c : q) {
      if (isC(c)) { if (!c->c) return false; continue; }
      if (c->op == O_EQ && c->k[0]->op == O_VAR && isC(c->k[1])) { u64 v = (u64)c->k[0]->c; auto it = m.find(v); if (it != m.end()) { if (it->second != (u8)c->k[1]->c) return false; } else { m[v] = (u8)c->k[1]->c; if (mask.size() <= v / 64) mask.resize(v / 64 + 1, 0); mask[v / 64] |= 1ull << (v % 64); eqs.push_back(c); grew = true; } }
      else rest.push_back(c);
    }
    q = rest; if (!grew) break;
    std::unordered_map<Expr*, Expr*> memo; for (Expr*& c : q) c = subst(c, m, mask, memo);
  }
  for (Expr* c : q) if (isC(c) && !c->c) return false;
  q.insert(q.end(), eqs.begin(), eqs.end());
  return true;
}

// rewrite the boolean structure of a constraint with what is asserted elsewhere
static Expr* boolSimp(Expr* e, const std::unordered_map<Expr*, bool>& known, bool top, int depth) {
  if (isC(e)) return e;
  if (!top) { auto it = known.find(e); if (it != known.end()) return eConst(it->second, 1); }
  if (depth > 60 || e->w != 1) return e;
  if (e->op == O_AND || e->op == O_OR || (e->op == O_XOR && isC(e->k[1]))) { Expr* a = boolSimp(e->k[0], known, false, depth + 1); Expr* b = boolSimp(e->k[1], known, false, depth + 1); if (a == e->k[0] && b == e->k[1]) return e; return eBin(e->op, a, b); }
  return e;
}
int solveConj(const std::vector<Expr*>& cs0, const std::vector<u64>& fixed, Model& m) {
  g_ss.queries++;
  std::vector<Expr*> cs;
  { std::vector<Expr*> st(cs0.rbegin(), cs0.rend());
    while (!st.empty()) { Expr* c = st.back(); st.pop_back(); if (isC(c)) { if (!c->c) { g_ss.unsat++; return 0; } continue; }
      if (c->op == O_AND && c->w == 1) { st.push_back(c->k[1]); st.push_back(c->k[0]); continue; }
      cs.push_back(c); } }
  for (int round = 0; round < 3; round++) {
    bool compound = false; for (Expr* c : cs) if (c->op == O_OR || c->op == O_XOR) compound = true;
    if (!compound || cs.size() < 2) break;
    std::unordered_map<Expr*, bool> known; for (Expr* c : cs) { known[c] = true; if (c->op == O_XOR && isC(c->k[1])) known[c->k[0]] = false; }
    bool ch = false; std::vector<Expr*> out, st;
    for (Expr* c : cs) { bool neg = c->op == O_XOR && isC(c->k[1]) && c->k[1]->c; Expr* r;
      if (neg) { Expr* i = c->k[0]; Expr* j = (i->op == O_AND || i->op == O_OR) ? boolSimp(i, known, true, 0) : i; r = j == i ? c : eNot1(j); }
      else r = c->op == O_OR ? boolSimp(c, known, true, 0) : c;
      if (r != c) ch = true;
      st.push_back(r);
      while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (isC(x)) { if (!x->c) { g_ss.unsat++; g_ss.dom++; return 0; } continue; } if (x->op == O_AND && x->w == 1) { st.push_back(x->k[1]); st.push_back(x->k[0]); continue; } out.push_back(x); } }
    if (!ch) break; cs = out;
  }
  // free variables
  std::vector<u64> vs; for (Expr* c : cs) { if (vs.size() < c->vs->b.size()) vs.resize(c->vs->b.size(), 0); for (size_t i = 0; i < c->vs->b.size(); i++) vs[i] |= c->vs->b[i]; }
  std::vector<int> fv, xv;
  for (size_t i = 0; i < vs.size(); i++) { u64 b = vs[i]; while (b) { int k = __builtin_ctzll(b); b &= b - 1; int v = i * 64 + k; (isFixed(fixed, v) ? xv : fv).push_back(v); } }
  auto holds = [&](Model& mm) { g_eval_gen++; for (size_t i = cs.size(); i-- > 0;) if (!evalExpr(cs[i], mm)) return false; return true; };
  if (holds(m)) { g_ss.repair++; g_ss.sat++; return 1; }
  if (fv.empty()) { g_ss.unsat++; g_ss.dom++; return 0; }
  // cache
  std::vector<u64> key; for (Expr* c : cs) key.push_back(c->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  for (int v : xv) key.push_back(((u64)1 << 63) | ((u64)v << 8) | (v < (int)m.v.size() ? m.v[v] : 0));
  auto it = cache.find(key);
  if (it != cache.end()) { g_ss.cache++; if (it->second.res == 1) { for (auto& p : it->second.asg) setVar(m, p.first, p.second); g_ss.sat++; } else if (it->second.res == 0) g_ss.unsat++; return it->second.res; }
  int res = -2;
  // byte domains: constraints over one variable decide most queries
  std::unordered_map<int, Dom> doms; bool multi = false;
  for (Expr* c : cs) { if (c->vs->count != 1) { multi = true; continue; } const Dom& d = domOf(c); auto f = doms.find(c->vs->first); if (f == doms.end()) doms[c->vs->first] = d; else for (int i = 0; i < 4; i++) f->second.w[i] &= d.w[i]; }
  for (auto& d : doms) { if (d.second.empty() || (isFixed(fixed, d.first) && !d.second.has(d.first < (int)m.v.size() ? m.v[d.first] : 0))) { res = 0; g_ss.dom++; break; } }
  if (res == 0) {}
  else if (!multi) { res = 1; g_ss.dom++; for (auto& d : doms) if (!d.second.has(d.first < (int)m.v.size() ? m.v[d.first] : 0)) setVar(m, d.first, d.second.any()); }
  else if (fv.size() == 1) {
    // finite-domain decision of a single unknown byte
    g_ss.dom++; res = 0; u8 old = fv[0] < (int)m.v.size() ? m.v[fv[0]] : 0;
    for (int d = 0; d < 256; d++) { setVar(m, fv[0], (u8)d); if (holds(m)) { res = 1; break; } }
    if (!res) setVar(m, fv[0], old);
  } else {
    Model t = m; bool ok = false;
    // last constraint is the new one; repair it, then re-check all
    if (repair(cs.back(), 1, t, fixed, 0)) { ok = holds(t); if (!ok) { for (size_t r = 0; r < 3 && !ok; r++) { for (Expr* c : cs) { if (!ev(c, t)) repair(c, 1, t, fixed, 0); } ok = holds(t); } } }
    if (ok) { for (int v : xv) if ((v < (int)t.v.size() ? t.v[v] : 0) != (v < (int)m.v.size() ? m.v[v] : 0)) ok = false; }
    if (ok) { g_ss.repair++; res = 1; m.v = t.v; }
    else {
      std::vector<Expr*> q = cs;
      for (int v : xv) q.push_back(eBin(O_EQ, eVar(v), eConst(v < (int)m.v.size() ? m.v[v] : 0, 8)));
      for (auto& d : doms) if (d.second.count() == 1) q.push_back(eBin(O_EQ, eVar(d.first), eConst(d.second.any(), 8)));
      // a variable occurring in a single equation only is defined by it
      std::vector<std::pair<Expr*, Expr*>> defs;
      for (bool again = true; again;) {
        again = false; std::unordered_map<int, int> occ;
        for (Expr* c : q) if (!isC(c)) for (size_t i = 0; i < c->vs->b.size(); i++) { u64 b = c->vs->b[i]; while (b) { occ[i * 64 + __builtin_ctzll(b)]++; b &= b - 1; } }
        for (size_t i = 0; i < q.size() && !again; i++) { Expr* c = q[i]; if (c->op != O_EQ) continue;
          for (int k = 0; k < 2; k++) { Expr* v = c->k[k]; if (v->op != O_VAR || isC(c->k[1 - k])) continue; u64 x = (u64)v->c; if (occ[(int)x] != 1 || isFixed(fixed, x) || hasFp(c)) continue; Expr* r = c->k[1 - k]; if (x / 64 < r->vs->b.size() && ((r->vs->b[x / 64] >> (x % 64)) & 1)) continue; defs.push_back({v, r}); q.erase(q.begin() + i); again = true; break; } }
      }
      if (!simplifyQuery(q)) res = 0; else
      { std::vector<int> zv; for (int v : fv) { bool d = false; for (auto& x : defs) if ((int)(u64)x.first->c == v) d = true; if (!d) zv.push_back(v); } bool empty = true; for (Expr* c : q) if (!isC(c)) empty = false; res = empty ? 1 : z3solve(q, zv, m); }
      if (res == 1) for (size_t i = defs.size(); i-- > 0;) setVar(m, (u64)defs[i].first->c, (u8)ev(defs[i].second, m));
      if (res == 1 && !holds(m)) { bool fp = false; for (Expr* c : cs) if (hasFp(c)) fp = true; if (fp) { g_ss.unknown++; res = -1; } else engine_error("z3 model does not satisfy the query (encoding mismatch)"); }
    }
  }
  CacheE ce; ce.res = res; if (res == 1) for (int v : fv) ce.asg.push_back({v, v < (int)m.v.size() ? m.v[v] : 0});
  cache.emplace(std::move(key), std::move(ce));
  if (res == 1) g_ss.sat++; else if (res == 0) g_ss.unsat++;
  return res;
}

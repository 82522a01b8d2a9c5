// Symbolic executor for the loaded IR: forking, memory, libc and file-system model, reporting.
#include "ir.h"
#include "solver.h"
#include <chrono>
#include <set>
#include <deque>
#include <fstream>
#include <pthread.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>

struct Val { u128 c = 0; Expr* e = nullptr; };
static inline Val VC(u128 c) { Val v; v.c = c; return v; }
static inline Val VE(Expr* e) { Val v; if (isC(e)) v.c = e->c; else v.e = e; return v; }
static inline Expr* X(const Val& v, unsigned w) { return v.e ? v.e : eConst(v.c, w); }

struct Bytes {
  std::vector<u8> c; std::vector<Expr*> e;   // e empty or same size as c
  u64 size() const { return c.size(); }
  void resize(u64 n) { c.resize(n, 0); if (!e.empty()) e.resize(n, nullptr); }
  Expr* sym(u64 i) const { return (e.empty() || i >= e.size()) ? nullptr : e[i]; }
  u8 con(u64 i) const { return i < c.size() ? c[i] : 0; }
  void set(u64 i, u8 v) { c[i] = v; if (!e.empty()) e[i] = nullptr; }
  void setE(u64 i, Expr* x) { if (isC(x)) { set(i, (u8)x->c); return; } if (e.empty()) e.assign(c.size(), nullptr); e[i] = x; }
  Expr* get(u64 i) const { Expr* s = sym(i); return s ? s : eConst(con(i), 8); }
};
struct Obj { int rc = 0; u64 base, size; bool ro = false; Bytes b; };
struct ObjP {
  Obj* p; ObjP(Obj* o = nullptr) : p(o) { if (p) p->rc++; } ObjP(const ObjP& o) : p(o.p) { if (p) p->rc++; } ObjP(ObjP&& o) noexcept : p(o.p) { o.p = nullptr; }
  ObjP& operator=(ObjP o) { std::swap(p, o.p); return *this; } ~ObjP() { if (p && --p->rc == 0) delete p; } Obj* operator->() const { return p; }
};
struct Frame { int rc = 0; Func* f; int blk = 0, idx = 0; std::vector<Val> regs; u64 base = 0; Instr* call = nullptr; };
struct FrameP {
  Frame* p; FrameP(Frame* o = nullptr) : p(o) { if (p) p->rc++; } FrameP(const FrameP& o) : p(o.p) { if (p) p->rc++; } FrameP(FrameP&& o) noexcept : p(o.p) { o.p = nullptr; }
  FrameP& operator=(FrameP o) { std::swap(p, o.p); return *this; } ~FrameP() { if (p && --p->rc == 0) delete p; } Frame* operator->() const { return p; }
};
struct FD { int file = -1; Expr* posE = nullptr; u64 pos = 0; bool open = false; int flags = 0; };
struct State {
  std::vector<FrameP> fr; std::vector<ObjP> objs; u64 next = 0x1000000000ull; std::vector<Expr*> pc; ModelP m; std::vector<u64> fixed; int nvars = 0; u64 steps = 0; u64 decisions = 0;
  std::map<std::string, int> names; std::vector<std::shared_ptr<Bytes>> files; std::vector<FD> fds; u64 errnoAddr = 0; size_t last = 0;
  std::vector<u64> picks; std::set<u64> tlsInit; bool ro = false; int sysFaultAt = 0, sysFaultMode = 0, sysCount = 0; bool sysHit = false; std::string notes, trace;
};
struct Violation { std::string kind, where, msg; std::vector<u8> input; std::string stack; std::string notes; u64 count = 1; };

static struct Cfg { std::string ir, fn, out; std::vector<u64> params; u64 maxSteps = 8000000, maxDec = 60000; double maxTime = 600; u64 maxPaths = ~0ull; u64 maxViol = 40; bool verbose = false, fmtPrecise = false, asciiLower = false; u64 maxMem = 6000; std::string cover; } cfg;
static std::deque<State*> work;
static std::map<std::string, Violation> viols;
static std::map<std::string, u64> reach;
static struct { u64 paths = 0, done = 0, assumed = 0, forks = 0, steps = 0, incomplete = 0, maxPc = 0, conc = 0; u64 states = 1, checks = 0; } st;
static std::vector<Obj*> cglobals; static std::vector<Val> consts_dummy;
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static State* CUR = nullptr;

struct PathEnd {};   // thrown to stop the current path

static std::string dbgStack(State* s, int maxn = 12);
[[noreturn]] void engine_error(const std::string& msg) {
  std::string stack = CUR ? dbgStack(CUR) : "";
  fprintf(stderr, "ENGINE-ERROR: %s\n%s\n", msg.c_str(), stack.c_str());
  if (!cfg.out.empty()) { std::ofstream o(cfg.out); std::string m = msg; for (char& c : m) if (c == '"' || c == '\\' || c < 32) c = ' '; o << "{\"engine_error\": \"" << m << "\"}\n"; }
  _exit(3);
}

// ---- debug info ---------------------------------------------------------------------------------
static std::string scopeFn(int sc) { int g = 0; while (sc >= 0 && g++ < 100) { auto it = g_mod.scopes.find(sc); if (it == g_mod.scopes.end()) break; if (it->second.sub) return it->second.name; sc = it->second.parent; } return "?"; }
static std::string scopeFile(int sc) { auto it = g_mod.scopes.find(sc); if (it == g_mod.scopes.end()) return "?"; auto f = g_mod.files.find(it->second.file); return f == g_mod.files.end() ? "?" : f->second; }
static std::string locStr(int d) { std::string r; int n = 0; while (d >= 0 && n++ < 10) { auto it = g_mod.locs.find(d); if (it == g_mod.locs.end()) break; r += (n > 1 ? " <- " : "") + scopeFile(it->second.scope) + ":" + std::to_string(it->second.line); d = it->second.inl; } return r; }
static std::string dbgStack(State* s, int maxn) { std::string r; for (int i = (int)s->fr.size() - 1; i >= 0 && maxn-- > 0; i--) { Frame* f = s->fr[i].p; auto& b = f->f->bl[f->blk].in; int ix = f->idx; if (ix < (int)b.size()) r += "  " + f->f->name + " @ " + locStr(b[ix].dbg) + "\n"; } return r; }

// ---- memory -----------------------------------------------------------------------------------------
static Obj* findIn(std::vector<ObjP>& v, u64 a, size_t& last) {
  if (last < v.size()) { Obj* o = v[last].p; if (a >= o->base && a < o->base + std::max<u64>(o->size, 1)) return o; }
  size_t lo = 0, hi = v.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->base <= a) lo = m + 1; else hi = m; }
  if (!lo) return nullptr; Obj* o = v[lo - 1].p; if (a >= o->base + std::max<u64>(o->size, 1)) return nullptr; last = lo - 1; return o;
}
static Obj* findC(u64 a) { size_t lo = 0, hi = cglobals.size(); while (lo < hi) { size_t m = (lo + hi) / 2; if (cglobals[m]->base <= a) lo = m + 1; else hi = m; } if (!lo) return nullptr; Obj* o = cglobals[lo - 1]; return a < o->base + std::max<u64>(o->size, 1) ? o : nullptr; }
static Obj* findObj(State* s, u64 a) { if (a < 0x80000000ull) return findC(a); return findIn(s->objs, a, s->last); }
static Obj* need(State* s, u64 a, u64 n) { Obj* o = findObj(s, a); if (!o) { engine_error("memory access outside any object at 0x" + [&] { char b[32]; snprintf(b, 32, "%llx", (unsigned long long)a); return std::string(b); }()); } if (a + n > o->base + o->size) engine_error("memory access crosses object end (size " + std::to_string(o->size) + " off " + std::to_string(a - o->base) + " n " + std::to_string(n) + ")"); return o; }
static Obj* wr(State* s, u64 a, u64 n) {
  Obj* o = need(s, a, n); if (o->ro) engine_error("write to constant memory");
  if (o->rc > 1) { Obj* q = new Obj(*o); q->rc = 0; s->objs[s->last] = ObjP(q); o = q; }
  u64 end = a - o->base + n; if (end > o->b.size()) { u64 g = std::min<u64>(o->size, std::max<u64>(end, o->b.size() * 2)); if (g > (1ull << 28)) engine_error("object data too large"); o->b.resize(g); }
  return o;
}
static u64 allocObj(State* s, u64 size, u64 align, bool zero = true) {
  u64 al = std::max<u64>(align, 16); u64 a = (s->next + al - 1) / al * al; s->next = a + size + 32;
  Obj* o = new Obj; o->base = a; o->size = size; if (size <= 8192) o->b.resize(size); s->objs.push_back(ObjP(o)); return a;
}
static void freeObj(State* s, u64 a) { if (!a) return; Obj* o = findIn(s->objs, a, s->last); if (!o || o->base != a) engine_error("free of non-object"); s->objs.erase(s->objs.begin() + s->last); s->last = 0; }

static Val loadO(State* s, Obj* o, u64 off, u64 nb, unsigned w) {
  bool sym = false; if (!o->b.e.empty()) for (u64 i = 0; i < nb; i++) if (o->b.sym(off + i)) { sym = true; break; }
  if (!sym) { u128 v = 0; for (u64 i = 0; i < nb; i++) v |= (u128)o->b.con(off + i) << (8 * i); return VC(v & maskw(w)); }
  Expr* r = nullptr;
  for (u64 i = 0; i < nb; i++) {
    Expr* x = o->b.get(off + i);
    if (x->op == O_VAR) { u64 v = (u64)x->c; if (v / 64 < s->fixed.size() && ((s->fixed[v / 64] >> (v % 64)) & 1)) x = eConst(s->m->v[v], 8); }
    r = r ? eConcat(x, r) : x;
  }
  if (r->w > w) r = eExtract(r, 0, w); else if (r->op == O_EXTRACT) r = eExtract(r->k[0], (unsigned)r->c, r->w);
  return VE(r);
}
static void storeO(Obj* o, u64 off, u64 nb, unsigned w, const Val& v) {
  if (!v.e) { u128 c = v.c & maskw(w); for (u64 i = 0; i < nb; i++) o->b.set(off + i, (u8)(c >> (8 * i))); return; }
  Expr* e = eZext(v.e, nb * 8);
  for (u64 i = 0; i < nb; i++) o->b.setE(off + i, eExtractMem(e, 8 * i, 8));
}

static void report(State* s, const std::string& kind, const std::string& where, const std::string& msg, ModelP m);
// ---- constraints and forking -------------------------------------------------------------------------
static u128 evalM(State* s, Expr* e) {
  static ModelP lastM; static u32 lastGen = 0;   // reuse memo while the model object is unchanged
  if (lastM != s->m || lastGen != g_eval_gen) { g_eval_gen++; lastM = s->m; lastGen = g_eval_gen; }
  return evalExpr(e, *s->m);
}
static void addC(State* s, Expr* c) {
  if (isC(c)) { if (!c->c) engine_error("adding false constraint"); return; }
  if (c->op == O_AND) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
  if (c->op == O_XOR && isC(c->k[1]) && c->k[0]->op == O_OR) { addC(s, eNot1(c->k[0]->k[0])); addC(s, eNot1(c->k[0]->k[1])); return; }
  for (Expr* x : s->pc) if (x == c) return;
  if (c->op == O_EQ && c->k[0]->op == O_VAR && isC(c->k[1])) { u64 v = (u64)c->k[0]->c; if (s->fixed.size() <= v / 64) s->fixed.resize(v / 64 + 1, 0); s->fixed[v / 64] |= 1ull << (v % 64); }
  s->pc.push_back(c); if (s->pc.size() > st.maxPc) st.maxPc = s->pc.size();
}
// sat(pc /\ q); on success newm = model
static int satWith(State* s, Expr* q, ModelP& newm) {
  if (isC(q)) { if (q->c) { newm = s->m; return 1; } return 0; }
  std::vector<u64> vs = q->vs->b; auto mask = [&](std::vector<u64>& v) { for (size_t i = 0; i < v.size() && i < s->fixed.size(); i++) v[i] &= ~s->fixed[i]; };
  mask(vs); std::vector<Expr*> cs; std::vector<char> used(s->pc.size(), 0); bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s->pc.size(); i++) if (!used[i]) {
      auto& b = s->pc[i]->vs->b; bool hit = false; for (size_t k = 0; k < b.size() && k < vs.size(); k++) if (b[k] & vs[k]) { hit = true; break; }
      if (!hit) continue; used[i] = 1; ch = true; std::vector<u64> nb = b; mask(nb); if (vs.size() < nb.size()) vs.resize(nb.size(), 0); for (size_t k = 0; k < nb.size(); k++) vs[k] |= nb[k];
    }
  }
  for (size_t i = 0; i < s->pc.size(); i++) if (used[i]) cs.push_back(s->pc[i]);
  cs.push_back(q); Model m; m.v = s->m->v; int r = solveConj(cs, s->fixed, m);
  if (r == 1) { newm = std::make_shared<Model>(std::move(m)); }
  return r;
}
static std::map<std::string, u64> forkSites;
static State* clone(State* s) { if (cfg.verbose && !s->fr.empty()) { Frame* f = s->fr.back().p; auto& b = f->f->bl[f->blk].in; if (f->idx < (int)b.size()) forkSites[locStr(b[f->idx].dbg).substr(0, 200) + " ic=" + std::to_string(b[f->idx].ic) + " " + f->f->name.substr(0, 60)]++; } State* t = new State(*s); st.forks++; st.states++; return t; }
// decides a 1-bit condition on state s; when both sides are feasible `other` is a clone constrained to the other side
static bool decide(State* s, Expr* c, State*& other) {
  other = nullptr; if (isC(c)) return c->c != 0;
  { Expr* n = eNot1(c); for (Expr* x : s->pc) { if (x == c) return true; if (x == n) return false; } }
  if (++s->decisions > cfg.maxDec) { report(s, "hang", dbgStack(s, 1), "decision limit exceeded", s->m); st.done++; throw PathEnd(); }
  bool b = evalM(s, c) != 0; Expr* neg = b ? eNot1(c) : c; ModelP nm; int r = satWith(s, neg, nm);
  if (r < 0) { st.incomplete++; s->notes += "|solver-unknown"; }
  if (r == 1) { other = clone(s); other->m = nm; addC(other, neg); addC(s, b ? c : eNot1(c)); }
  return b;
}
static void pushWork(State* s) { work.push_back(s); }
static Frame* top(State* s) { FrameP& f = s->fr.back(); if (f->rc > 1) { Frame* n = new Frame(*f.p); n->rc = 0; f = FrameP(n); } return f.p; }
// concretise a value: current state takes the model's value, a clone (re-executing the current instruction) takes the rest
static u128 conc(State* s, Val& v, unsigned w) {
  if (!v.e) return v.c;
  u128 x = evalM(s, v.e); Expr* eq = eBin(O_EQ, v.e, eConst(x, w)); Expr* rest = eNot1(eq);
  std::vector<std::pair<Expr*, ModelP>> alts; bool open = false;
  while (true) {
    ModelP nm; int r = satWith(s, rest, nm); if (r < 0) st.incomplete++; if (r != 1) break;
    g_eval_gen++; u128 y = evalExpr(v.e, *nm); Expr* e2 = eBin(O_EQ, v.e, eConst(y, w)); 
    if (alts.size() >= 128) { State* o = clone(s); o->m = nm; addC(o, rest); pushWork(o); open = true; break; }
    alts.push_back({e2, nm}); rest = eBin(O_AND, rest, eNot1(e2));
  }
  (void)open;
  for (auto& al : alts) { State* o = clone(s); o->m = al.second; addC(o, al.first); pushWork(o); st.conc++; }
  if (!alts.empty()) addC(s, eq);
  v.e = nullptr; v.c = x; return x;
}
static Val getv(Frame* f, const Opd& o, unsigned lane = 0) { if (o.slot >= 0) return f->regs[o.slot + lane]; return VC(f->f->consts[o.cidx + lane]); }
static u128 concOp(State* s, Frame* f, const Opd& o, unsigned lane = 0) { Val v = getv(f, o, lane); if (!v.e) return v.c; u128 r = conc(s, v, o.t->bits ? o.t->bits : 64); if (o.slot >= 0) top(s)->regs[o.slot + lane] = VC(r); return r; }

static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void report(State* s, const std::string& kind, const std::string& where, const std::string& msg, ModelP m) {
  std::string key = kind + "|" + where + "|" + msg; auto it = viols.find(key); if (it != viols.end()) { it->second.count++; return; }
  Violation v; v.kind = kind; v.where = where; v.msg = msg; v.stack = dbgStack(s, 30); v.notes = s->notes; for (int i = 0; i < s->nvars; i++) v.input.push_back(i < (int)m->v.size() ? m->v[i] : 0);
  if (cfg.verbose) { fprintf(stderr, "VIOL %s %s %s\n%s", kind.c_str(), where.c_str(), msg.c_str(), v.stack.c_str()); for (u8 b : v.input) fprintf(stderr, "%02x", b); fprintf(stderr, "\n"); }
  viols[key] = v;
}

// symbolic address -> list handled by callers
struct Res { bool sym = false; u64 addr = 0; Obj* o = nullptr; Expr* off = nullptr; u64 lo = 0, hi = 0, stride = 1; };
static unsigned tz(Expr* e, int d = 0) { if (isC(e)) { if (!e->c) return 64; unsigned n = 0; while (!((e->c >> n) & 1)) n++; return n; } if (d > 20) return 0; switch (e->op) { case O_CONCAT: { unsigned l = tz(e->k[1], d + 1); return l >= e->k[1]->w ? e->k[1]->w + tz(e->k[0], d + 1) : l; } case O_ADD: case O_SUB: return std::min(tz(e->k[0], d + 1), tz(e->k[1], d + 1)); case O_MUL: return std::min(64u, tz(e->k[0], d + 1) + tz(e->k[1], d + 1)); case O_ITE: return std::min(tz(e->k[1], d + 1), tz(e->k[2], d + 1)); default: return 0; } }
static void tighten(State* s, Expr* off, u64& lo, u64& hi) {
  // binary search of the true maximum/minimum with the solver
  u64 cur = (u64)evalM(s, off); u64 a = cur, b = hi; ModelP nm;
  while (a < b) { u64 mid = a + (b - a) / 2; int r = satWith(s, eBin(O_ULT, eConst(mid, 64), off), nm); if (r == 1) { g_eval_gen++; u64 v = (u64)evalExpr(off, *nm); a = std::max(v, mid + 1); } else b = mid; }
  hi = b; a = lo; b = cur;
  while (a < b) { u64 mid = a + (b - a) / 2; int r = satWith(s, eBin(O_ULE, off, eConst(mid, 64)), nm); if (r == 1) { g_eval_gen++; u64 v = (u64)evalExpr(off, *nm); b = std::min(v, mid); } else a = mid + 1; }
  lo = a;
}
static Res resolve(State* s, Frame* f, const Opd& op, u64 n, u64 maxCand) {
  Res r; Val v = getv(f, op); if (!v.e) { r.addr = (u64)v.c; return r; }
  Expr* a = v.e;
  // selection between a few constants: fork on value
  { Expr* x = a; int leaves = 0; bool allc = true; while (x->op == O_ITE && leaves < 8) { if (!isC(x->k[1])) allc = false; leaves++; x = x->k[2]; } if (leaves && allc && isC(x)) { r.addr = (u64)concOp(s, f, op); return r; } }
  u64 cur = (u64)evalM(s, a); Obj* o = findObj(s, cur); if (!o) { r.addr = (u64)concOp(s, f, op); return r; }
  Expr* off = eBin(O_SUB, a, eConst(o->base, 64));
  if (o->size < n) { r.addr = (u64)concOp(s, f, op); return r; }
  Expr* inb = eBin(O_ULE, off, eConst(o->size - n, 64)); State* other = nullptr;
  if (!isC(inb)) { bool in = decide(s, inb, other); if (other) pushWork(other); if (!in) { r.addr = (u64)concOp(s, f, op); return r; } }
  else if (!inb->c) { r.addr = (u64)concOp(s, f, op); return r; }
  u64 lo = off->lo, hi = std::min(off->hi, o->size - n); unsigned z = tz(off); u64 stride = z >= 16 ? 1 : 1ull << z;
  bool plain = hi == off->hi && (hi - lo) / stride < 256;  // a table lookup inside the object's concrete bytes needs no exact bounds
  if (plain && !o->b.e.empty()) for (u64 i = lo; i < hi + n && i < o->b.e.size(); i++) if (o->b.e[i]) { plain = false; break; }
  if ((hi - lo) / stride > 16 && !o->ro && !plain) tighten(s, off, lo, hi);
  lo = (lo + stride - 1) / stride * stride;
  if ((hi - lo) / stride + 1 > maxCand) { r.addr = (u64)concOp(s, f, op); return r; }
  if (hi == lo) { r.addr = o->base + lo; return r; }
  if (!o->ro && !o->b.e.empty()) for (u64 i = lo; i < hi + n && i < o->b.e.size(); i++) if (o->b.e[i]) { r.addr = (u64)concOp(s, f, op); return r; }
  r.sym = true; r.o = o; r.off = off; r.lo = lo; r.hi = hi; r.stride = stride; return r;
}
static std::map<std::vector<u64>, Table*> tables;
static Val loadSym(State* s, const Res& r, u64 extra, u64 nb, unsigned w) {
  // value read at obj offset off+extra
  std::vector<std::pair<u64, Val>> cand; bool allc = true;
  for (u64 v = r.lo; v <= r.hi; v += r.stride) { Val x = loadO(s, r.o, v + extra, nb, w); if (x.e) allc = false; cand.push_back({v, x}); }
  if (allc && w <= 64) {
    bool same = true; for (auto& c : cand) if (c.second.c != cand[0].second.c) same = false; if (same) return cand[0].second;
    std::vector<u64> key; key.push_back(w); for (auto& c : cand) key.push_back((u64)c.second.c); Table*& t = tables[key]; if (!t) { t = new Table; t->w = w; for (auto& c : cand) t->v.push_back((u64)c.second.c); }
    Expr* idx = eBin(O_SUB, r.off, eConst(r.lo, 64)); unsigned z = 0; while ((1ull << z) < r.stride) z++; if (z) idx = eExtract(idx, z, 64 - z);
    unsigned need = 1; while ((1ull << need) < cand.size()) need++; if (idx->w > need) idx = eExtract(idx, 0, need);
    return VE(eTbl(idx, t));
  }
  Expr* res = X(cand.back().second, w);
  for (size_t i = cand.size() - 1; i-- > 0;) res = eIte(eBin(O_EQ, r.off, eConst(cand[i].first, 64)), X(cand[i].second, w), res);
  return VE(res);
}
static Val loadAt(State* s, Frame* f, const Opd& op, const Res& r, u64 extra, Type* t) {
  u64 nb = (t->bits + 7) / 8;
  if (!r.sym) { Obj* o = need(s, r.addr + extra, nb); return loadO(s, o, r.addr + extra - o->base, nb, t->bits); }
  return loadSym(s, r, extra, nb, t->bits);
}
static void loadT(State* s, Frame* f, const Opd& op, const Res& r, u64 off, Type* t, u32& dst, Frame* g) {
  switch (t->k) {
    case T_STRUCT: for (size_t i = 0; i < t->el.size(); i++) loadT(s, f, op, r, off + t->off[i], t->el[i], dst, g); break;
    case T_ARR: case T_VEC: if (t->k == T_VEC && t->el[0]->bits < 8) engine_error("sub-byte vector load"); for (u64 i = 0; i < t->n; i++) loadT(s, f, op, r, off + i * t->elsize, t->el[0], dst, g); break;
    default: g->regs[dst++] = loadAt(s, f, op, r, off, t);
  }
}
static void storeSym(State* s, const Res& r, u64 extra, u64 nb, unsigned w, const Val& v) {
  Obj* o = wr(s, r.o->base, r.hi + extra + nb); Expr* e = eZext(X(v, w), nb * 8);
  for (u64 c = r.lo; c <= r.hi; c += r.stride) { Expr* g = eBin(O_EQ, r.off, eConst(c, 64)); for (u64 i = 0; i < nb; i++) o->b.setE(c + extra + i, eIte(g, eExtract(e, 8 * i, 8), o->b.get(c + extra + i))); }
}
static void storeT(State* s, Frame* f, const Opd& src, const Res& r, u64 off, Type* t, u32& lane) {
  switch (t->k) {
    case T_STRUCT: for (size_t i = 0; i < t->el.size(); i++) storeT(s, f, src, r, off + t->off[i], t->el[i], lane); break;
    case T_ARR: case T_VEC: for (u64 i = 0; i < t->n; i++) storeT(s, f, src, r, off + i * t->elsize, t->el[0], lane); break;
    default: { Val v = getv(f, src, lane++); u64 nb = (t->bits + 7) / 8; if (!r.sym) { Obj* o = wr(s, r.addr + off, nb); storeO(o, r.addr + off - o->base, nb, t->bits, v); } else storeSym(s, r, off, nb, t->bits, v); }
  }
}

// ---- intrinsics / externals -----------------------------------------------------------------------------
typedef void (*Handler)(State*, Frame*, Instr&, std::vector<Opd>& args);
static void setRet(State* s, Instr& I, const Val& v, unsigned lane = 0) { if (I.t->k != T_VOID) top(s)->regs[I.dst + lane] = v; }
static Val binop(Op op, unsigned w, const Val& a, const Val& b) { if (!a.e && !b.e) return VC(evalOp(op, (op >= O_EQ && op <= O_SLE) ? 1 : w, a.c & maskw(w), b.c & maskw(w), w)); return VE(eBin(op, X(a, w), X(b, w))); }
static std::string cstr(State* s, u64 a) { std::string r; while (true) { Obj* o = need(s, a, 1); Val v = loadO(s, o, a - o->base, 1, 8); if (v.e) engine_error("symbolic C string"); if (!v.c) break; r += (char)v.c; a++; } return r; }
static std::string rstr(State* s, u64 a, u64 n) { std::string r; for (u64 i = 0; i < n; i++) { Obj* o = need(s, a + i, 1); Val v = loadO(s, o, a + i - o->base, 1, 8); r += v.e ? '?' : (char)v.c; } return r; }
static Val byteAt(State* s, u64 a) { Obj* o = need(s, a, 1); return loadO(s, o, a - o->base, 1, 8); }

static void doCopy(State* s, Frame* f, const Opd& d, const Opd& sOp, u64 n) {
  if (n == 0) return;
  Res src = resolve(s, f, sOp, n, n <= 16 ? 512 : 0); f = top(s); Res dst = resolve(s, f, d, n, n <= 16 ? 300 : 0); f = top(s);
  std::vector<Val> tmp(n);
  if (!src.sym && !dst.sym) {
    Obj* so = need(s, src.addr, n); u64 o1 = src.addr - so->base; 
    ObjP keep(so); Obj* dd = wr(s, dst.addr, n); u64 o2 = dst.addr - dd->base; Obj* s2 = keep.p;
    bool anysym = false; if (!s2->b.e.empty()) for (u64 i = 0; i < n; i++) if (s2->b.sym(o1 + i)) { anysym = true; break; }
    if (!anysym) { if (o1 + n > s2->b.c.size()) { std::vector<u8> t(n); for (u64 i = 0; i < n; i++) t[i] = s2->b.con(o1 + i); memcpy(&dd->b.c[o2], t.data(), n); } else memmove(&dd->b.c[o2], &s2->b.c[o1], n); if (!dd->b.e.empty()) for (u64 i = 0; i < n; i++) dd->b.e[o2 + i] = nullptr; return; }
    std::vector<Expr*> te(n); std::vector<u8> tc(n); for (u64 i = 0; i < n; i++) { te[i] = s2->b.sym(o1 + i); tc[i] = s2->b.con(o1 + i); }
    for (u64 i = 0; i < n; i++) { if (te[i]) dd->b.setE(o2 + i, te[i]); else dd->b.set(o2 + i, tc[i]); } return;
  }
  for (u64 i = 0; i < n; i++) { if (src.sym) tmp[i] = loadSym(s, src, i, 1, 8); else tmp[i] = byteAt(s, src.addr + i); }
  if (!dst.sym) { for (u64 i = 0; i < n; i++) { Obj* o = wr(s, dst.addr + i, 1); storeO(o, dst.addr + i - o->base, 1, 8, tmp[i]); } }
  else { // pack
    for (u64 i = 0; i < n; i++) storeSym(s, dst, i, 1, 8, tmp[i]); }
}
static Expr* andTree(std::vector<Expr*> v) { if (v.empty()) return eConst(1, 1); while (v.size() > 1) { std::vector<Expr*> n; for (size_t i = 0; i + 1 < v.size(); i += 2) n.push_back(eBin(O_AND, v[i], v[i + 1])); if (v.size() & 1) n.push_back(v.back()); v.swap(n); } return v[0]; }
static void h_memcmp(State* s, Frame* f, Instr& I, std::vector<Opd>& a) {
  u64 n = (u64)concOp(s, f, a[2]); f = top(s); if (n == 0) { setRet(s, I, VC(0)); return; } u64 p = (u64)concOp(s, f, a[0]); f = top(s); u64 q = (u64)concOp(s, f, a[1]); f = top(s);
  bool ord = I.callee->name == "memcmp"; std::vector<Expr*> eqs; bool diff = false; std::vector<std::pair<Val, Val>> pr;
  for (u64 i = 0; i < n; i++) { Val x = byteAt(s, p + i), y = byteAt(s, q + i); if (!x.e && !y.e) { if (x.c == y.c) continue; diff = true; pr.push_back({x, y}); if (ord) break; eqs.push_back(eConst(0, 1)); break; } Expr* e = eBin(O_EQ, X(x, 8), X(y, 8)); if (isC(e) && e->c) continue; eqs.push_back(e); pr.push_back({x, y}); }
  (void)diff;
  if (!ord) { Expr* e = andTree(eqs); setRet(s, I, VE(eZext(eNot1(e), 32))); return; }
  Expr* r = eConst(0, 32); for (size_t i = pr.size(); i-- > 0;) { Expr *x = X(pr[i].first, 8), *y = X(pr[i].second, 8); r = eIte(eBin(O_ULT, x, y), eConst(0xffffffff, 32), eIte(eBin(O_EQ, x, y), r, eConst(1, 32))); }
  setRet(s, I, VE(r));
}
static const u64 ALLOC_CAP = 1ull << 35;
// size of an allocation: returns object size or ~0 for "fails"
static bool allocSize(State* s, Frame* f, const Opd& o, u64& out) {
  Val v = getv(f, o); if (!v.e) { out = (u64)v.c; return out <= ALLOC_CAP; }
  if (v.e->hi > ALLOC_CAP) { State* other; bool big = decide(s, eBin(O_ULT, eConst(ALLOC_CAP, 64), v.e), other); if (other) pushWork(other); if (big) return false; }
  out = std::min(v.e->hi, ALLOC_CAP); return true;
}
static void h_malloc(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { u64 n; if (!allocSize(s, f, a[0], n)) { s->notes += "|alloc-fail"; setRet(s, I, VC(0)); return; } setRet(s, I, VC(allocObj(s, n, 16))); }
static void h_calloc(State* s, Frame* f, Instr& I, std::vector<Opd>& a) {
  Val x = getv(f, a[0]), y = getv(f, a[1]); u64 n;
  if (!x.e && !y.e) { u128 t = x.c * y.c; if (t > ALLOC_CAP) { s->notes += "|alloc-fail"; setRet(s, I, VC(0)); return; } setRet(s, I, VC(allocObj(s, (u64)t, 16))); return; }
  if (!(y.c == 1 && !y.e) && !(x.c == 1 && !x.e)) engine_error("calloc symbolic product");
  const Opd& o = x.e ? a[0] : a[1]; if (!allocSize(s, f, o, n)) { s->notes += "|alloc-fail"; setRet(s, I, VC(0)); return; } setRet(s, I, VC(allocObj(s, n, 16)));
}
static void h_realloc(State* s, Frame* f, Instr& I, std::vector<Opd>& a) {
  u64 p = (u64)concOp(s, f, a[0]); f = top(s); u64 n; if (!allocSize(s, f, a[1], n)) { s->notes += "|alloc-fail"; setRet(s, I, VC(0)); return; }
  u64 q = allocObj(s, n, 16); if (p) { Obj* o = findIn(s->objs, p, s->last); if (!o || o->base != p) engine_error("realloc of non-object"); ObjP k(o); Obj* d = wr(s, q, 0); u64 m = std::min<u64>(std::min<u64>(o->b.size(), o->size), n); if (d->b.size() < m) d->b.resize(m); for (u64 i = 0; i < m; i++) { if (k->b.sym(i)) d->b.setE(i, k->b.sym(i)); else d->b.set(i, k->b.con(i)); } freeObj(s, p); }
  setRet(s, I, VC(q));
}
static void h_free(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { freeObj(s, (u64)concOp(s, f, a[0])); }
static void h_memalign(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { u64 p = (u64)concOp(s, f, a[0]); u64 al = (u64)concOp(s, top(s), a[1]); u64 n; if (!allocSize(s, top(s), a[2], n)) { setRet(s, I, VC(12)); return; } u64 q = allocObj(s, n, al); Obj* o = wr(s, p, 8); storeO(o, p - o->base, 8, 64, VC(q)); setRet(s, I, VC(0)); }
static void setErrno(State* s, int e) { if (!s->errnoAddr) s->errnoAddr = allocObj(s, 8, 8); Obj* o = wr(s, s->errnoAddr, 4); storeO(o, 0, 4, 32, VC(e)); }
static void h_errno(State* s, Frame* f, Instr& I, std::vector<Opd>&) { if (!s->errnoAddr) s->errnoAddr = allocObj(s, 8, 8); setRet(s, I, VC(s->errnoAddr)); }
static void h_zero(State* s, Frame*, Instr& I, std::vector<Opd>&) { setRet(s, I, VC(0)); }
static void h_getenv(State* s, Frame*, Instr& I, std::vector<Opd>&) { setRet(s, I, VC(0)); }
static void h_strlen(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { setRet(s, I, VC(cstr(s, (u64)concOp(s, f, a[0])).size())); }
static void h_strerror(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { u64 p = (u64)concOp(s, f, a[1]); Obj* o = wr(s, p, 4); const char* t = "err"; for (int i = 0; i < 4; i++) o->b.set(p - o->base + i, t[i]); setRet(s, I, VC(0)); }
// -- file system model
// fault chosen by the harness for the n-th call of open, read, write and ftruncate: 1 error, 2 short transfer, 3 interrupted
static int sysFault(State* s) { if (!s->sysFaultAt || ++s->sysCount != s->sysFaultAt) return 0; s->sysHit = true; return s->sysFaultMode; }
static void h_open(State* s, Frame* f, Instr& I, std::vector<Opd>& a) {
  std::string p = cstr(s, (u64)concOp(s, f, a[0])); int fl = (int)concOp(s, top(s), a[1]); if (int ft = sysFault(s)) if (ft != 2) { setErrno(s, ft == 3 ? 4 : 5); setRet(s, I, VC(0xffffffff)); return; }
  if (s->ro && (fl & 3)) { setErrno(s, 13); setRet(s, I, VC(0xffffffff)); return; }
  auto it = s->names.find(p); if (it == s->names.end()) { if (!(fl & 0100)) { setErrno(s, 2); setRet(s, I, VC(0xffffffff)); return; } s->names[p] = s->files.size(); s->files.push_back(std::make_shared<Bytes>()); it = s->names.find(p); }
  else if ((fl & 0200) && (fl & 0100)) { setErrno(s, 17); setRet(s, I, VC(0xffffffff)); return; }
  if (fl & 01000) s->files[it->second] = std::make_shared<Bytes>();
  FD d; d.file = it->second; d.open = true; d.flags = fl; s->fds.push_back(d); setRet(s, I, VC(s->fds.size() - 1 + 10));
}
static FD* fdOf(State* s, u64 fd) { if (fd < 10 || fd - 10 >= s->fds.size() || !s->fds[fd - 10].open) return nullptr; return &s->fds[fd - 10]; }
// a symbolic position is kept only while it is known to lie behind the end of the file
static FD* fixPos(State* s, u64 fd, bool keepBeyond) {
  FD* d = fdOf(s, fd); if (!d || !d->posE) return d; Expr* e = d->posE; u64 sz = s->files[d->file]->size();
  if (keepBeyond) { State* o; bool beyond = decide(s, eBin(O_ULT, eConst(sz, 64), e), o); if (o) pushWork(o); d = fdOf(s, fd); if (beyond) return d; }
  Val v; v.e = e; u64 c = (u64)conc(s, v, 64); d = fdOf(s, fd); d->pos = c; d->posE = nullptr; return d;
}
static void h_close(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { FD* d = fdOf(s, (u64)concOp(s, f, a[0])); if (!d) engine_error("close bad fd"); d->open = false; setRet(s, I, VC(0)); }
static void h_read(State* s, Frame* f, Instr& I, std::vector<Opd>& a) {
  u64 fd = (u64)concOp(s, f, a[0]) & 0xffffffff; u64 p = (u64)concOp(s, top(s), a[1]); FD* d = fdOf(s, fd); if (!d || (d->flags & 3) == 1) { setErrno(s, 9); setRet(s, I, VC(~0ull)); return; }
  int ft = sysFault(s); if (ft == 1 || ft == 3) { setErrno(s, ft == 3 ? 4 : 5); setRet(s, I, VC(~0ull)); return; }
  d = fixPos(s, fd, true); if (d->posE) { setRet(s, I, VC(0)); return; }
  auto file = s->files[d->file]; u64 pos = d->pos, avail = file->size() > pos ? file->size() - pos : 0;
  Val nv = getv(top(s), a[2]); u64 n;
  if (nv.e) { State* o; bool big = decide(s, eBin(O_ULE, eConst(avail, 64), nv.e), o); if (o) pushWork(o); if (big) n = avail; else n = (u64)concOp(s, top(s), a[2]); } else n = (u64)nv.c;
  n = std::min(n, avail); d = fdOf(s, fd); if (ft == 2 && n > 1) n /= 2;
  if (n) { Obj* o = wr(s, p, n); u64 b = p - o->base; for (u64 i = 0; i < n; i++) { Expr* x = file->sym(pos + i); if (x) o->b.setE(b + i, x); else o->b.set(b + i, file->con(pos + i)); } }
  d->pos += n; setRet(s, I, VC(n));
}
static void h_write(State* s, Frame* f, Instr& I, std::vector<Opd>& a) {
  u64 fd = (u64)concOp(s, f, a[0]) & 0xffffffff; u64 p = (u64)concOp(s, top(s), a[1]); u64 n = (u64)concOp(s, top(s), a[2]);
  if (fd == 1 || fd == 2) { setRet(s, I, VC(n)); return; }
  FD* d = fdOf(s, fd); if (!d || (d->flags & 3) == 0) { setErrno(s, 9); setRet(s, I, VC(~0ull)); return; }
  int ft = sysFault(s); if (ft == 1 || ft == 3) { setErrno(s, ft == 3 ? 4 : 28); setRet(s, I, VC(~0ull)); return; } if (ft == 2 && n > 1) n /= 2;
  d = fixPos(s, fd, false);
  auto nf = std::make_shared<Bytes>(*s->files[d->file]); if (d->flags & 02000) d->pos = nf->size(); if (d->pos + n > (1u << 26)) engine_error("file too large in model"); if (nf->size() < d->pos + n) nf->resize(d->pos + n);
  for (u64 i = 0; i < n; i++) { Val v = byteAt(s, p + i); if (v.e) nf->setE(d->pos + i, v.e); else nf->set(d->pos + i, (u8)v.c); }
  s->files[d->file] = nf; d->pos += n; setRet(s, I, VC(n));
}
static void h_lseek(State* s, Frame* f, Instr& I, std::vector<Opd>& a) {
  u64 fd = (u64)concOp(s, f, a[0]) & 0xffffffff; FD* d = fdOf(s, fd); int wh = (int)concOp(s, top(s), a[2]); if (!d) { setErrno(s, 9); setRet(s, I, VC(~0ull)); return; }
  Val v = getv(top(s), a[1]); u64 sz = s->files[d->file]->size(); Expr* b = wh == 0 ? eConst(0, 64) : wh == 1 ? (d->posE ? d->posE : eConst(d->pos, 64)) : eConst(sz, 64);
  Expr* np = eBin(O_ADD, b, X(v, 64)); State* o;
  bool neg = decide(s, eBin(O_SLT, np, eConst(0, 64)), o); if (o) pushWork(o); if (neg) { setErrno(s, 22); setRet(s, I, VC(~0ull)); return; }
  bool beyond = isC(np) ? false : decide(s, eBin(O_ULT, eConst(sz, 64), np), o); if (!isC(np) && o) pushWork(o);
  d = fdOf(s, fd);
  if (beyond) { d->posE = np; setRet(s, I, VE(np)); return; }
  Val nv = VE(np); u64 c = nv.e ? (u64)conc(s, nv, 64) : (u64)nv.c; d = fdOf(s, fd); d->posE = nullptr; d->pos = c; setRet(s, I, VC(c));
}
static void h_ftruncate(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { u64 fd = (u64)concOp(s, f, a[0]) & 0xffffffff; u64 n = (u64)concOp(s, top(s), a[1]); FD* d = fdOf(s, fd); if (!d || (d->flags & 3) == 0 || n > (1ull<<40)) { setErrno(s, 22); setRet(s, I, VC(0xffffffff)); return; } if (int ft = sysFault(s)) if (ft != 2) { setErrno(s, ft == 3 ? 4 : 5); setRet(s, I, VC(0xffffffff)); return; } if (n > (1u << 26)) engine_error("ftruncate too large in model"); auto nf = std::make_shared<Bytes>(*s->files[d->file]); nf->resize(n); s->files[d->file] = nf; setRet(s, I, VC(0)); }
static void fillStat(State* s, u64 p, u64 size) { Obj* o = wr(s, p, 144); for (int i = 0; i < 144; i++) o->b.set(p - o->base + i, 0); storeO(o, p - o->base + 24, 4, 32, VC(0100644)); storeO(o, p - o->base + 48, 8, 64, VC(size)); storeO(o, p - o->base + 16, 8, 64, VC(1)); storeO(o, p - o->base + 56, 8, 64, VC(4096)); }
static void h_fstat(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { u64 fd = (u64)concOp(s, f, a[0]) & 0xffffffff; FD* d = fdOf(s, fd); if (!d) { setErrno(s, 9); setRet(s, I, VC(0xffffffff)); return; } fillStat(s, (u64)concOp(s, top(s), a[1]), s->files[d->file]->size()); setRet(s, I, VC(0)); }
static void h_stat(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { std::string p = cstr(s, (u64)concOp(s, f, a[0])); auto it = s->names.find(p); if (it == s->names.end()) { setErrno(s, 2); setRet(s, I, VC(0xffffffff)); return; } fillStat(s, (u64)concOp(s, top(s), a[1]), s->files[it->second]->size()); setRet(s, I, VC(0)); }
static void h_statx(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { setErrno(s, 38); setRet(s, I, VC(0xffffffff)); }
static void h_unlink(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { std::string p = cstr(s, (u64)concOp(s, f, a[0])); if (!s->names.erase(p)) { setErrno(s, 2); setRet(s, I, VC(0xffffffff)); return; } setRet(s, I, VC(0)); }
static void h_rename(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { std::string p = cstr(s, (u64)concOp(s, f, a[0])), q = cstr(s, (u64)concOp(s, top(s), a[1])); auto it = s->names.find(p); if (it == s->names.end()) { setErrno(s, 2); setRet(s, I, VC(0xffffffff)); return; } s->names[q] = it->second; if (p != q) s->names.erase(p); setRet(s, I, VC(0)); }
// -- harness interface
static void h_bytes(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { u64 p = (u64)concOp(s, f, a[0]), n = (u64)concOp(s, top(s), a[1]); if (!n) return; Obj* o = wr(s, p, n); auto nm = std::make_shared<Model>(*s->m); for (u64 i = 0; i < n; i++) { o->b.setE(p - o->base + i, eVar(s->nvars)); s->nvars++; } if ((int)nm->v.size() < s->nvars) nm->v.resize(s->nvars, 0); s->m = nm; }
static void h_assume(State* s, Frame* f, Instr& I, std::vector<Opd>& a) {
  Val v = getv(f, a[0]); unsigned w = a[0].t->bits; if (!v.e) { if (!(v.c & 1)) { st.assumed++; throw PathEnd(); } return; }
  Expr* c = w == 1 ? v.e : eExtract(v.e, 0, 1); if (isC(c)) { if (!c->c) { st.assumed++; throw PathEnd(); } return; }
  if (!evalM(s, c)) { ModelP nm; int r = satWith(s, c, nm); if (r < 0) st.incomplete++; if (r != 1) { st.assumed++; throw PathEnd(); } s->m = nm; }
  addC(s, c);
}
static void h_check(State* s, Frame* f, Instr& I, std::vector<Opd>& a) {
  Val v = getv(f, a[0]); unsigned w = a[0].t->bits; std::string msg = rstr(s, (u64)concOp(s, f, a[1]), (u64)concOp(s, f, a[2])); st.checks++;
  Expr* c = v.e ? (w == 1 ? v.e : eExtract(v.e, 0, 1)) : eConst(v.c & 1, 1);
  if (isC(c)) { if (!c->c) { report(s, "check", "", msg, s->m); throw PathEnd(); } return; }
  ModelP nm; if (!evalM(s, c)) { report(s, "check", "", msg, s->m); int r = satWith(s, c, nm); if (r != 1) throw PathEnd(); s->m = nm; addC(s, c); return; }
  int r = satWith(s, eNot1(c), nm); if (r < 0) { st.incomplete++; } if (r == 1) { report(s, "check", "", msg, nm); addC(s, c); }
}
static void h_reach(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { std::string l = rstr(s, (u64)concOp(s, f, a[0]), (u64)concOp(s, f, a[1])); reach[l]++; s->trace += l + ";"; }
static void h_same(State* s, Frame* f, Instr& I, std::vector<Opd>& a) {
  u64 n = (u64)concOp(s, f, a[2]), p = (u64)concOp(s, top(s), a[0]), q = (u64)concOp(s, top(s), a[1]); std::vector<Expr*> eqs;
  for (u64 i = 0; i < n; i++) { Val x = byteAt(s, p + i), y = byteAt(s, q + i); Expr* e = eBin(O_EQ, X(x, 8), X(y, 8)); if (isC(e) && e->c) continue; eqs.push_back(e); if (isC(e)) break; }
  setRet(s, I, VE(andTree(eqs)));
}
static void h_fault(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { s->sysFaultAt = (int)(u64)concOp(s, f, a[0]); s->sysFaultMode = (int)(u64)concOp(s, top(s), a[1]); s->sysCount = 0; bool h = s->sysHit; s->sysHit = false; setRet(s, I, VC(h ? 1 : 0)); }
static void h_readonly(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { s->ro = true; }
static void h_note(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { s->notes += "|" + rstr(s, (u64)concOp(s, f, a[0]), (u64)concOp(s, f, a[1])); }
static void h_conc(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { u64 v = (u64)concOp(s, f, a[0]); setRet(s, I, VC(v)); }
static void h_pick(State* s, Frame* f, Instr& I, std::vector<Opd>& a) {
  // symbolic choice in [0,n): one fresh input byte, all values explored by forking
  u64 n = (u64)concOp(s, f, a[0]); if (n > 256 || n == 0) engine_error("pick range"); auto nm = std::make_shared<Model>(*s->m); int base = s->nvars; s->nvars++; nm->v.resize(std::max<size_t>(nm->v.size(), s->nvars), 0); nm->v[base] = 0; s->m = nm;
  for (u64 k = n; k-- > 0;) { State* t = k ? clone(s) : s; if (k) { auto mm = std::make_shared<Model>(*s->m); mm->v[base] = k; t->m = mm; } addC(t, eBin(O_EQ, eVar(base), eConst(k, 8))); Frame* tf = top(t); tf->regs[I.dst] = VC(k); if (k) { tf->idx++; pushWork(t); } }
}
static void h_param(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { u64 i = (u64)concOp(s, f, a[0]); if (i >= cfg.params.size()) engine_error("missing param"); setRet(s, I, VC(cfg.params[i])); }
static void h_dump(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { u64 p = (u64)concOp(s, f, a[0]), n = (u64)concOp(s, f, a[1]); if (!cfg.verbose) return; fprintf(stderr, "DUMP[%llu]: ", (unsigned long long)n); for (u64 i = 0; i < n; i++) { Val v = byteAt(s, p + i); if (v.e) fprintf(stderr, "{%s}", exprStr(v.e, 3).c_str()); else fprintf(stderr, "%02x ", (unsigned)v.c); } fprintf(stderr, "\n"); }
static void h_endpath(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { st.assumed++; throw PathEnd(); }
static void h_pthread_self(State* s, Frame*, Instr& I, std::vector<Opd>&) { setRet(s, I, VC(1)); }
static void h_getcwd(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { u64 p = (u64)concOp(s, f, a[0]); Obj* o = wr(s, p, 2); o->b.set(p - o->base, '/'); o->b.set(p - o->base + 1, 0); setRet(s, I, VC(p)); }
static void h_syscall(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { setErrno(s, 38); setRet(s, I, VC(~0ull)); }
static void h_getrandom(State* s, Frame* f, Instr& I, std::vector<Opd>& a) { u64 p = (u64)concOp(s, f, a[0]), n = (u64)concOp(s, f, a[1]); for (u64 i = 0; i < n; i++) { Obj* o = wr(s, p + i, 1); o->b.set(p + i - o->base, 7); } setRet(s, I, VC(n)); }

static std::unordered_map<std::string, Handler> H = {
  {"malloc",h_malloc},{"calloc",h_calloc},{"realloc",h_realloc},{"free",h_free},{"posix_memalign",h_memalign},{"memcmp",h_memcmp},{"bcmp",h_memcmp},{"__errno_location",h_errno},{"getenv",h_getenv},{"strlen",h_strlen},{"__xpg_strerror_r",h_strerror},
  {"open64",h_open},{"open",h_open},{"close",h_close},{"read",h_read},{"write",h_write},{"lseek64",h_lseek},{"lseek",h_lseek},{"ftruncate64",h_ftruncate},{"ftruncate",h_ftruncate},{"fstat64",h_fstat},{"stat64",h_stat},{"lstat64",h_stat},{"statx",h_statx},{"unlink",h_unlink},{"rename",h_rename},{"fsync",h_zero},{"fdatasync",h_zero},{"fcntl",h_zero},
  {"__cxa_thread_atexit_impl",h_zero},{"pthread_self",h_pthread_self},{"getcwd",h_getcwd},{"syscall",h_syscall},{"getrandom",h_getrandom},{"gettid",h_pthread_self},
  {"sx_bytes",h_bytes},{"sx_assume",h_assume},{"sx_check",h_check},{"sx_reach",h_reach},{"sx_note",h_note},{"sx_readonly",h_readonly},{"sx_fault",h_fault},{"sx_same",h_same},{"sx_conc",h_conc},{"sx_pick",h_pick},{"sx_param",h_param},{"sx_dump",h_dump},{"sx_end",h_endpath}};

static Expr* ctpopE(Expr* a) { unsigned w = a->w; Expr* r = eConst(0, w); for (unsigned i = 0; i < w; i++) r = eBin(O_ADD, r, eZext(eExtract(a, i, 1), w)); return r; }
static Expr* ctzE(Expr* a, bool lead) { unsigned w = a->w; Expr* r = eConst(w, w); for (unsigned j = 0; j < w; j++) { unsigned i = lead ? j : w - 1 - j; /* last assigned = highest priority */ r = eIte(eExtract(a, i, 1), eConst(lead ? w - 1 - i : i, w), r); } return r; }
static bool startsWith(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
enum IN { N_NONE = 0, N_NOP, N_MEMCPY, N_MEMSET, N_UMAX, N_UMIN, N_SMAX, N_SMIN, N_ABS, N_BSWAP, N_BITREV, N_CTPOP, N_CTLZ, N_CTTZ, N_FSHL, N_FSHR, N_UADDS, N_USUBS, N_SADDS, N_SSUBS, N_UADDO, N_SADDO, N_USUBO, N_SSUBO, N_UMULO, N_SMULO, N_UCMP, N_SCMP, N_TLS, N_TRAP, N_FABS, N_FLOOR, N_FTRUNC, N_FCEIL, N_FROUND, N_FPTOUIS, N_FPTOSIS, N_ISCONST, N_EXPECT, N_LOADREL, N_REDADD, N_REDOR, N_REDAND, N_REDUMAX, N_REDUMIN, N_PMOVMSKB, N_COPYSIGN, N_FMINMAX, N_REDXOR };
static int intrOf(const std::string& n) {
  static const std::vector<std::pair<const char*, int>> T = {{"llvm.memcpy.",N_MEMCPY},{"llvm.memmove.",N_MEMCPY},{"llvm.memset.",N_MEMSET},{"llvm.umax.",N_UMAX},{"llvm.umin.",N_UMIN},{"llvm.smax.",N_SMAX},{"llvm.smin.",N_SMIN},{"llvm.abs.",N_ABS},{"llvm.bswap.",N_BSWAP},{"llvm.bitreverse.",N_BITREV},{"llvm.ctpop.",N_CTPOP},{"llvm.ctlz.",N_CTLZ},{"llvm.cttz.",N_CTTZ},{"llvm.fshl.",N_FSHL},{"llvm.fshr.",N_FSHR},{"llvm.uadd.sat.",N_UADDS},{"llvm.usub.sat.",N_USUBS},{"llvm.sadd.sat.",N_SADDS},{"llvm.ssub.sat.",N_SSUBS},{"llvm.uadd.with",N_UADDO},{"llvm.sadd.with",N_SADDO},{"llvm.usub.with",N_USUBO},{"llvm.ssub.with",N_SSUBO},{"llvm.umul.with",N_UMULO},{"llvm.smul.with",N_SMULO},{"llvm.ucmp.",N_UCMP},{"llvm.scmp.",N_SCMP},{"llvm.threadlocal.address",N_TLS},{"llvm.trap",N_TRAP},{"llvm.fabs.",N_FABS},{"llvm.floor.",N_FLOOR},{"llvm.trunc.",N_FTRUNC},{"llvm.ceil.",N_FCEIL},{"llvm.roundeven.",N_FROUND},{"llvm.fptoui.sat.",N_FPTOUIS},{"llvm.fptosi.sat.",N_FPTOSIS},{"llvm.is.constant",N_ISCONST},{"llvm.expect",N_EXPECT},{"llvm.load.relative",N_LOADREL},{"llvm.vector.reduce.add",N_REDADD},{"llvm.vector.reduce.or",N_REDOR},{"llvm.vector.reduce.and",N_REDAND},{"llvm.vector.reduce.xor",N_REDXOR},{"llvm.vector.reduce.umax",N_REDUMAX},{"llvm.vector.reduce.umin",N_REDUMIN},{"llvm.x86.sse2.pmovmskb",N_PMOVMSKB},{"llvm.x86.avx2.pmovmskb",N_PMOVMSKB},
    {"llvm.lifetime",N_NOP},{"llvm.assume",N_NOP},{"llvm.experimental.noalias",N_NOP},{"llvm.x86.sse2.pause",N_NOP},{"llvm.prefetch",N_NOP},{"llvm.dbg",N_NOP},{"llvm.sideeffect",N_NOP},{"llvm.donothing",N_NOP},{"llvm.invariant",N_NOP},{"llvm.fake.use",N_NOP}};
  for (auto& p : T) if (startsWith(n, p.first)) return p.second; return N_NONE;
}
static u128 bswapC(u128 v, unsigned w) { u128 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((v >> (8 * i)) & 0xff) << (w - 8 - 8 * i); return r; }
static Val bswapV(const Val& a, unsigned w) { if (!a.e) return VC(bswapC(a.c, w)); Expr* r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr* x = eExtract(a.e, 8 * i, 8); r = r ? eConcat(r, x) : x; } return VE(r); }
static Val iteV(const Val& c, const Val& a, const Val& b, unsigned w) { if (!c.e) return c.c & 1 ? a : b; if (!a.e && !b.e && a.c == b.c) return a; return VE(eIte(c.e, X(a, w), X(b, w))); }

static void intrinsic(State* s, Frame* f, Instr& I, int k, std::vector<Opd>& a) {
  switch (k) {
    case N_NOP: return;
    case N_MEMCPY: { u64 n = (u64)concOp(s, f, a[2]); doCopy(s, top(s), a[0], a[1], n); return; }
    case N_MEMSET: { u64 n = (u64)concOp(s, f, a[2]); if (!n) return; u64 p = (u64)concOp(s, top(s), a[0]); Val v = getv(top(s), a[1]); Obj* o = wr(s, p, n); u64 b = p - o->base; if (v.e) { for (u64 i = 0; i < n; i++) o->b.setE(b + i, v.e); } else for (u64 i = 0; i < n; i++) o->b.set(b + i, (u8)v.c); return; }
    case N_TLS: setRet(s, I, getv(f, a[0])); return;
    case N_TRAP: report(s, "trap", dbgStack(s, 1), "trap", s->m); throw PathEnd();
    case N_ISCONST: setRet(s, I, VC(0)); return;
    case N_EXPECT: setRet(s, I, getv(f, a[0])); return;
    case N_LOADREL: { u64 p = (u64)concOp(s, f, a[0]); u64 o = (u64)concOp(s, top(s), a[1]); Obj* ob = need(s, p + o, 4); Val v = loadO(s, ob, p + o - ob->base, 4, 32); setRet(s, I, VC((p + (u64)sextw(v.c, 32)) & maskw(64))); return; }
    case N_REDADD: case N_REDOR: case N_REDAND: case N_REDXOR: case N_REDUMAX: case N_REDUMIN: {
      unsigned w = I.t->bits; Val r = getv(f, a[0], 0); for (u64 i = 1; i < a[0].t->n; i++) { Val x = getv(f, a[0], i); if (k == N_REDUMAX || k == N_REDUMIN) { Val c = binop(O_ULT, w, r, x); r = k == N_REDUMAX ? iteV(c, x, r, w) : iteV(c, r, x, w); } else r = binop(k == N_REDADD ? O_ADD : k == N_REDOR ? O_OR : k == N_REDXOR ? O_XOR : O_AND, w, r, x); } setRet(s, I, r); return; }
    case N_PMOVMSKB: { Expr* r = nullptr; for (u64 i = 0; i < a[0].t->n; i++) { Val v = getv(f, a[0], i); Expr* b = eExtract(X(v, 8), 7, 1); r = r ? eConcat(b, r) : b; } setRet(s, I, VE(eZext(r, 32))); return; }
    default: break;
  }
  unsigned lanes = I.t->k == T_VEC ? I.t->n : 1;
  Type* t0 = a[0].t->k == T_VEC ? a[0].t->el[0] : a[0].t; unsigned w = t0->bits;
  for (unsigned l = 0; l < lanes; l++) {
    Val x = getv(f, a[0], l), y = a.size() > 1 && a[1].t->nslots >= lanes ? getv(f, a[1], l) : (a.size() > 1 ? getv(f, a[1], 0) : VC(0)); Val r;
    switch (k) {
      case N_UMAX: r = iteV(binop(O_ULT, w, x, y), y, x, w); break;
      case N_UMIN: r = iteV(binop(O_ULT, w, x, y), x, y, w); break;
      case N_SMAX: r = iteV(binop(O_SLT, w, x, y), y, x, w); break;
      case N_SMIN: r = iteV(binop(O_SLT, w, x, y), x, y, w); break;
      case N_ABS: r = iteV(binop(O_SLT, w, x, VC(0)), binop(O_SUB, w, VC(0), x), x, w); break;
      case N_BSWAP: r = bswapV(x, w); break;
      case N_BITREV: { Expr* e = X(x, w); Expr* q = nullptr; for (unsigned i = 0; i < w; i++) { Expr* b = eExtract(e, i, 1); q = q ? eConcat(q, b) : b; } r = VE(q); break; }
      case N_CTPOP: r = x.e ? VE(ctpopE(x.e)) : VC(__builtin_popcountll((u64)x.c) + __builtin_popcountll((u64)(x.c >> 64))); break;
      case N_CTLZ: r = VE(ctzE(X(x, w), true)); break;
      case N_CTTZ: r = VE(ctzE(X(x, w), false)); break;
      case N_FSHL: case N_FSHR: { Val z = getv(f, a[2], l); if (z.e) engine_error("symbolic fsh amount"); unsigned sh = (unsigned)(z.c % w); Expr* c = eConcat(X(x, w), X(y, w)); r = VE(k == N_FSHL ? eExtract(c, w - sh, w) : eExtract(c, sh, w)); break; }
      case N_UADDS: { Val sum = binop(O_ADD, w, x, y); r = iteV(binop(O_ULT, w, sum, x), VC(maskw(w)), sum, w); break; }
      case N_USUBS: r = iteV(binop(O_ULT, w, x, y), VC(0), binop(O_SUB, w, x, y), w); break;
      case N_SADDS: case N_SSUBS: { Op o = k == N_SADDS ? O_ADD : O_SUB; Expr* q = eBin(o, eSext(X(x, w), w + 1), eSext(X(y, w), w + 1)); Expr* mx = eConst(maskw(w) >> 1, w + 1); Expr* mn = eSext(eConst((u128)1 << (w - 1), w), w + 1); r = VE(eExtract(eIte(eBin(O_SLT, mx, q), mx, eIte(eBin(O_SLT, q, mn), mn, q)), 0, w)); break; }
      case N_UADDO: { Val q = binop(O_ADD, w, x, y); setRet(s, I, q, 0); setRet(s, I, binop(O_ULT, w, q, x), 1); return; }
      case N_USUBO: { setRet(s, I, binop(O_SUB, w, x, y), 0); setRet(s, I, binop(O_ULT, w, x, y), 1); return; }
      case N_SADDO: case N_SSUBO: case N_SMULO: case N_UMULO: {
        Op o = k == N_SADDO ? O_ADD : k == N_SSUBO ? O_SUB : O_MUL; bool sg = k != N_UMULO; unsigned W = o == O_MUL ? 2 * w : w + 1;
        if (W > 128) engine_error("mul overflow width");
        Expr* a2 = sg ? eSext(X(x, w), W) : eZext(X(x, w), W); Expr* b2 = sg ? eSext(X(y, w), W) : eZext(X(y, w), W); Expr* q = eBin(o, a2, b2); Expr* lowq = eExtract(q, 0, w); Expr* ext = sg ? eSext(lowq, W) : eZext(lowq, W); Val lo = binop(o, w, x, y);
        Expr* ov = eNot1(eBin(O_EQ, q, ext));
        if (k == N_UMULO && w == 64 && x.e && !y.e && y.c) { u64 lim = ~0ull / (u64)y.c; ov = eBin(O_ULT, eConst(lim, 64), x.e); }
        else if (k == N_UMULO && w == 64 && y.e && !x.e && x.c) { u64 lim = ~0ull / (u64)x.c; ov = eBin(O_ULT, eConst(lim, 64), y.e); }
        if (k == N_SADDO || k == N_SSUBO) {
          Expr *ex = X(x, w), *ey = X(y, w), *er = X(lo, w); u64 half = w <= 64 ? 1ull << (w - 1) : 0;
          bool small = w <= 64 && ex->hi < half && ey->hi < half;
          if (small && (k == N_SSUBO || (ex->hi + ey->hi < half))) ov = eConst(0, 1);
          else { Expr* sx = eExtract(ex, w - 1, 1), *sy = eExtract(ey, w - 1, 1), *sr = eBin(O_SLT, er, eConst(0, w)); if (k == N_SSUBO) sy = eNot1(sy); ov = eBin(O_AND, eBin(O_EQ, sx, sy), eBin(O_XOR, sx, sr)); }
        }
        setRet(s, I, lo, 0); setRet(s, I, VE(ov), 1); return; }
      case N_UCMP: case N_SCMP: { Op o = k == N_UCMP ? O_ULT : O_SLT; unsigned rw = I.t->bits; r = iteV(binop(o, w, x, y), VC(maskw(rw)), iteV(binop(O_EQ, w, x, y), VC(0), VC(1), rw), rw); break; }
      case N_FABS: r = VE(eFp(O_FABS, w, X(x, w))); break;
      case N_FLOOR: r = VE(eFp(O_FFLOOR, w, X(x, w))); break;
      case N_FTRUNC: r = VE(eFp(O_FTRUNC, w, X(x, w))); break;
      case N_FCEIL: r = VE(eFp(O_FCEIL, w, X(x, w))); break;
      case N_FROUND: r = VE(eFp(O_FROUNDEVEN, w, X(x, w))); break;
      case N_FPTOUIS: r = VE(eFp(O_FPTOUISAT, I.t->bits, X(x, w))); break;
      case N_FPTOSIS: r = VE(eFp(O_FPTOSISAT, I.t->bits, X(x, w))); break;
      default: engine_error("intrinsic " + I.callee->name);
    }
    setRet(s, I, r, l);
  }
}

// panic entry points of core/alloc/std: reaching one ends the path as a violation
static bool isPanicFn(const std::string& n) {
  static const char* P[] = {"4core9panicking", "17rust_begin_unwind", "3std9panicking", "4core6option13expect_failed", "4core6option13unwrap_failed", "4core6result13unwrap_failed", "5slice5index", "3str16slice_error_fail", "7raw_vec12handle_error", "7raw_vec17capacity_overflow", "5alloc18handle_alloc_error", "4core4cell22panic_already", "5slice20copy_from_slice_impl17len_mismatch_fail", "3std7process5abort", "len_mismatch_fail", "panic_const", "slice_error_fail", "3std5alloc8rust_oom", "assert_failed", "div_overflow", "panic_nounwind"};
  for (const char* p : P) if (n.find(p) != std::string::npos) { if (!strcmp(p, "5slice5index") && n.find("fail") == std::string::npos) continue; return true; }
  return n == "abort";
}
static std::string panicLoc(State* s, Frame* f, std::vector<Opd>& args) {
  for (size_t i = args.size(); i-- > 0;) { Val v = getv(f, args[i]); if (v.e || (args[i].t && args[i].t->k != T_PTR)) continue; Obj* o = findObj(s, (u64)v.c); if (!o || !o->ro || o->size < 24 || (u64)v.c != o->base) continue;
    u64 p = (u64)loadO(s, o, 0, 8, 64).c, n = (u64)loadO(s, o, 8, 8, 64).c; u64 line = (u64)loadO(s, o, 16, 4, 32).c; Obj* q = findObj(s, p); if (!q || n > 300 || p - q->base + n > q->size) continue; std::string t = rstr(s, p, n); if (t.size() > 3 && t.substr(t.size() - 3) == ".rs") return t + ":" + std::to_string(line); }
  return "";
}

static void enter(State* s, Func* c, Instr* call, std::vector<Val>& args) {
  if (!c->parsed) { g_mod.parseBody(c); c->isFmt = c->name.find("4core3fmt") != std::string::npos; }
  if (s->fr.size() > 3000) { report(s, "stack-overflow", c->name, "recursion deeper than 3000 frames", s->m); throw PathEnd(); }
  Frame* n = new Frame; n->f = c; n->regs.resize(c->nslots); n->call = call; c->calls++; size_t k = 0;
  for (size_t i = 0; i < c->params.size(); i++) for (unsigned l = 0; l < c->params[i]->nslots; l++) { if (k < args.size()) n->regs[c->pslot[i] + l] = (c->isFmt && !cfg.fmtPrecise && args[k].e) ? VC(evalM(s, args[k].e)) : args[k]; k++; }
  if (c->frameSize) n->base = allocObj(s, c->frameSize, 16);
  s->fr.push_back(FrameP(n));
}
static void jump(State* s, const Edge& e) {
  Frame* f = top(s);
  if (e.copies.size() == 1 && e.copies[0].n == 1) f->regs[e.copies[0].dst] = getv(f, e.copies[0].src);
  else if (!e.copies.empty()) { static std::vector<Val> tmp; tmp.clear(); for (auto& c : e.copies) for (u32 l = 0; l < c.n; l++) tmp.push_back(getv(f, c.src, l)); size_t k = 0; for (auto& c : e.copies) for (u32 l = 0; l < c.n; l++) f->regs[c.dst + l] = tmp[k++]; }
  f->blk = e.block; f->idx = 0;
}
static Val castV(CastK k, const Val& v, Type* from, Type* to) {
  unsigned w = from->bits, t = to->bits;
  switch (k) {
    case C_TRUNC: return v.e ? VE(eExtract(v.e, 0, t)) : VC(v.c & maskw(t));
    case C_ZEXT: return v.e ? VE(eZext(v.e, t)) : v;
    case C_SEXT: return v.e ? VE(eSext(v.e, t)) : VC((u128)sextw(v.c, w) & maskw(t));
    case C_PTRINT: return v.e ? VE(eZext(v.e, t)) : VC(v.c & maskw(t));
    case C_UITOFP: return VE(eFp(O_UITOFP, t, X(v, w)));
    case C_SITOFP: return VE(eFp(O_SITOFP, t, X(v, w)));
    case C_FPTOUI: return VE(eFp(O_FPTOUI, t, X(v, w)));
    case C_FPTOSI: return VE(eFp(O_FPTOSI, t, X(v, w)));
    case C_FPEXT: return VE(eFp(O_FPEXT, t, X(v, w)));
    case C_FPTRUNC: return VE(eFp(O_FPTRUNC, t, X(v, w)));
    default: return v;
  }
}
static Val notV(const Val& v) { return v.e ? VE(eNot1(v.e)) : VC(!(v.c & 1)); }
static Val fcmpV(int p, const Val& a, const Val& b, unsigned w) {
  auto F = [&](Op o, const Val& x, const Val& y) { return VE(eFp(o, 1, X(x, w), X(y, w))); }; auto OR = [&](const Val& x, const Val& y) { return VE(eBin(O_OR, X(x, 1), X(y, 1))); };
  Val un = F(O_FUNO, a, b);
  switch (p) { case 0: return VC(0); case 1: return F(O_FOEQ, a, b); case 2: return F(O_FOLT, b, a); case 3: return F(O_FOLE, b, a); case 4: return F(O_FOLT, a, b); case 5: return F(O_FOLE, a, b);
    case 6: return OR(F(O_FOLT, a, b), F(O_FOLT, b, a)); case 7: return notV(un); case 8: return OR(un, F(O_FOEQ, a, b)); case 9: return OR(un, F(O_FOLT, b, a)); case 10: return OR(un, F(O_FOLE, b, a)); case 11: return OR(un, F(O_FOLT, a, b)); case 12: return OR(un, F(O_FOLE, a, b)); case 13: return notV(F(O_FOEQ, a, b)); case 14: return un; default: return VC(1); }
}

// bound on request (--ascii-lower): strings turned into lower case are ASCII (the Unicode tables are not explored)
static void asciiOnly(State* s, std::vector<Val>& av) {
  Val &P = av[av.size() - 2], &N = av[av.size() - 1]; if (P.e || N.e || N.c > 4096) return;
  for (u64 i = 0; i < (u64)N.c; i++) {
    Val b = byteAt(s, (u64)P.c + i); if (!b.e) continue;
    Expr* c = eNot1(eExtract(b.e, 7, 1)); if (isC(c)) { if (!c->c) { st.assumed++; throw PathEnd(); } continue; }
    if (!evalM(s, c)) { ModelP nm; int r = satWith(s, c, nm); if (r < 0) st.incomplete++; if (r != 1) { st.assumed++; throw PathEnd(); } s->m = nm; }
    addC(s, c);
  }
}
static void doCall(State* s, Frame* f, Instr& I) {
  std::vector<Opd>* args = &I.ops; std::vector<Opd> tmp; Func* c = I.callee;
  if (I.sub == 2) { // inline asm: nothing that matters to the target (black_box); cpuid reports no features
    if (I.t->k == T_VOID) { f->idx++; return; } for (unsigned l = 0; l < I.t->nslots; l++) f->regs[I.dst + l] = VC(0); f->idx++; return; }
  if (!c) { u64 a = (u64)concOp(s, f, I.ops[0]); f = top(s); auto it = g_mod.faddr.find(a); if (it == g_mod.faddr.end()) engine_error("indirect call to unknown address"); c = it->second; tmp.assign(I.ops.begin() + 1, I.ops.end()); args = &tmp; }
  if (c->ext == 0) { // classify once
    if (isPanicFn(c->name)) c->ext = 1; else if (startsWith(c->name, "llvm.")) { int k = intrOf(c->name); c->ext = k ? 1000 + k : -1; } else if (H.count(c->name)) c->ext = 2; else if (c->defined) c->ext = 3; else c->ext = -1;
  }
  if (c->ext == 3) {
    std::vector<Val> av; for (auto& o : *args) for (unsigned l = 0; l < (o.t ? o.t->nslots : 0); l++) av.push_back(getv(f, o, l));
    if (cfg.asciiLower && av.size() >= 2 && c->name.find("5alloc3stre12to_lowercase") != std::string::npos) asciiOnly(s, av);
    enter(s, c, &I, av); return;
  }
  if (c->ext == 1) { std::string where = panicLoc(s, f, *args); std::string fn = "?"; { for (int i = (int)s->fr.size() - 1; i >= 0; i--) { if (s->fr[i]->f->name.find("little_exif") != std::string::npos) { fn = s->fr[i]->f->name; break; } } } if (where.empty()) where = locStr(I.dbg); report(s, "panic", where, c->name, s->m); st.done++; throw PathEnd(); }
  if (c->ext < 0) engine_error("call to unmodelled function " + c->name);
  Func* saved = I.callee; I.callee = c; f = top(s);
  if (c->ext == 2) { H[c->name](s, f, I, *args); } else intrinsic(s, f, I, c->ext - 1000, *args);
  I.callee = saved; top(s)->idx++;
}

// one completed path per distinct reach trace is kept, to be replayed natively and compared
static std::map<std::string, std::vector<std::vector<u8>>> samples; static u64 nsamples = 0;
static void sample(State* s) {
  auto& v = samples[s->trace]; if (v.size() >= 3 || nsamples > 60) return; std::vector<u8> in; for (int i = 0; i < s->nvars; i++) in.push_back(i < (int)s->m->v.size() ? s->m->v[i] : 0); v.push_back(in); nsamples++;
}
static u64 stepLimitCheck = 0;
static void runPath(State* s) {
  CUR = s;
  while (true) {
    Frame* f = top(s); Instr& I = f->f->bl[f->blk].in[f->idx]; s->steps++; st.steps++; I.execs++;
    if (s->steps > cfg.maxSteps) { report(s, "hang", dbgStack(s, 1), "step limit " + std::to_string(cfg.maxSteps) + " exceeded", s->m); st.done++; return; }
    if ((++stepLimitCheck & 0xffff) == 0 && now() > cfg.maxTime) { st.incomplete++; return; }
    switch (I.ic) {
      case I_BIN: {
        if (I.t->k != T_VEC) { unsigned w = I.t->bits; Val a = getv(f, I.ops[0]), b = getv(f, I.ops[1]); 
          if ((I.sub == O_UDIV || I.sub == O_UREM || I.sub == O_SDIV || I.sub == O_SREM) && !b.e && b.c == 0) engine_error("division by zero reached");
          f->regs[I.dst] = binop((Op)I.sub, w, a, b); }
        else for (u64 l = 0; l < I.t->n; l++) f->regs[I.dst + l] = binop((Op)I.sub, I.t->el[0]->bits, getv(f, I.ops[0], l), getv(f, I.ops[1], l));
        f->idx++; break; }
      case I_ICMP: {
        Type* t = I.ops[0].t; unsigned n = t->k == T_VEC ? t->n : 1, w = t->k == T_VEC ? t->el[0]->bits : t->bits;
        for (unsigned l = 0; l < n; l++) {
          Val a = getv(f, I.ops[0], l), b = getv(f, I.ops[1], l), r;
          switch (I.pred) { case 0: r = binop(O_EQ, w, a, b); break; case 1: r = notV(binop(O_EQ, w, a, b)); break; case 2: r = binop(O_ULT, w, b, a); break; case 3: r = notV(binop(O_ULT, w, a, b)); break; case 4: r = binop(O_ULT, w, a, b); break; case 5: r = notV(binop(O_ULT, w, b, a)); break; case 6: r = binop(O_SLT, w, b, a); break; case 7: r = notV(binop(O_SLT, w, a, b)); break; case 8: r = binop(O_SLT, w, a, b); break; default: r = notV(binop(O_SLT, w, b, a)); }
          f->regs[I.dst + l] = r;
        }
        f->idx++; break; }
      case I_FCMP: { Type* t = I.ops[0].t; unsigned n = t->k == T_VEC ? t->n : 1, w = t->k == T_VEC ? t->el[0]->bits : t->bits; for (unsigned l = 0; l < n; l++) f->regs[I.dst + l] = fcmpV(I.pred, getv(f, I.ops[0], l), getv(f, I.ops[1], l), w); f->idx++; break; }
      case I_FBIN: { Type* t = I.t; unsigned n = t->k == T_VEC ? t->n : 1, w = t->k == T_VEC ? t->el[0]->bits : t->bits; for (unsigned l = 0; l < n; l++) f->regs[I.dst + l] = VE(eFp((Op)I.sub, w, X(getv(f, I.ops[0], l), w), X(getv(f, I.ops[1], l), w))); f->idx++; break; }
      case I_FNEG: { unsigned w = I.t->bits; f->regs[I.dst] = binop(O_XOR, w, getv(f, I.ops[0]), VC((u128)1 << (w - 1))); f->idx++; break; }
      case I_CAST: {
        Type *a = I.ops[0].t, *b = I.t;
        if (I.sub == C_BITCAST && (a->k == T_VEC || b->k == T_VEC)) {
          Expr* cat = nullptr; unsigned an = a->k == T_VEC ? a->n : 1, aw = a->k == T_VEC ? a->el[0]->bits : a->bits, bn = b->k == T_VEC ? b->n : 1, bw = b->k == T_VEC ? b->el[0]->bits : b->bits;
          if (an * aw > 128) engine_error("wide bitcast"); for (unsigned l = 0; l < an; l++) { Expr* x = X(getv(f, I.ops[0], l), aw); cat = cat ? eConcat(x, cat) : x; } for (unsigned l = 0; l < bn; l++) f->regs[I.dst + l] = VE(eExtract(cat, l * bw, bw));
        } else if (a->k == T_VEC) for (u64 l = 0; l < a->n; l++) f->regs[I.dst + l] = castV((CastK)I.sub, getv(f, I.ops[0], l), a->el[0], b->el[0]);
        else f->regs[I.dst] = castV((CastK)I.sub, getv(f, I.ops[0]), a, b);
        f->idx++; break; }
      case I_LOAD: { Res r = resolve(s, f, I.ops[0], I.t->size, 1024); f = top(s); u32 d = I.dst; loadT(s, f, I.ops[0], r, 0, I.t, d, f); if (f->f->isFmt && !cfg.fmtPrecise) for (u32 q = I.dst; q < d; q++) if (f->regs[q].e) f->regs[q] = VC(evalM(s, f->regs[q].e)); f->idx++; break; }
      case I_STORE: { Res r = resolve(s, f, I.ops[1], I.t->size, 256); f = top(s); u32 l = 0; storeT(s, f, I.ops[0], r, 0, I.t, l); f->idx++; break; }
      case I_GEP: {
        Val a = getv(f, I.ops[0]); if (I.imm) a = binop(O_ADD, 64, a, VC(I.imm));
        for (auto& g : I.gep) { Val x = getv(f, g.op); unsigned w = g.op.t->bits; if (w < 64) x = castV(C_SEXT, x, g.op.t, I.t); x = binop(O_MUL, 64, x, VC(g.scale)); a = binop(O_ADD, 64, a, x); }
        f->regs[I.dst] = a; f->idx++; break; }
      case I_ALLOCA: f->regs[I.dst] = VC(f->base + I.imm); f->idx++; break;
      case I_BR: jump(s, I.edges[0]); break;
      case I_CBR: {
        Val c = getv(f, I.ops[0]); if (!c.e) { jump(s, I.edges[(c.c & 1) ? 0 : 1]); break; }
        State* o; bool b = decide(s, c.e, o); if (o) { jump(o, I.edges[b ? 1 : 0]); pushWork(o); } jump(s, I.edges[b ? 0 : 1]); break; }
      case I_SWITCH: {
        Val v = getv(f, I.ops[0]); unsigned w = I.ops[0].t->bits;
        if (!v.e) { int e = 0; for (size_t i = 0; i < I.cases.size(); i++) if (I.cases[i] == v.c) { e = i + 1; break; } jump(s, I.edges[e]); break; }
        // group cases by identical edge (same target, same phi inputs are re-read per edge; group only when no phi copies differ)
        std::map<int, std::vector<int>> byT; std::vector<int> order; for (size_t i = 0; i < I.cases.size(); i++) { int key = I.edges[i + 1].copies.empty() ? I.edges[i + 1].block : -(int)i - 2; if (!byT.count(key)) order.push_back(key); byT[key].push_back(i); }
        std::vector<std::pair<Expr*, int>> alts; Expr* anyc = eConst(0, 1);
        for (int key : order) { Expr* c = eConst(0, 1); for (int i : byT[key]) c = eBin(O_OR, c, eBin(O_EQ, v.e, eConst(I.cases[i], w))); if (isC(c) && !c->c) continue; alts.push_back({c, byT[key][0] + 1}); anyc = eBin(O_OR, anyc, c); }
        alts.push_back({eNot1(anyc), 0});
        // find the alternative taken by the model, fork the others
        int taken = -1; for (size_t i = 0; i < alts.size(); i++) if (evalM(s, alts[i].first)) { taken = i; break; }
        if (taken < 0) engine_error("switch: no alternative");
        std::vector<State*> others; 
        for (size_t i = 0; i < alts.size(); i++) if ((int)i != taken) { ModelP nm; int r = satWith(s, alts[i].first, nm); if (r < 0) st.incomplete++; if (r == 1) { State* o = clone(s); o->m = nm; addC(o, alts[i].first); jump(o, I.edges[alts[i].second]); others.push_back(o); } }
        if (!others.empty()) { for (State* o : others) pushWork(o); addC(s, alts[taken].first); }
        jump(s, I.edges[alts[taken].second]); break; }
      case I_RET: {
        std::vector<Val> rv; if (!I.ops.empty()) for (unsigned l = 0; l < I.ops[0].t->nslots; l++) rv.push_back(getv(f, I.ops[0], l));
        if (f->base) freeObj(s, f->base); Instr* call = f->call; s->fr.pop_back(); if (s->fr.empty()) { st.done++; sample(s); return; }
        Frame* g = top(s); if (call && call->t->k != T_VOID) for (size_t l = 0; l < rv.size(); l++) g->regs[call->dst + l] = rv[l]; g->idx++; break; }
      case I_CALL: doCall(s, f, I); break;
      case I_SELECT: {
        Type* ct = I.ops[0].t; unsigned n = I.t->nslots; 
        for (unsigned l = 0; l < n; l++) { Val c = getv(f, I.ops[0], ct->k == T_VEC ? l : 0); unsigned w = I.t->bits; if (!w) { if (I.t->k == T_VEC) w = I.t->el[0]->bits; else { if (c.e) { u64 cv = (u64)concOp(s, f, I.ops[0]); f = top(s); c = VC(cv); } w = 64; } } Val r = iteV(c, getv(f, I.ops[1], l), getv(f, I.ops[2], l), w); f->regs[I.dst + l] = r; }
        f->idx++; break; }
      case I_EXTRACTV: { for (unsigned l = 0; l < I.t->nslots; l++) f->regs[I.dst + l] = getv(f, I.ops[0], I.imm + l); f->idx++; break; }
      case I_INSERTV: { std::vector<Val> t; for (unsigned l = 0; l < I.t->nslots; l++) t.push_back(getv(f, I.ops[0], l)); for (unsigned l = 0; l < I.ops[1].t->nslots; l++) t[I.imm + l] = getv(f, I.ops[1], l); for (unsigned l = 0; l < t.size(); l++) f->regs[I.dst + l] = t[l]; f->idx++; break; }
      case I_EXTRACTE: { u64 ix = (u64)concOp(s, f, I.ops[1]); f = top(s); f->regs[I.dst] = getv(f, I.ops[0], ix); f->idx++; break; }
      case I_INSERTE: { u64 ix = (u64)concOp(s, f, I.ops[2]); f = top(s); std::vector<Val> t; for (unsigned l = 0; l < I.t->nslots; l++) t.push_back(getv(f, I.ops[0], l)); t[ix] = getv(f, I.ops[1]); for (unsigned l = 0; l < t.size(); l++) f->regs[I.dst + l] = t[l]; f->idx++; break; }
      case I_SHUFFLE: { std::vector<Val> t; u64 n0 = I.ops[0].t->n; for (int ix : I.idxs) t.push_back(ix < 0 ? VC(0) : (u64)ix < n0 ? getv(f, I.ops[0], ix) : getv(f, I.ops[1], ix - n0)); for (unsigned l = 0; l < t.size(); l++) f->regs[I.dst + l] = t[l]; f->idx++; break; }
      case I_FREEZE: { for (unsigned l = 0; l < I.t->nslots; l++) f->regs[I.dst + l] = getv(f, I.ops[0], l); f->idx++; break; }
      case I_UNREACH: report(s, "unreachable", locStr(I.dbg), f->f->name, s->m); st.done++; return;
      case I_NOP: case I_FENCE: f->idx++; break;
      case I_ATOMICRMW: { u64 p = (u64)concOp(s, f, I.ops[0]); f = top(s); u64 nb = (I.t->bits + 7) / 8; Obj* o = wr(s, p, nb); Val old = loadO(s, o, p - o->base, nb, I.t->bits), v = getv(f, I.ops[1]), nv; static const Op K[] = {O_ADD, O_ADD, O_SUB, O_AND, O_OR, O_XOR}; if (I.sub > 5) engine_error("atomicrmw kind"); nv = I.sub == 0 ? v : binop(K[I.sub], I.t->bits, old, v); storeO(o, p - o->base, nb, I.t->bits, nv); f->regs[I.dst] = old; f->idx++; break; }
      case I_CMPXCHG: { u64 p = (u64)concOp(s, f, I.ops[0]); f = top(s); Type* t = I.ops[1].t; u64 nb = (t->bits + 7) / 8; Obj* o = wr(s, p, nb); Val old = loadO(s, o, p - o->base, nb, t->bits); Val eq = binop(O_EQ, t->bits, old, getv(f, I.ops[1])); if (eq.e) engine_error("symbolic cmpxchg"); if (eq.c) storeO(o, p - o->base, nb, t->bits, getv(f, I.ops[2])); f->regs[I.dst] = old; f->regs[I.dst + 1] = eq; f->idx++; break; }
    }
  }
}

static void writeOut(bool exhausted) {
  std::ofstream o(cfg.out);
  o << "{\n \"fn\": \"" << cfg.fn << "\", \"params\": ["; for (size_t i = 0; i < cfg.params.size(); i++) o << (i ? "," : "") << cfg.params[i];
  o << "],\n \"exhausted\": " << (exhausted ? "true" : "false") << ", \"incomplete\": " << st.incomplete << ", \"paths\": " << st.done << ", \"assumed_out\": " << st.assumed << ", \"states\": " << st.states << ", \"forks\": " << st.forks << ", \"concretisations\": " << st.conc << ", \"steps\": " << st.steps << ", \"checks\": " << st.checks << ", \"max_pc\": " << st.maxPc << ", \"seconds\": " << now()
    << ",\n \"queries\": {\"total\": " << g_ss.queries << ", \"z3\": " << g_ss.z3 << ", \"byte_domain\": " << g_ss.dom << ", \"cache\": " << g_ss.cache << ", \"model_repair\": " << g_ss.repair << ", \"sat\": " << g_ss.sat << ", \"unsat\": " << g_ss.unsat << ", \"unknown\": " << g_ss.unknown << ", \"z3_seconds\": " << g_ss.z3time << "}";
  o << ",\n \"reach\": {"; bool fst = true; for (auto& r : reach) { o << (fst ? "" : ", ") << "\"" << jesc(r.first) << "\": " << r.second; fst = false; } o << "}";
  // functions of the crate under test that were executed (inlined ones via debug scopes), with executed lines
  std::map<std::string, std::set<int>> lines; std::set<std::string> fns; std::map<std::string, std::set<int>> allLines;
  for (Func* f : g_mod.funcs) if (f->parsed) for (auto& b : f->bl) for (auto& I : b.in) if (I.dbg >= 0) { int d = I.dbg, g = 0; while (d >= 0 && g++ < 40) { auto it = g_mod.locs.find(d); if (it == g_mod.locs.end()) break; std::string fl = scopeFile(it->second.scope); if (fl.find("/repo/src") != std::string::npos || startsWith(fl, "src/")) { if (I.execs) { fns.insert(scopeFn(it->second.scope)); lines[fl].insert(it->second.line); } allLines[fl].insert(it->second.line); } d = it->second.inl; } }
  o << ",\n \"functions\": ["; fst = true; for (auto& s : fns) { o << (fst ? "" : ", ") << "\"" << jesc(s) << "\""; fst = false; } o << "],\n \"lines\": {"; fst = true;
  for (auto& l : lines) { o << (fst ? "" : ", ") << "\"" << jesc(l.first) << "\": ["; bool g = true; for (int x : l.second) { o << (g ? "" : ",") << x; g = false; } o << "]"; fst = false; }
  o << "},\n \"violations\": ["; fst = true;
  for (auto& kv : viols) { auto& v = kv.second; o << (fst ? "" : ",") << "\n  {\"kind\": \"" << jesc(v.kind) << "\", \"where\": \"" << jesc(v.where) << "\", \"msg\": \"" << jesc(v.msg) << "\", \"count\": " << v.count << ", \"notes\": \"" << jesc(v.notes) << "\", \"stack\": \"" << jesc(v.stack) << "\", \"input\": \""; for (u8 b : v.input) { char h[3]; snprintf(h, 3, "%02x", b); o << h; } o << "\"}"; fst = false; }
  o << "],\n \"samples\": ["; fst = true; for (auto& kv : samples) for (auto& in : kv.second) { o << (fst ? "" : ",") << "\n  {\"trace\": \"" << jesc(kv.first) << "\", \"input\": \""; for (u8 b : in) { char h[3]; snprintf(h, 3, "%02x", b); o << h; } o << "\"}"; fst = false; }
  o << "]\n}\n"; o.close();
}

static void* mainThread(void*) {
  T0 = std::chrono::steady_clock::now();
  g_mod.load(cfg.ir);
  if (cfg.verbose) fprintf(stderr, "loaded in %.2fs: %zu functions, %zu globals\n", now(), g_mod.funcs.size(), g_mod.globals.size());
  auto it = g_mod.fmap.find(cfg.fn); if (it == g_mod.fmap.end() || !it->second->defined) engine_error("no such harness " + cfg.fn);
  State* s = new State; s->m = std::make_shared<Model>();
  std::vector<Global*> gs = g_mod.globals; std::sort(gs.begin(), gs.end(), [](Global* a, Global* b) { return a->addr < b->addr; });
  for (Global* g : gs) { Obj* o = new Obj; o->base = g->addr; o->size = g->size; o->ro = g->constant; o->b.c = g->data; if (g->constant) { o->rc = 1; cglobals.push_back(o); } else s->objs.push_back(ObjP(o)); }
  std::vector<Val> no; enter(s, it->second, nullptr, no); work.push_back(s); bool stopped = false; double lastRep = now();
  while (!work.empty()) {
    if (now() > cfg.maxTime || st.done >= cfg.maxPaths || viols.size() >= cfg.maxViol) { stopped = true; break; }
    if (cfg.verbose && now() - lastRep > 5) { lastRep = now(); fprintf(stderr, "[%.0fs] paths=%llu work=%zu forks=%llu steps=%.1fM queries=%llu z3=%llu (%.1fs) viol=%zu exprs=%llu\n", now(), (unsigned long long)st.done, work.size(), (unsigned long long)st.forks, st.steps / 1e6, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.z3, g_ss.z3time, viols.size(), (unsigned long long)g_nexpr); }
    State* c = work.back(); work.pop_back(); st.paths++;
    if ((st.paths & 255) == 0) { FILE* q = fopen("/proc/self/statm", "r"); unsigned long a = 0, b = 0; if (q) { if (fscanf(q, "%lu %lu", &a, &b) != 2) b = 0; fclose(q); } if (b * 4096 / 1048576 > cfg.maxMem) { stopped = true; st.incomplete++; delete c; break; } }
    try { runPath(c); } catch (PathEnd&) {}
    CUR = nullptr; delete c;
  }
  if (!cfg.out.empty()) writeOut(!stopped && st.incomplete == 0);
  if (cfg.verbose || cfg.out.empty()) fprintf(stderr, "done %s: exhausted=%d paths=%llu assumed=%llu forks=%llu conc=%llu steps=%.1fM checks=%llu queries=%llu z3=%llu (%.1fs) dom=%llu cache=%llu repair=%llu unknown=%llu viol=%zu time=%.1f\n", cfg.fn.c_str(), !stopped && !st.incomplete, (unsigned long long)st.done, (unsigned long long)st.assumed, (unsigned long long)st.forks, (unsigned long long)st.conc, st.steps / 1e6, (unsigned long long)st.checks, (unsigned long long)g_ss.queries, (unsigned long long)g_ss.z3, g_ss.z3time, (unsigned long long)g_ss.dom, (unsigned long long)g_ss.cache, (unsigned long long)g_ss.repair, (unsigned long long)g_ss.unknown, viols.size(), now());
  if (cfg.out.empty() || cfg.verbose) for (auto& r : reach) fprintf(stderr, "  reach %s: %llu\n", r.first.c_str(), (unsigned long long)r.second);
  if (cfg.verbose) { std::vector<std::pair<u64, std::string>> v; for (auto& k : forkSites) v.push_back({k.second, k.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "  fork %llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  fflush(stderr); _exit(0);
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--ir") cfg.ir = nx(); else if (a == "--fn") cfg.fn = nx(); else if (a == "--out") cfg.out = nx(); else if (a == "--param") cfg.params.push_back(strtoull(nx().c_str(), 0, 0)); else if (a == "--max-steps") cfg.maxSteps = strtoull(nx().c_str(), 0, 0); else if (a == "--max-time") cfg.maxTime = atof(nx().c_str()); else if (a == "--max-paths") cfg.maxPaths = strtoull(nx().c_str(), 0, 0); else if (a == "--max-viol") cfg.maxViol = strtoull(nx().c_str(), 0, 0); else if (a == "--max-mem") cfg.maxMem = strtoull(nx().c_str(), 0, 0); else if (a == "--max-dec") cfg.maxDec = strtoull(nx().c_str(), 0, 0); else if (a == "--fmt-precise") cfg.fmtPrecise = true; else if (a == "--ascii-lower") cfg.asciiLower = true; else if (a == "-v") cfg.verbose = true; else if (a == "--z3-timeout") g_z3_timeout_ms = atoi(nx().c_str()); else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; } }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30); pthread_t t; if (pthread_create(&t, &at, mainThread, nullptr)) { perror("pthread"); return 3; } pthread_join(t, nullptr); return 0;
}

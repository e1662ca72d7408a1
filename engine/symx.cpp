// symx: symbolic executor for LLVM IR (clang 18), written for the checks in /verif.
// Integer data and GF(p) elements are symbolic terms, control flow forks on feasible branches (decided by z3),
// memory is a set of disjoint bounds/liveness/initialisation-checked objects, OpenMP regions are executed under a forking scheduler.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <set>
#include <ctime>
#include <deque>
using namespace llvm;
using std::set; using std::map; using std::unordered_map; using std::to_string;

// ------------------------------------------------------------------ configuration
static int cfgThreads = 1, cfgPreempt = 2, cfgJobs = 1, cfgMaxViol = 4, cfgSplit = 0; static double cfgTime = 300; static u64 cfgMaxSteps = 20000000; static bool cfgOverflow = true, cfgLeak = false, cfgVerbose = false; static u64 cfgMaxPaths = ~0ull;
static set<string> cfgAllowExit;
static double T0; static double nowt() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ decoded program
enum Op : u16 { I_BIN, I_ICMP, I_CAST, I_GEP, I_LOAD, I_STORE, I_BR, I_CBR, I_SWITCH, I_CALL, I_RET, I_SELECT, I_ALLOCA, I_UNREACH, I_FBIN, I_FCMP, I_FNEG, I_FREEZE, I_RMW, I_CMPXCHG, I_FENCE, I_EXTRACT, I_INSERT, I_UNSUP, I_MOVEV };
struct Opnd { int slot; Val c; };
struct Edge { int target; vector<pair<int,Opnd>> moves; };
struct DFunc;
struct Inst { Op op; int sub; int w = 0, w2 = 0; int dst = -1; int nslots = 1; vector<Opnd> o; vector<Edge> e; vector<u64> imm; DFunc *callee = nullptr; int builtin = -1; bool nsw = false, atomic = false; u8 hit = 0; int line = 0; int id = 0; const char *file = ""; string txt; };
struct DFunc { string name; Function *F; vector<Inst> code; int nslots = 0; vector<int> argslot, argw; bool decoded = false; u64 addr; bool varargs = false; int loopHdr = -1; };
static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout *DL;
static unordered_map<Function*, DFunc*> funcs; static unordered_map<string, DFunc*> fbyname; static unordered_map<u64, DFunc*> fbyaddr; static vector<Inst*> allInst;
static set<string> executedFns;

// ------------------------------------------------------------------ memory
static const int OFFBITS = 36; static const u64 BIAS = 1ull << 35; static const u64 OFFMASK = (1ull << OFFBITS) - 1;
struct Shadow { i32 wt = -1; u32 wc = 0; i32 wi = -1; u32 rc[4] = {0,0,0,0}; i32 ri[4] = {-1,-1,-1,-1}; };
struct Obj { int refs = 0; u64 size; u8 kind; /*0 global,1 stack,2 heap,3 func/null*/ bool big = false, zeroed = false, ro = false; u64 lo = 0; vector<u8> data, st; map<u32, Expr*> sym; map<u64, Obj*> pages; vector<Shadow> sh; const char *what = ""; };
static inline void unref(Obj *o) { if (o && --o->refs == 0) { for (auto &p : o->pages) unref(p.second); delete o; } }
static vector<Obj*> globalObjs; // templates for initial state
struct Model_ { int refs; Model m; };

struct Frame { DFunc *f; int pc; vector<Val> r; vector<u32> allocas; int retdst = -1; bool micro = false; vector<Val> va; u64 vaobj = 0; Frame() {} };
enum TS { RUN, LOCKW, BARW, JOINW, SPINW, DONE };
struct Thread { vector<Frame> st; TS status = RUN; u64 waitAddr = 0; u64 waitVal = 0; int waitW = 4; int barGen = 0; bool resumed = false; vector<u32> vc; int loopSeq = -1, singleSeq = -1; i32 spI = -1; u64 spA = 0, spV = 0; int spN = 0; u64 wcount = 0, spW = 0; vector<Val> spR; };
struct Loop { bool init = false; i64 next, ub, st; };
struct Team { bool active = false; int barCount = 0, barGen = 0; vector<Loop> loops; vector<bool> singles; map<u64,int> locks; map<u64, vector<u32>> lockVC; map<u64, vector<u32>> atomVC; vector<u32> barVC; };
struct Input { string name; int var; i64 c; };
struct State {
  vector<Thread> th; int cur = 0; vector<Obj*> objs; vector<Expr*> pc; unordered_map<u32, bool> known; std::shared_ptr<Model> model; unordered_map<u32, u64> conc; vector<Input> in; vector<int> sched; Team team; int preempts = 0; u64 steps = 0; vector<string> reach; int depth = 0; i64 heaplive = 0; int oom = 0; int pendChoice = -1; vector<Val> outs; vector<pair<int, const Poly*>> subst; u32 substId = 0; vector<u64> pin;
  State() : model(std::make_shared<Model>()) {}
  State(const State &o) = default;
};
static State *cloneS(const State &s) { State *t = new State(s); for (auto o : t->objs) if (o) o->refs++; t->depth++; return t; }
static void freeS(State *s) { for (auto o : s->objs) unref(o); delete s; }

struct Stats { u64 paths = 0, ok = 0, pruned = 0, asserts = 0, assertsSym = 0, forks = 0, steps = 0, inconclusive = 0, errpaths = 0, maxpaths = 0, liraSide = 0; } ST;
static map<string, u64> reachCount, incReasons;
struct Violation { string kind, msg, loc; vector<pair<string,i64>> in; vector<int> sched; };
static vector<Violation> viols; struct Witness { vector<pair<string,i64>> in; vector<i64> out; }; static vector<Witness> wits; static u64 witSeen = 0; static int cfgWit = 0; static u64 rng = 88172645463325252ull; static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; } static set<string> violKeys;
static vector<State*> work;
static set<int> racy; static bool racyChanged = false; static set<string> assertMsgs;
struct PathEnd { int why; }; // 0 ok,1 pruned,2 violation,3 inconclusive
static string locOf(State &s) { string r; Thread &t = s.th[s.cur]; for (int k = (int) t.st.size() - 1, n = 0; k >= 0 && n < 4; k--, n++) { Frame &f = t.st[k]; Inst &i = f.f->code[std::min(f.pc, (int) f.f->code.size() - 1)]; if (n) r += " < "; r += f.f->name + ":" + to_string(i.line); } return r; }
static string fnOf(State &s) { Thread &t = s.th[s.cur]; return t.st.empty() ? "" : t.st.back().f->name + ":" + to_string(t.st.back().f->code[t.st.back().pc].line); }
static vector<pair<string,i64>> inputsOf(State &s, const Model &m) { vector<pair<string,i64>> r; 
  for (auto &q : s.in) { i64 val = q.c; if (q.var >= 0) { val = q.var < (int) m.size() ? m[q.var] : (VARS[q.var].nz ? 1 : VARS[q.var].lo <= 0 && VARS[q.var].hi >= 0 ? 0 : VARS[q.var].lo); if (VARS[q.var].kind == 1 && val > (i64) VARS[q.var].p / 2) val -= VARS[q.var].p; } r.push_back({q.name, val}); } return r; }
static void recordViol(State &s, const string &kind, const string &msg, const Model &m) {
  string key = kind + "|" + msg + "|" + fnOf(s); if (violKeys.count(key)) return; violKeys.insert(key);
  Violation v; v.kind = kind; v.msg = msg; v.loc = locOf(s);
  v.in = inputsOf(s, m);
  v.sched = s.sched; viols.push_back(v);
}
static void violation(State &s, const string &kind, const string &msg) { recordViol(s, kind, msg, *s.model); throw PathEnd{2}; }
static void inconclusive(State &s, const string &why) { incReasons[why + " @ " + fnOf(s)]++; throw PathEnd{3}; }

// ------------------------------------------------------------------ path condition
static vector<Expr*> slice(State &s, Expr *c) {
  vector<Expr*> r; set<int> vs(c->vs.begin(), c->vs.end()); vector<bool> used(s.pc.size()); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) { bool hit = false; for (int v : s.pc[i]->vs) if (vs.count(v)) { hit = true; break; } if (hit) { used[i] = true; r.push_back(s.pc[i]); for (int v : s.pc[i]->vs) if (vs.insert(v).second) ch = true; } } }
  return r;
}
static void liraSafe(State &s, Expr *e);
static SatRes querySt(State &s, Expr *c, std::shared_ptr<Model> &out) {
  if (lira_mode) liraSafe(s, c);
  vector<Expr*> q = lira_mode ? s.pc : slice(s, c); q.push_back(c); out = std::make_shared<Model>(*s.model); return solve(q, *out);
}
static void know(State &s, Expr *c, bool v) { while (c->k == E_NOT) { c = c->a[0]; v = !v; } s.known[c->id] = v; }
static int lookup(State &s, Expr *c) { bool neg = false; while (c->k == E_NOT) { c = c->a[0]; neg = !neg; } auto it = s.known.find(c->id); if (it == s.known.end()) return -1; return it->second != neg; }
static map<pair<u32, pair<int, const Poly*>>, u32> substTab; static map<pair<u32, u32>, const Poly*> substMemo;
static void addPC(State &s, Expr *c) { know(s, c, true); s.pc.push_back(c);
  if (c->k == E_FFZ) { int x; const Poly *r; if (pSolveFor(c->poly, &x, &r)) { s.subst.push_back({x, r}); auto key = std::make_pair(s.substId, std::make_pair(x, r)); auto it = substTab.find(key); if (it == substTab.end()) { u32 id = substTab.size() + 1; substTab[key] = id; s.substId = id; } else s.substId = it->second; } } }
// rewrites a zero test with the equalities learnt on this path
static Val simp(State &s, Val c) {
  if (!c.e || c.e == UNDEF || lira_mode || s.subst.empty()) return c;
  Expr *e = c.e; bool neg = false; while (e->k == E_NOT) { e = e->a[0]; neg = !neg; } if (e->k != E_FFZ) return c;
  auto key = std::make_pair(s.substId, e->poly->id); auto it = substMemo.find(key); const Poly *f;
  if (it == substMemo.end()) { f = e->poly; for (auto &q : s.subst) { const Poly *g = pSubst(f, q.first, q.second); if (!g) break; f = g; } substMemo[key] = f; } else f = it->second;
  if (f == e->poly) return c; Val r = ffZero(f); return neg ? vNot(r) : r;
}
// model values for freshly created variables
static void ensureModel(State &s, int v, i64 val) { if ((int) s.model->size() <= v || (*s.model)[v] != val) { auto m = std::make_shared<Model>(*s.model); while ((int) m->size() <= v) m->push_back(VARS[m->size()].nz ? 1 : VARS[m->size()].kind == 0 ? VARS[m->size()].lo : 0); (*m)[v] = val; s.model = m; } }
// variables whose value is fixed by a concretisation on this path: terms over such variables only are constants
static bool isPin(State &s, int v) { return (size_t) v / 64 < s.pin.size() && (s.pin[v / 64] >> (v % 64) & 1); }
static void setPin(State &s, Expr *e, u64 x, int w) {
  if (e->vs.size() != 1) return; int v = e->vs[0]; VarInfo &q = VARS[v]; if (q.kind != 0 || isPin(s, v) || (i128) q.hi - q.lo > 256) return;
  static map<pair<u32,u64>, bool> memo; auto key = std::make_pair(e->id, x); auto it = memo.find(key);
  if (it == memo.end()) { Model m(v + 1, 0); int n = 0; for (i64 k = q.lo; k <= q.hi; k++) { m[v] = k; if ((evalE(e, m) & maskw(w)) == x) n++; } it = memo.insert({key, n == 1}).first; }
  if (it->second) { if ((size_t) v / 64 >= s.pin.size()) s.pin.resize(v / 64 + 1); s.pin[v / 64] |= 1ull << (v % 64); } }
static Val fold(State &s, Val c, int w) {
  if (!c.e || c.e == UNDEF || lira_mode || s.pin.empty()) return c;
  for (int v : c.e->vs) if (!isPin(s, v)) return c;
  return CV(evalE(c.e, *s.model) & maskw(w)); }
static bool decide(State &s, Val c) { // evaluates a boolean; forks the other side (re-executing the same instruction) if feasible
  if (c.e == UNDEF) violation(s, "uninitialised", "branch on an uninitialised value");
  c = fold(s, c, 1); if (!c.e) return c.c & 1;
  int k = lookup(s, c.e); if (k >= 0) return k;
  if (!s.subst.empty()) { c = simp(s, c); if (!c.e) return c.c & 1; k = lookup(s, c.e); if (k >= 0) return k; }
  bool v; std::shared_ptr<Model> m;
  if (lira_mode) { // models are not trusted for doubles: query both sides
    SatRes a = querySt(s, c.e, m); Val nc = vNot(c); std::shared_ptr<Model> m2; SatRes b = querySt(s, nc.e, m2);
    if (a == UNKNOWN || b == UNKNOWN) { incReasons["solver unknown"]++; ST.inconclusive++; }
    if (a == UNSAT && b == UNSAT) throw PathEnd{1};
    if (a == UNSAT) { addPC(s, nc.e); s.model = m2; return false; } if (b == UNSAT) { addPC(s, c.e); s.model = m; return true; }
    State *t = cloneS(s); addPC(*t, nc.e); t->model = m2; work.push_back(t); ST.forks++; addPC(s, c.e); s.model = m; return true;
  }
  v = evalE(c.e, *s.model) & 1; Val alt = v ? vNot(c) : c;
  SatRes r = querySt(s, alt.e, m);
  if (r == SAT) { State *t = cloneS(s); addPC(*t, alt.e); t->model = m; work.push_back(t); ST.forks++; addPC(s, (v ? c : vNot(c)).e); }
  else if (r == UNKNOWN) { incReasons["solver unknown"]++; ST.inconclusive++; addPC(s, (v ? c : vNot(c)).e); }
  else know(s, c.e, v);
  return v;
}
static u64 concretize(State &s, Val v, int w) {
  if (v.e == UNDEF) violation(s, "uninitialised", "uninitialised value used as address, size or index");
  v = fold(s, v, w); if (!v.e) return v.c & maskw(w);
  auto it = s.conc.find(v.e->id); if (it != s.conc.end()) return it->second;
  if (lira_mode) inconclusive(s, "concretization in lira mode");
  u64 x = evalE(v.e, *s.model) & maskw(w); Val eq = vEq(v, CV(x), w); std::shared_ptr<Model> m;
  if (eq.e) { Val ne = vNot(eq); int k = lookup(s, eq.e); if (k != 1) { SatRes r = querySt(s, ne.e, m); if (r == SAT) { State *t = cloneS(s); addPC(*t, ne.e); t->model = m; work.push_back(t); ST.forks++; addPC(s, eq.e); } else if (r == UNKNOWN) { incReasons["solver unknown"]++; ST.inconclusive++; addPC(s, eq.e); } else know(s, eq.e, true); } }
  s.conc[v.e->id] = x; setPin(s, v.e, x, w); return x;
}
// in lira mode every machine operation that could wrap is proved not to, before its mathematical meaning is used
static set<pair<u32,u32>> safeDone;
static void liraSafe(State &s, Expr *e) {
  for (auto x : e->a) liraSafe(s, x);
  i128 mn = e->w >= 64 ? (i128) INT64_MIN : -((i128) 1 << (e->w - 1)), mx = e->w >= 64 ? (i128) INT64_MAX : ((i128) 1 << (e->w - 1)) - 1; bool need = false;
  if (e->k == E_LIN) { i128 lo = sxt(e->c, e->w), hi = lo; for (size_t i = 0; i < e->a.size(); i++) { i128 c = sxt(e->co[i], e->w); i128 l = e->a[i]->lo, h = e->a[i]->hi; if (c >= 0) { lo += c * l; hi += c * h; } else { lo += c * h; hi += c * l; } } need = lo < mn || hi > mx; }
  else if (e->k == E_MUL) need = e->lo == (i64) mn && e->hi == (i64) mx;
  else if (e->k == E_FTOI || (e->k == E_EXTRACT && e->c == 0)) need = true;
  if (!need) return;
  u32 pck = s.pc.empty() ? 0 : s.pc.back()->id * 31 + s.pc.size(); if (!safeDone.insert({e->id, pck}).second) return;
  extern SatRes solveRange(const vector<Expr*> &pc, Expr *e, i128 mn, i128 mx);
  ST.liraSide++;
  SatRes r = solveRange(s.pc, e, mn, mx);
  if (r == SAT) { incReasons["arithmetic may leave the machine range: " + showE(e)]++; recordViol(s, "range", "machine arithmetic may wrap or be out of range", *s.model); }
  else if (r == UNKNOWN) { incReasons["range side condition unknown"]++; ST.inconclusive++; }
}

// ------------------------------------------------------------------ objects
static u64 baseOf(u32 id) { return ((u64) id << OFFBITS) + BIAS; }
static u32 newObj(State &s, u64 size, int kind, const char *what) {
  Obj *o = new Obj; o->refs = 1; o->size = size; o->kind = kind; o->what = what;
  if (size > (1u << 20)) o->big = true; else { o->data.assign(size, 0); o->st.assign(size, 0); }
  s.objs.push_back(o); return s.objs.size() - 1;
}
static Obj *wr(State &s, u32 id) { Obj *o = s.objs[id]; if (o->refs > 1) { Obj *n = new Obj(*o); n->refs = 1; for (auto &p : n->pages) p.second->refs++; o->refs--; s.objs[id] = n; o = n; } return o; }
static Obj *chk(State &s, u64 addr, u64 n, bool write, u32 *idp, u64 *offp) {
  u32 id = addr >> OFFBITS; i64 off = (i64)(addr & OFFMASK) - (i64) BIAS;
  if (id == 0) violation(s, "null-dereference", "access through a null or wild pointer");
  if (id >= s.objs.size()) violation(s, "wild-pointer", "access through a wild pointer");
  Obj *o = s.objs[id]; if (!o) violation(s, "use-after-free", "access to a freed or dead object");
  if (off < 0 || (u64) off + n > o->size) violation(s, "out-of-bounds", string(write ? "write" : "read") + " out of bounds");
  if (write && o->ro) violation(s, "write-to-constant", "write to constant data");
  *idp = id; *offp = off; return o;
}
static Obj *page(State &s, Obj *o, u64 off, bool write) { u64 pg = off >> 12; auto it = o->pages.find(pg); if (it == o->pages.end()) { if (!write && !o->zeroed) return nullptr; Obj *p = new Obj; p->refs = 1; p->size = 4096; p->kind = 2; p->data.assign(4096, 0); p->st.assign(4096, o->zeroed ? 1 : 0); o->pages[pg] = p; return p; } if (write && it->second->refs > 1) { Obj *n = new Obj(*it->second); n->refs = 1; it->second->refs--; it->second = n; } return it->second; }
static void race(State &s, u64 addr, u64 n, bool write, bool atomic);
static Val rawRead(Obj *o, u64 off, int n) {
  u8 s0 = o->st[off];
  if (s0 == 1) { bool all = true; for (int i = 1; i < n; i++) if (o->st[off + i] != 1) { all = false; break; } if (all) { u64 v = 0; memcpy(&v, &o->data[off], n); return CV(v); } }
  if (s0 == 2) { auto it = o->sym.find(off); if (it->second->w == 8 * n || (n == 1 && it->second->w == 1)) return Val{0, it->second}; }
  // byte-wise assembly
  for (int i = 0; i < n; i++) if (o->st[off + i] == 0) return Val{0, UNDEF};
  Val acc = CV(0); 
  for (int i = n - 1; i >= 0; i--) { Val b; u64 q = off + i; if (o->st[q] == 1) b = CV(o->data[q]); else { u64 h = q; while (o->st[h] == 3) h--; Expr *e = o->sym[h]; b = vExtract(Val{0, e}, e->w, 8 * (q - h), 8); } if (i == n - 1) acc = b; else acc = vConcat(acc, 8 * (n - 1 - i), b, 8); }
  return acc;
}
static void splitSym(Obj *o, u64 off, u64 n) { // break symbolic cells that straddle [off, off+n)
  auto brk = [&](u64 q) { if (q >= o->size) return; u64 h = q; if (o->st[h] != 2 && o->st[h] != 3) return; while (o->st[h] == 3) h--; Expr *e = o->sym[h]; int nb = (e->w + 7) / 8; if (nb == 1) return; o->sym.erase(h); for (int i = 0; i < nb; i++) { Val b = vExtract(Val{0, e}, e->w, 8 * i, 8); if (b.e) { o->st[h + i] = 2; o->sym[h + i] = b.e; } else { o->st[h + i] = 1; o->data[h + i] = b.c; } } };
  if (o->sym.empty()) return;
  if (o->st[off] == 3) brk(off);
  if (off + n < o->size && o->st[off + n] == 3) brk(off + n);
  for (u64 i = off; i < off + n; i++) if (o->st[i] == 2) o->sym.erase(i);
}
static void rawWrite(Obj *o, u64 off, int n, Val v) {
  splitSym(o, off, n);
  if (v.e == UNDEF) { for (int i = 0; i < n; i++) o->st[off + i] = 0; return; }
  if (!v.e) { memcpy(&o->data[off], &v.c, n); memset(&o->st[off], 1, n); return; }
  o->sym[off] = v.e; o->st[off] = 2; for (int i = 1; i < n; i++) o->st[off + i] = 3;
}
static Val memRead(State &s, u64 addr, int n, bool atomic = false) {
  u32 id; u64 off; Obj *o = chk(s, addr, n, false, &id, &off);
  if (s.team.active) race(s, addr, n, false, atomic);
  if (o->big) { if (off < o->lo) inconclusive(s, "access before the first entry of a shifted array"); if ((off & 4095) + n > 4096) inconclusive(s, "page crossing"); if (o->refs > 1 && o->zeroed) o = wr(s, id); Obj *p = page(s, o, off, false); if (!p) return Val{0, UNDEF}; return rawRead(p, off & 4095, n); }
  return rawRead(o, off, n);
}
static void memWrite(State &s, u64 addr, int n, Val v, bool atomic = false) {
  u32 id; u64 off; chk(s, addr, n, true, &id, &off);
  if (s.team.active) race(s, addr, n, true, atomic);
  s.th[s.cur].wcount++;
  Obj *o = wr(s, id);
  if (o->big) { if ((off & 4095) + n > 4096) inconclusive(s, "page crossing"); o = page(s, o, off, true); off &= 4095; }
  if (v.e && v.e != UNDEF && v.e->w == 1) v = vZext(v, 1, 8);
  rawWrite(o, off, n, v);
}
static void memCopy(State &s, u64 d, u64 a, u64 n) {
  if (n == 0) return; if (n > (1u << 20)) inconclusive(s, "huge memcpy");
  u32 i1, i2; u64 o1, o2; chk(s, a, n, false, &i1, &o1); chk(s, d, n, true, &i2, &o2);
  if (s.team.active) { race(s, a, n, false, false); race(s, d, n, true, false); }
  Obj *src = s.objs[i1]; if (src->big || s.objs[i2]->big) { for (u64 i = 0; i < n; i++) memWrite(s, d + i, 1, memRead(s, a + i, 1)); return; }
  // snapshot
  vector<u8> dat(src->data.begin() + o1, src->data.begin() + o1 + n), st(src->st.begin() + o1, src->st.begin() + o1 + n); map<u32, Expr*> sy; bool straddle = st[0] == 3 || (o1 + n < src->size && src->st[o1 + n] == 3);
  if (straddle) { vector<Val> b; for (u64 i = 0; i < n; i++) b.push_back(rawRead(src, o1 + i, 1)); Obj *dst = wr(s, i2); for (u64 i = 0; i < n; i++) rawWrite(dst, o2 + i, 1, b[i]); return; }
  for (auto it = src->sym.lower_bound(o1); it != src->sym.end() && it->first < o1 + n; ++it) sy[it->first - o1] = it->second;
  Obj *dst = wr(s, i2); splitSym(dst, o2, n); memcpy(&dst->data[o2], dat.data(), n); memcpy(&dst->st[o2], st.data(), n); for (auto &q : sy) dst->sym[o2 + q.first] = q.second;
}
static string cstr(State &s, u64 a) { string r; for (int i = 0; i < 4096; i++) { Val v = memRead(s, a + i, 1); if (v.e) return r + "?"; if (!v.c) break; r += (char) v.c; } return r; }

// ------------------------------------------------------------------ happens-before
static bool inPar(State &s) { return s.team.active; }
static void vcJoin(vector<u32> &a, const vector<u32> &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void race(State &s, u64 addr, u64 n, bool write, bool atomic) {
  if (!n) return; Thread &t = s.th[s.cur]; u32 id = addr >> OFFBITS; u64 off = (addr & OFFMASK) - BIAS; Obj *o = s.objs[id]; if (o->kind == 0 && o->ro) return; if (o->big) return;
  Inst &I = t.st.back().f->code[t.st.back().pc];
  if (o->refs > 1) o = wr(s, id);
  if (o->sh.empty()) o->sh.resize((o->size + 3) / 4);
  if (atomic) { auto &vc = s.team.atomVC[addr]; vcJoin(t.vc, vc); }
  u32 me = t.vc[s.cur];
  for (u64 g = off / 4; g <= (off + n - 1) / 4; g++) {
    Shadow &h = o->sh[g]; 
    if (h.wt >= 0 && h.wt != s.cur && t.vc[h.wt] < h.wc) { if (racy.insert(I.id).second) racyChanged = true; if (racy.insert(h.wi).second) racyChanged = true; }
    if (write) for (int k = 0; k < 4 && k < (int) s.th.size(); k++) if (k != s.cur && h.rc[k] && t.vc[k] < h.rc[k]) { if (racy.insert(I.id).second) racyChanged = true; if (racy.insert(h.ri[k]).second) racyChanged = true; }
    if (write) { h.wt = s.cur; h.wc = me; h.wi = I.id; } else if (s.cur < 4) { h.rc[s.cur] = me; h.ri[s.cur] = I.id; }
  }
  if (atomic) { s.team.atomVC[addr] = t.vc; t.vc[s.cur]++; }
}
static bool runnable(State &s, int k) {
  Thread &t = s.th[k];
  switch (t.status) {
  case RUN: return true; case DONE: return false;
  case LOCKW: { auto it = s.team.locks.find(t.waitAddr); return it == s.team.locks.end() || it->second < 0; }
  case BARW: return s.team.barGen != t.barGen;
  case JOINW: for (size_t i = 1; i < s.th.size(); i++) if (s.th[i].status != DONE) return false; return true;
  case SPINW: { Obj *o; u32 id = t.waitAddr >> OFFBITS; u64 off = (t.waitAddr & OFFMASK) - BIAS; if (id >= s.objs.size() || !(o = s.objs[id]) || off + t.waitW > o->size) return true; Val v = rawRead(o, off, t.waitW); return v.e || v.c != t.waitVal; }
  }
  return false;
}
static void switchTo(State &s, int k) { s.cur = k; Thread &t = s.th[k]; if (t.status != DONE) t.status = RUN; s.sched.push_back(k); }
// the current thread cannot continue: choose another one (free choice, forked)
static void blocked(State &s) {
  vector<int> r; for (size_t k = 0; k < s.th.size(); k++) if (runnable(s, k)) r.push_back(k);
  if (r.empty()) violation(s, "deadlock", "no thread can make progress");
  for (size_t i = 1; i < r.size(); i++) { State *t = cloneS(s); switchTo(*t, r[i]); work.push_back(t); ST.forks++; }
  switchTo(s, r[0]);
}
// a thread spins when it reads the same value again with the same registers, having written nothing in between
static bool sameRegs(const vector<Val> &a, const vector<Val> &b, int dst) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); k++) if ((int) k != dst && (a[k].c != b[k].c || a[k].e != b[k].e)) return false; return true; }
// preemption point; true if the instruction may execute now
static void schedPoint(State &s) {
  if (!s.team.active || s.th.size() < 2) return; Thread &t = s.th[s.cur];
  if (t.resumed) { t.resumed = false; return; }
  if (s.preempts >= cfgPreempt) return;
  for (size_t k = 0; k < s.th.size(); k++) if ((int) k != s.cur && runnable(s, k)) { State *c = cloneS(s); c->preempts++; c->th[c->cur].resumed = true; switchTo(*c, k); work.push_back(c); ST.forks++; }
}

// ------------------------------------------------------------------ decoding
static int nextInstId = 0; static map<GlobalValue*, u64> gaddr;
static int flatCount(Type *t) { if (auto st = dyn_cast<StructType>(t)) { int n = 0; for (auto e : st->elements()) n += flatCount(e); return n; } if (auto at = dyn_cast<ArrayType>(t)) return at->getNumElements() * flatCount(at->getElementType()); return t->isVoidTy() ? 0 : 1; }
static int widthOf(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static u64 constInt(Constant *c, bool &ok, bool &undef);
static u64 constInt(Constant *c, bool &ok, bool &undef) {
  if (auto ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { ok = false; return 0; } return ci->getZExtValue(); }
  if (isa<ConstantPointerNull>(c)) return 0;
  if (isa<UndefValue>(c)) { undef = true; return 0; }
  if (auto cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
  if (auto gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) { ok = false; return 0; } return it->second; }
  if (auto ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return constInt(ce->getOperand(0), ok, undef) + off.getSExtValue(); }
    if (ce->isCast()) { u64 v = constInt(ce->getOperand(0), ok, undef); int w = widthOf(ce->getType()); return v & maskw(w); }
    if (ce->getOpcode() == Instruction::Sub) return constInt(ce->getOperand(0), ok, undef) - constInt(ce->getOperand(1), ok, undef);
    if (ce->getOpcode() == Instruction::Add) return constInt(ce->getOperand(0), ok, undef) + constInt(ce->getOperand(1), ok, undef);
  }
  ok = false; return 0;
}
enum { B_NONE = -1 }; static unordered_map<string,int> builtinId; static vector<string> builtinNames;
static int bid(const string &n) { auto it = builtinId.find(n); if (it != builtinId.end()) return it->second; int k = builtinNames.size(); builtinNames.push_back(n); builtinId[n] = k; return k; }
static DFunc *getF(Function *F);
static void decode(DFunc *d) {
  if (d->decoded) return; d->decoded = true; Function *F = d->F;
  map<Value*, int> slot; int n = 0;
  for (auto &a : F->args()) { slot[&a] = n; d->argslot.push_back(n); d->argw.push_back(widthOf(a.getType())); n++; }
  for (auto &b : *F) for (auto &i : b) if (!i.getType()->isVoidTy()) { slot[&i] = n; n += std::max(1, flatCount(i.getType())); }
  d->nslots = n; map<BasicBlock*, int> start; int pc = 0;
  auto isSkipped = [](Instruction &i) { return isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i) || (isa<IntrinsicInst>(i) && (cast<IntrinsicInst>(i).getIntrinsicID() == Intrinsic::lifetime_start || cast<IntrinsicInst>(i).getIntrinsicID() == Intrinsic::lifetime_end)); };
  for (auto &b : *F) { start[&b] = pc; for (auto &i : b) if (!isSkipped(i)) pc++; }
  auto op = [&](Value *v) { Opnd o; o.slot = -1; o.c = CV(0); if (auto c = dyn_cast<Constant>(v)) { bool ok = true, und = false; o.c = CV(constInt(c, ok, und)); if (und) o.c = Val{0, UNDEF}; if (!ok) o.slot = -2; } else { auto it = slot.find(v); o.slot = it == slot.end() ? -2 : it->second; } return o; };
  for (auto &b : *F) {
    for (auto &i : b) {
      if (isSkipped(i)) continue;
      Inst I; I.id = nextInstId++; I.dst = i.getType()->isVoidTy() ? -1 : slot[&i]; I.nslots = i.getType()->isVoidTy() ? 0 : std::max(1, flatCount(i.getType()));
      if (auto dl = i.getDebugLoc()) { I.line = dl.getLine(); }
      auto edge = [&](BasicBlock *t) { Edge e; e.target = start[t]; for (auto &ph : t->phis()) e.moves.push_back({slot[&ph], op(ph.getIncomingValueForBlock(&b))}); I.e.push_back(e); };
      I.w = widthOf(i.getType());
      I.op = I_UNSUP;
      if (auto x = dyn_cast<BinaryOperator>(&i)) {
        I.o = {op(x->getOperand(0)), op(x->getOperand(1))}; I.sub = x->getOpcode(); I.op = x->getType()->isFloatingPointTy() ? I_FBIN : I_BIN;
        if (auto ob = dyn_cast<OverflowingBinaryOperator>(x)) I.nsw = ob->hasNoSignedWrap();
      } else if (auto x = dyn_cast<ICmpInst>(&i)) { I.op = I_ICMP; I.sub = x->getPredicate(); I.w2 = widthOf(x->getOperand(0)->getType()); I.o = {op(x->getOperand(0)), op(x->getOperand(1))}; }
      else if (auto x = dyn_cast<FCmpInst>(&i)) { I.op = I_FCMP; I.sub = x->getPredicate(); I.w2 = widthOf(x->getOperand(0)->getType()); I.o = {op(x->getOperand(0)), op(x->getOperand(1))}; }
      else if (auto x = dyn_cast<CastInst>(&i)) { I.op = I_CAST; I.sub = x->getOpcode(); I.w2 = widthOf(x->getOperand(0)->getType()); I.o = {op(x->getOperand(0))}; if (!I.w || !I.w2) I.op = I_UNSUP; }
      else if (auto x = dyn_cast<GetElementPtrInst>(&i)) {
        I.op = I_GEP; I.o = {op(x->getPointerOperand())}; u64 cst = 0;
        for (auto gi = gep_type_begin(x), ge = gep_type_end(x); gi != ge; ++gi) {
          Value *idx = gi.getOperand();
          if (auto st = gi.getStructTypeOrNull()) { cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
          u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto ci = dyn_cast<ConstantInt>(idx)) { cst += sz * (u64) ci->getSExtValue(); continue; }
          I.o.push_back(op(idx)); I.imm.push_back(sz); I.imm.push_back(widthOf(idx->getType()));
        }
        I.imm.push_back(cst);
      } else if (auto x = dyn_cast<LoadInst>(&i)) { I.op = I_LOAD; I.o = {op(x->getPointerOperand())}; I.atomic = x->isAtomic(); I.w2 = DL->getTypeStoreSize(x->getType()); if (!I.w) I.op = I_UNSUP; }
      else if (auto x = dyn_cast<StoreInst>(&i)) { I.op = I_STORE; I.o = {op(x->getValueOperand()), op(x->getPointerOperand())}; I.atomic = x->isAtomic(); I.w = widthOf(x->getValueOperand()->getType()); I.w2 = DL->getTypeStoreSize(x->getValueOperand()->getType()); if (!I.w) I.op = I_UNSUP; }
      else if (auto x = dyn_cast<BranchInst>(&i)) { if (x->isConditional()) { I.op = I_CBR; I.o = {op(x->getCondition())}; edge(x->getSuccessor(0)); edge(x->getSuccessor(1)); } else { I.op = I_BR; edge(x->getSuccessor(0)); } }
      else if (auto x = dyn_cast<SwitchInst>(&i)) { I.op = I_SWITCH; I.o = {op(x->getCondition())}; I.w2 = widthOf(x->getCondition()->getType()); edge(x->getDefaultDest()); for (auto &c : x->cases()) { I.imm.push_back(c.getCaseValue()->getZExtValue()); edge(c.getCaseSuccessor()); } }
      else if (auto x = dyn_cast<ReturnInst>(&i)) { I.op = I_RET; if (x->getReturnValue()) { Value *rv = x->getReturnValue(); int fc = flatCount(rv->getType()); if (fc == 1) I.o = {op(rv)}; else { Opnd o = op(rv); for (int k = 0; k < fc; k++) { Opnd q = o; if (q.slot >= 0) q.slot += k; I.o.push_back(q); } } } }
      else if (auto x = dyn_cast<SelectInst>(&i)) { I.op = I_SELECT; I.o = {op(x->getCondition()), op(x->getTrueValue()), op(x->getFalseValue())}; }
      else if (auto x = dyn_cast<AllocaInst>(&i)) { I.op = I_ALLOCA; I.imm = { (u64) DL->getTypeAllocSize(x->getAllocatedType()) }; I.o = {op(x->getArraySize())}; I.w2 = widthOf(x->getArraySize()->getType()); }
      else if (isa<UnreachableInst>(&i)) I.op = I_UNREACH;
      else if (auto x = dyn_cast<UnaryOperator>(&i)) { I.op = I_FNEG; I.o = {op(x->getOperand(0))}; }
      else if (isa<FreezeInst>(&i)) { I.op = I_FREEZE; I.o = {op(i.getOperand(0))}; }
      else if (auto x = dyn_cast<AtomicRMWInst>(&i)) { I.op = I_RMW; I.sub = x->getOperation(); I.o = {op(x->getPointerOperand()), op(x->getValOperand())}; }
      else if (auto x = dyn_cast<AtomicCmpXchgInst>(&i)) { I.op = I_CMPXCHG; I.w = widthOf(x->getCompareOperand()->getType()); I.o = {op(x->getPointerOperand()), op(x->getCompareOperand()), op(x->getNewValOperand())}; }
      else if (isa<FenceInst>(&i)) I.op = I_FENCE;
      else if (auto x = dyn_cast<ExtractValueInst>(&i)) { I.op = I_EXTRACT; Opnd o = op(x->getAggregateOperand()); Type *t = x->getAggregateOperand()->getType(); int off = 0; for (unsigned k : x->indices()) { if (auto st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < k; q++) off += flatCount(st->getElementType(q)); t = st->getElementType(k); } else { auto at = cast<ArrayType>(t); off += k * flatCount(at->getElementType()); t = at->getElementType(); } } if (o.slot >= 0) o.slot += off; I.o = {o}; if (flatCount(x->getType()) != 1) I.op = I_UNSUP; }
      else if (auto x = dyn_cast<CallInst>(&i)) {
        I.op = I_CALL; for (auto &a : x->args()) { I.o.push_back(op(a)); I.imm.push_back(widthOf(a->getType())); }
        Value *cv = x->getCalledOperand()->stripPointerCasts();
        if (auto f = dyn_cast<Function>(cv)) {
          DFunc *ov = nullptr; auto it = fbyname.find("stub__" + f->getName().str()); if (it != fbyname.end()) ov = it->second;
          if (ov && d->name.rfind("real__", 0) != 0 && d != ov) I.callee = ov; else if (!f->isDeclaration()) I.callee = getF(f); else I.builtin = bid(f->getName().str());
        } else if (isa<InlineAsm>(cv)) I.op = I_UNSUP; else I.o.push_back(op(x->getCalledOperand()));
      }
      for (auto &o : I.o) if (o.slot == -2) I.op = I_UNSUP;
      if (I.op == I_UNSUP) { raw_string_ostream os(I.txt); i.print(os); }
      d->code.push_back(I);
    }
  }
}
static DFunc *getF(Function *F) { auto it = funcs.find(F); return it == funcs.end() ? nullptr : it->second; }
static void initGlobal(Obj *o, u64 off, Constant *c) {
  u64 sz = DL->getTypeAllocSize(c->getType());
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { memset(&o->data[off], 0, sz); memset(&o->st[off], 1, sz); return; }
  if (auto cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(&o->data[off], r.data(), r.size()); memset(&o->st[off], 1, r.size()); return; }
  if (auto ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(o, off + i * es, ca->getOperand(i)); return; }
  if (auto cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (isa<UndefValue>(c)) return;
  bool ok = true, und = false; u64 v = constInt(c, ok, und); if (!ok) { fprintf(stderr, "symx: unsupported global initialiser\n"); return; } memcpy(&o->data[off], &v, sz); memset(&o->st[off], 1, sz);
}

// ------------------------------------------------------------------ interpreter
static inline Val get(Frame &f, const Opnd &o) { return o.slot < 0 ? o.c : f.r[o.slot]; }
static void jump(Frame &f, const Edge &e) {
  if (e.moves.size() == 1) { Val v = get(f, e.moves[0].second); f.r[e.moves[0].first] = v; }
  else if (!e.moves.empty()) { Val tmp[64]; size_t n = e.moves.size(); if (n > 64) abort(); for (size_t i = 0; i < n; i++) tmp[i] = get(f, e.moves[i].second); for (size_t i = 0; i < n; i++) f.r[e.moves[i].first] = tmp[i]; }
  f.pc = e.target;
}
static double asD(u64 x) { double d; memcpy(&d, &x, 8); return d; } static u64 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static void pushFrame(State &s, Thread &t, DFunc *f, const vector<Val> &args, int retdst) {
  if (!f->decoded) decode(f); executedFns.insert(f->name);
  if (t.st.size() > 400) violation(s, "recursion", "unbounded recursion");
  t.st.emplace_back(); Frame &n = t.st.back(); n.f = f; n.pc = 0; n.r.assign(f->nslots, Val{0, UNDEF}); n.retdst = retdst;
  for (size_t i = 0; i < f->argslot.size() && i < args.size(); i++) n.r[f->argslot[i]] = args[i];
  for (size_t i = f->argslot.size(); i < args.size(); i++) n.va.push_back(args[i]);
}
static void popFrame(State &s, Thread &t) { Frame &f = t.st.back(); for (u32 id : f.allocas) { unref(s.objs[id]); s.objs[id] = nullptr; } if (f.vaobj) { u32 id = f.vaobj >> OFFBITS; unref(s.objs[id]); s.objs[id] = nullptr; } t.st.pop_back(); }
static Val symFresh(State &s, const string &name, VarInfo vi, int w) {
  // variables are shared between sibling paths: the k-th input of a path with the same type reuses the same variable
  static map<pair<string, u64>, int> tab; u64 idx = 0; for (auto &q : s.in) if (q.var >= 0 && VARS[q.var].name == name && VARS[q.var].kind == vi.kind && VARS[q.var].lo == vi.lo && VARS[q.var].hi == vi.hi && VARS[q.var].nz == vi.nz) idx++;
  string key = name + "/" + to_string(vi.kind) + "/" + to_string(vi.lo) + "/" + to_string(vi.hi) + "/" + to_string(vi.nz) + "/" + to_string(vi.w); auto it = tab.find({key, idx}); int v;
  if (it == tab.end()) { vi.name = name; v = newVar(vi); tab[{key, idx}] = v; } else v = it->second;
  i64 init = vi.kind == 1 ? (vi.nz ? 1 : 0) : (vi.lo <= 0 && vi.hi >= 0 ? 0 : vi.lo); ensureModel(s, v, init);
  s.in.push_back({name, v, 0});
  if (vi.kind == 1) return ffVal(pVar(vi.p, v), w);
  if (vi.lo == vi.hi) return CV((u64) vi.lo & maskw(w));
  return Val{0, mkVarExpr(v)};
}
static const Poly *toP(State &s, Val v, int w, u64 p) { if (v.e == UNDEF) violation(s, "uninitialised", "uninitialised field element used in arithmetic"); const Poly *f = pFromVal(v, w, p); if (!f) f = pConst(p, sxt(concretize(s, v, w), w)); return f; }
static void threadDone(State &s) { s.th[s.cur].status = DONE; vcJoin(s.team.barVC, s.th[s.cur].vc); blocked(s); }

struct Redo {}; // re-execute the current instruction later (thread was blocked)
static Val doBuiltin(State &s, Thread &t, Frame &f, Inst &I, const string &n, bool &pushed);
static void finishPath(State &s) {
  if (!lira_mode) for (auto e : s.pc) if (!(evalE(e, *s.model) & 1)) { incReasons["engine: model does not satisfy the path condition"]++; if (cfgVerbose) { fprintf(stderr, "MISMATCH %s\n", showE(e).c_str()); for (auto f : s.pc) fprintf(stderr, "   pc %s = %d\n", showE(f).c_str(), (int) evalE(f, *s.model)); for (int v : e->vs) fprintf(stderr, "   v%d=%lld\n", v, (long long) (*s.model)[v]); } ST.inconclusive++; break; }
  if (cfgWit) { witSeen++; int k = -1; if ((int) wits.size() < cfgWit) { k = wits.size(); wits.emplace_back(); } else { u64 r = rnd() % witSeen; if (r < (u64) cfgWit) k = r; }
    if (k >= 0) { wits[k].in = inputsOf(s, *s.model); wits[k].out.clear(); for (auto &v : s.outs) wits[k].out.push_back(v.e == UNDEF ? 0 : v.e ? sxt(evalE(v.e, *s.model), v.e->w) : (i64)(i32) v.c); } }
  for (auto &r : s.reach) reachCount[r]++; throw PathEnd{0}; }

static void step(State &s) {
  Thread *tp = &s.th[s.cur]; Frame *fp = &tp->st.back(); Inst &I = fp->f->code[fp->pc]; s.steps++; ST.steps++; I.hit |= 1;
  if (s.steps > cfgMaxSteps) violation(s, "non-termination", "step limit exceeded");
  Frame &f = *fp; Thread &t = *tp;
  switch (I.op) {
  case I_BIN: {
    Val a = get(f, I.o[0]), b = get(f, I.o[1]), r; int w = I.w;
    switch (I.sub) {
    case Instruction::Add: r = vAdd(a, b, w); if (I.nsw && cfgOverflow && !a.e && !b.e) { i128 x = (i128) sxt(a.c, w) + sxt(b.c, w); if (x != sxt(r.c, w)) violation(s, "signed-overflow", "signed addition overflows"); } break;
    case Instruction::Sub: r = vSub(a, b, w); if (I.nsw && cfgOverflow && !a.e && !b.e) { i128 x = (i128) sxt(a.c, w) - sxt(b.c, w); if (x != sxt(r.c, w)) violation(s, "signed-overflow", "signed subtraction overflows"); } break;
    case Instruction::Mul: r = vMul(a, b, w); if (I.nsw && cfgOverflow && !a.e && !b.e) { i128 x = (i128) sxt(a.c, w) * sxt(b.c, w); if (x != sxt(r.c, w)) violation(s, "signed-overflow", "signed multiplication overflows"); } break;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      if (b.e == UNDEF || a.e == UNDEF) { r = Val{0, UNDEF}; break; }
      Val z = vEq(b, CV(0), w); if (decide(s, z)) violation(s, "division-by-zero", "integer division by zero");
      r = vBin(I.sub == Instruction::UDiv ? E_UDIV : I.sub == Instruction::SDiv ? E_SDIV : I.sub == Instruction::URem ? E_UREM : E_SREM, a, b, w);
      if (r.e && I.sub == Instruction::SRem && !b.e && !lira_mode && a.e->k != E_VAR) { // C remainder of a GF(p) combination keeps its class only through its sign: leave symbolic
      } break; }
    case Instruction::And: r = vBin(E_AND, a, b, w); break; case Instruction::Or: r = vBin(E_OR, a, b, w); break; case Instruction::Xor: r = vBin(E_XOR, a, b, w); break;
    case Instruction::Shl: r = vBin(E_SHL, a, b, w); break; case Instruction::LShr: r = vBin(E_LSHR, a, b, w); break; case Instruction::AShr: r = vBin(E_ASHR, a, b, w); break;
    default: inconclusive(s, "binop");
    }
    f.r[I.dst] = r; f.pc++; break; }
  case I_ICMP: {
    Val a = get(f, I.o[0]), b = get(f, I.o[1]), r; int w = I.w2;
    switch (I.sub) {
    case CmpInst::ICMP_EQ: r = vEq(a, b, w); break; case CmpInst::ICMP_NE: r = vNot(vEq(a, b, w)); break;
    case CmpInst::ICMP_ULT: r = vUlt(a, b, w); break; case CmpInst::ICMP_UGT: r = vUlt(b, a, w); break; case CmpInst::ICMP_ULE: r = vNot(vUlt(b, a, w)); break; case CmpInst::ICMP_UGE: r = vNot(vUlt(a, b, w)); break;
    case CmpInst::ICMP_SLT: r = vSlt(a, b, w); break; case CmpInst::ICMP_SGT: r = vSlt(b, a, w); break; case CmpInst::ICMP_SLE: r = vNot(vSlt(b, a, w)); break; case CmpInst::ICMP_SGE: r = vNot(vSlt(a, b, w)); break;
    default: inconclusive(s, "icmp");
    }
    f.r[I.dst] = r; f.pc++; break; }
  case I_CAST: {
    Val a = get(f, I.o[0]), r; int w = I.w2, w2 = I.w;
    if (a.e == UNDEF) { f.r[I.dst] = a; f.pc++; break; }
    switch (I.sub) {
    case Instruction::Trunc: r = vTrunc(a, w, w2); break; case Instruction::ZExt: r = vZext(a, w, w2); break; case Instruction::SExt: r = vSext(a, w, w2); break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: r = w2 < w ? vTrunc(a, w, w2) : vZext(a, w, w2); break; case Instruction::BitCast: r = a; break;
    case Instruction::SIToFP: if (a.e) { if (w2 == 32 && !(a.e->lo >= -(1 << 24) && a.e->hi <= (1 << 24))) inconclusive(s, "inexact float"); r = vFp(E_ITOF, a, a, w2); } else if (w2 == 64) r = CV(fromD((double) sxt(a.c, w))); else { float x = sxt(a.c, w); u32 u; memcpy(&u, &x, 4); r = CV(u); } break;
    case Instruction::UIToFP: if (a.e) r = vFp(E_UTOF, a, a, 64); else r = CV(fromD((double) (a.c & maskw(w)))); break;
    case Instruction::FPToSI: if (a.e) { if (a.e->k == E_ITOF && a.e->a[0]->w <= 32) { r = vSext(Val{0, a.e->a[0]}, a.e->a[0]->w, 64); if (w2 < 64) r = vTrunc(r, 64, w2); } else r = vFp(E_FTOI, a, a, w2); } else { double d = w == 64 ? asD(a.c) : 0; if (w == 32) { float x; u32 u = a.c; memcpy(&x, &u, 4); d = x; } if (!(fabs(d) < 9.3e18)) { r = CV(1ull << (w2 - 1)); if (cfgOverflow) violation(s, "float-cast", "double out of integer range"); } else r = CV((u64)(i64) d & maskw(w2)); } break;
    case Instruction::FPToUI: if (a.e) inconclusive(s, "fptoui"); else r = CV((u64) asD(a.c) & maskw(w2)); break;
    case Instruction::FPExt: if (a.e) { if (a.e->k != E_ITOF) inconclusive(s, "fpext"); Val y{0, a.e->a[0]}; r = vFp(E_ITOF, y, y, 64); } else { float x; u32 u = a.c; memcpy(&x, &u, 4); r = CV(fromD(x)); } break;
    case Instruction::FPTrunc: if (a.e) { if (a.e->k != E_ITOF || !(a.e->a[0]->lo >= -(1 << 24) && a.e->a[0]->hi <= (1 << 24))) inconclusive(s, "fptrunc"); Val y{0, a.e->a[0]}; r = vFp(E_ITOF, y, y, 32); } else { float x = asD(a.c); u32 u; memcpy(&u, &x, 4); r = CV(u); } break;
    default: inconclusive(s, "cast");
    }
    f.r[I.dst] = r; f.pc++; break; }
  case I_GEP: {
    Val p = get(f, I.o[0]); size_t k = 1; Val acc = p; u64 cst = I.imm.back();
    for (; k < I.o.size(); k++) { Val x = get(f, I.o[k]); int w = I.imm[2 * (k - 1) + 1]; x = vSext(x, w, 64); acc = vAdd(acc, vMul(x, CV(I.imm[2 * (k - 1)]), 64), 64); }
    f.r[I.dst] = cst ? vAdd(acc, CV(cst), 64) : acc; f.pc++; break; }
  case I_LOAD: {
    bool sp = s.team.active && (I.atomic || racy.count(I.id)); if (sp) schedPoint(s);
    bool win = !sp && s.team.active && s.th.size() > 1 && (s.steps & 16383) < 512; if (win) sp = true; // now and then every load may turn out to be a busy wait
    u64 a = concretize(s, get(f, I.o[0]), 64); Val v = memRead(s, a, I.w2, I.atomic);
    if (I.w == 1) v = vTrunc(v, 8, 1); 
    if (sp && !v.e) { if (t.spI == I.id && t.spA == a && t.spV == v.c && t.spW == t.wcount && sameRegs(t.spR, f.r, I.dst)) { if (++t.spN >= 2) { if (win && racy.insert(I.id).second) racyChanged = true; t.status = SPINW; t.waitAddr = a; t.waitVal = v.c; t.waitW = I.w2; t.spI = -1; t.spN = 0; t.resumed = true; blocked(s); return; } } else { t.spI = I.id; t.spA = a; t.spV = v.c; t.spN = 0; t.spW = t.wcount; t.spR = f.r; t.spR[I.dst] = v; } }
    f.r[I.dst] = v; f.pc++; break; }
  case I_STORE: {
    if (s.team.active && (I.atomic || racy.count(I.id))) schedPoint(s);
    u64 a = concretize(s, get(f, I.o[1]), 64); Val v = get(f, I.o[0]); if (!v.e && I.w == 1) v.c &= 1; t.spI = -1; memWrite(s, a, I.w2, v, I.atomic); f.pc++; break; }
  case I_RMW: {
    if (s.team.active) schedPoint(s);
    u64 a = concretize(s, get(f, I.o[0]), 64); Val v = get(f, I.o[1]); Val old = memRead(s, a, I.w / 8, true), r; t.spI = -1;
    switch (I.sub) { case AtomicRMWInst::Add: r = vAdd(old, v, I.w); break; case AtomicRMWInst::Sub: r = vSub(old, v, I.w); break; case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Or: r = vBin(E_OR, old, v, I.w); break; case AtomicRMWInst::And: r = vBin(E_AND, old, v, I.w); break; default: inconclusive(s, "atomicrmw"); }
    memWrite(s, a, I.w / 8, r, true); f.r[I.dst] = old; f.pc++; break; }
  case I_CMPXCHG: {
    if (s.team.active) schedPoint(s);
    u64 a = concretize(s, get(f, I.o[0]), 64); Val old = memRead(s, a, I.w / 8, true); bool eq = decide(s, vEq(old, get(f, I.o[1]), I.w)); if (eq) memWrite(s, a, I.w / 8, get(f, I.o[2]), true); t.spI = -1;
    f.r[I.dst] = old; f.r[I.dst + 1] = CV(eq); f.pc++; break; }
  case I_FENCE: f.pc++; break;
  case I_BR: jump(f, I.e[0]); break;
  case I_CBR: { bool c = decide(s, get(f, I.o[0])); I.hit |= c ? 2 : 4; jump(s.th[s.cur].st.back(), I.e[c ? 0 : 1]); break; }
  case I_SWITCH: { u64 v = concretize(s, get(f, I.o[0]), I.w2); size_t k; for (k = 0; k < I.imm.size(); k++) if ((I.imm[k] & maskw(I.w2)) == v) break; jump(f, I.e[k < I.imm.size() ? k + 1 : 0]); break; }
  case I_SELECT: { Val c = get(f, I.o[0]); if (c.e == UNDEF) { f.r[I.dst] = c; f.pc++; break; } bool b = decide(s, c); f.r[I.dst] = get(f, I.o[b ? 1 : 2]); f.pc++; break; }
  case I_FREEZE: case I_EXTRACT: f.r[I.dst] = get(f, I.o[0]); f.pc++; break;
  case I_ALLOCA: { u64 n = concretize(s, get(f, I.o[0]), I.w2); u32 id = newObj(s, n * I.imm[0], 1, "stack"); f.allocas.push_back(id); f.r[I.dst] = CV(baseOf(id)); f.pc++; break; }
  case I_FBIN: {
    Val a = get(f, I.o[0]), b = get(f, I.o[1]), r;
    if (a.e == UNDEF || b.e == UNDEF) r = Val{0, UNDEF};
    else if (a.e || b.e) r = vFp(I.sub == Instruction::FAdd ? E_FADD : I.sub == Instruction::FSub ? E_FSUB : I.sub == Instruction::FMul ? E_FMUL : E_FDIV, a, b, 64);
    else if (I.w == 64) { double x = asD(a.c), y = asD(b.c), z; switch (I.sub) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmod(x, y); } r = CV(fromD(z)); }
    else inconclusive(s, "float arithmetic");
    f.r[I.dst] = r; f.pc++; break; }
  case I_FNEG: { Val a = get(f, I.o[0]); f.r[I.dst] = a.e ? (a.e == UNDEF ? a : vFp(E_FNEG, a, a, 64)) : CV(fromD(-asD(a.c))); f.pc++; break; }
  case I_FCMP: {
    Val a = get(f, I.o[0]), b = get(f, I.o[1]), r; if (I.w2 != 64) inconclusive(s, "float compare");
    if (a.e == UNDEF || b.e == UNDEF) r = Val{0, UNDEF};
    else if (!a.e && !b.e) { double x = asD(a.c), y = asD(b.c); bool un = x != x || y != y, v; switch (I.sub) { case CmpInst::FCMP_OEQ: v = x == y; break; case CmpInst::FCMP_OGT: v = x > y; break; case CmpInst::FCMP_OGE: v = x >= y; break; case CmpInst::FCMP_OLT: v = x < y; break; case CmpInst::FCMP_OLE: v = x <= y; break; case CmpInst::FCMP_ONE: v = !un && x != y; break; case CmpInst::FCMP_ORD: v = !un; break; case CmpInst::FCMP_UNO: v = un; break; case CmpInst::FCMP_UEQ: v = un || x == y; break; case CmpInst::FCMP_UGT: v = un || x > y; break; case CmpInst::FCMP_UGE: v = un || x >= y; break; case CmpInst::FCMP_ULT: v = un || x < y; break; case CmpInst::FCMP_ULE: v = un || x <= y; break; case CmpInst::FCMP_UNE: v = un || x != y; break; default: v = false; } r = CV(v); }
    else { Expr *dummy = nullptr; (void) dummy; switch (I.sub) { case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = vFp(E_FLT, a, b, 1); break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = vFp(E_FLT, b, a, 1); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = vFp(E_FLE, a, b, 1); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = vFp(E_FLE, b, a, 1); break; case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = vFp(E_FEQ, a, b, 1); break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = vNot(vFp(E_FEQ, a, b, 1)); break; default: inconclusive(s, "fcmp"); } }
    f.r[I.dst] = r; f.pc++; break; }
  case I_RET: {
    vector<Val> rv; for (auto &o : I.o) rv.push_back(get(f, o)); bool micro = f.micro; int rd = f.retdst;
    if (micro && s.team.active && t.st.size() >= 1) { // end of the parallel region for the master
      if (s.cur == 0) { bool all = true; for (size_t k = 1; k < s.th.size(); k++) if (s.th[k].status != DONE) all = false; if (!all) { t.status = JOINW; blocked(s); return; } popFrame(s, t); s.th.resize(1); s.team = Team(); s.cur = 0; s.th[0].vc.assign(1, 1); s.preempts = s.preempts; s.th[0].st.back().pc++; return; }
      else { popFrame(s, t); threadDone(s); return; }
    }
    popFrame(s, t); if (t.st.empty()) { finishPath(s); }
    Frame &c = t.st.back(); if (rd >= 0) for (size_t k = 0; k < rv.size(); k++) c.r[rd + k] = rv[k]; c.pc++; break; }
  case I_CALL: {
    vector<Val> args; size_t na = I.imm.size(); for (size_t k = 0; k < na; k++) args.push_back(get(f, I.o[k]));
    DFunc *cal = I.callee;
    if (!cal && I.builtin < 0) { u64 a = concretize(s, get(f, I.o[na]), 64); auto it = fbyaddr.find(a); if (it == fbyaddr.end()) violation(s, "bad-call", "indirect call to a non-function"); cal = it->second; auto ov = fbyname.find("stub__" + cal->name); if (ov != fbyname.end()) cal = ov->second; }
    if (cal && cal->F->isDeclaration()) { bool pushed = false; Val r = doBuiltin(s, t, f, I, cal->name, pushed); if (!pushed) { if (I.dst >= 0) s.th[s.cur].st.back().r[I.dst] = r; s.th[s.cur].st.back().pc++; } break; }
    if (cal) { pushFrame(s, t, cal, args, I.dst); break; }
    bool pushed = false; Val r;
    try { r = doBuiltin(s, t, f, I, builtinNames[I.builtin], pushed); } catch (Redo &) { break; }
    if (!pushed) { Frame &g = s.th[s.cur].st.back(); if (I.dst >= 0) g.r[I.dst] = r; g.pc++; }
    break; }
  case I_UNREACH: violation(s, "unreachable", "unreachable code executed"); break;
  default: inconclusive(s, "unsupported instruction: " + I.txt);
  }
}

static Val doBuiltin(State &s, Thread &t, Frame &f, Inst &I, const string &n, bool &pushed) {
  auto A = [&](int k) { return get(f, I.o[k]); };
  auto CA = [&](int k) { return concretize(s, A(k), I.imm[k]); };
  auto CI = [&](int k) { return sxt(CA(k), I.imm[k]); };
  // ---- harness interface
  if (n.rfind("sx_", 0) == 0) {
    if (n == "sx_int" || n == "sx_i64") { int w = n == "sx_int" ? 32 : 64; VarInfo v; v.kind = 0; v.w = w; v.lo = CI(0); v.hi = CI(1); v.p = 0; v.nz = false; v.g = nullptr; if (v.lo > v.hi) throw PathEnd{1}; return symFresh(s, cstr(s, CA(2)), v, w); }
    if (n == "sx_choose") { i64 k = CI(0); string nm = cstr(s, CA(1)); if (k <= 0) throw PathEnd{1};
      if (s.pendChoice < 0) { VarInfo v; v.kind = 0; v.w = 32; v.lo = 0; v.hi = k - 1; v.p = 0; v.nz = false; v.g = nullptr; Val x = symFresh(s, nm, v, 32); if (!x.e) return x; s.pendChoice = s.in.back().var; }
      u64 r = concretize(s, Val{0, mkVarExpr(s.pendChoice)}, 32); s.pendChoice = -1; return CV(r); }
    if (n == "sx_entry") { u64 p = CI(0); string nm = cstr(s, CA(1));
      if (s.pendChoice < 0) { VarInfo v; v.kind = 1; v.w = 32; v.p = p; v.lo = 0; v.hi = p - 1; v.nz = false; v.g = nullptr; symFresh(s, nm, v, 32); s.pendChoice = s.in.back().var; }
      int bv = s.pendChoice; bool z = decide(s, ffZero(pVar(p, bv))); s.pendChoice = -1; if (z) return CV(0); if (p == 2) return CV(1);
      static map<int,int> alias; auto it = alias.find(bv); int av; if (it == alias.end()) { VarInfo v; v.kind = 3; v.w = 32; v.p = p; v.lo = 0; v.hi = p - 1; v.nz = true; v.g = nullptr; v.name = nm; v.deps = {bv}; av = newVar(v); alias[bv] = av; } else av = it->second;
      return ffVal(pVar(p, av), 32); }
    if (n == "sx_out") { s.outs.push_back(A(0)); return CV(0); }
    if (n == "sx_ff" || n == "sx_ffnz") { VarInfo v; v.kind = 1; v.w = 32; v.p = CI(0); v.lo = 0; v.hi = v.p - 1; v.nz = n == "sx_ffnz"; v.g = nullptr; return symFresh(s, cstr(s, CA(1)), v, 32); }
    if (n == "sx_assume") { Val c = A(0); c = fold(s, simp(s, vNot(vEq(c, CV(0), 32))), 1); if (!c.e) { if (!c.c) throw PathEnd{1}; return CV(0); }
      int k = lookup(s, c.e); if (k == 1) return CV(0); if (k == 0) throw PathEnd{1};
      if (!lira_mode && (evalE(c.e, *s.model) & 1)) { addPC(s, c.e); return CV(0); }
      std::shared_ptr<Model> m; SatRes r = querySt(s, c.e, m); if (r == UNSAT) throw PathEnd{1}; if (r == UNKNOWN) inconclusive(s, "solver unknown in assume"); addPC(s, c.e); s.model = m; return CV(0); }
    if (n == "sx_assert") { Val c = A(0); if (c.e == UNDEF) violation(s, "uninitialised", "assertion on an uninitialised value: " + cstr(s, CA(1))); bool wasSym = c.e != nullptr; c = fold(s, simp(s, vNot(vEq(c, CV(0), 32))), 1); ST.asserts++; if (wasSym && !c.e) ST.assertsSym++; string msg = cstr(s, CA(1)); assertMsgs.insert(msg);
      if (!c.e) { if (!c.c) violation(s, "assertion", msg); return CV(0); }
      ST.assertsSym++;
      int k = lookup(s, c.e); if (k == 1) return CV(0); if (k == 0) violation(s, "assertion", msg);
      if (!lira_mode && !(evalE(c.e, *s.model) & 1)) { recordViol(s, "assertion", msg, *s.model); std::shared_ptr<Model> m; if (querySt(s, c.e, m) != SAT) throw PathEnd{2}; addPC(s, c.e); s.model = m; return CV(0); }
      std::shared_ptr<Model> m; Val nc = vNot(c); SatRes r = querySt(s, nc.e, m);
      if (r == SAT) { recordViol(s, "assertion", msg, *m); if (lira_mode) { std::shared_ptr<Model> m2; if (querySt(s, c.e, m2) != SAT) throw PathEnd{2}; s.model = m2; } addPC(s, c.e); }
      else if (r == UNKNOWN) { incReasons["solver unknown in assertion: " + msg]++; ST.inconclusive++; addPC(s, c.e); }
      else know(s, c.e, true);
      return CV(0); }
    if (n == "sx_reach") { s.reach.push_back(cstr(s, CA(0))); return CV(0); }
    if (n == "sx_end") throw PathEnd{1};
    if (n == "sx_done") finishPath(s);
    if (n == "sx_fail") { violation(s, "assertion", cstr(s, CA(0))); }
    if (n == "sx_fix") return fold(s, A(0), I.imm[0]);
    if (n == "sx_is_symbolic") return CV(A(0).e && A(0).e != UNDEF);
    if (n == "sx_is_undef") return CV(A(0).e == UNDEF);
    if (n == "sx_live") { u64 a = CA(0); u32 id = a >> OFFBITS; return CV(id && id < s.objs.size() && s.objs[id] != nullptr); }
    if (n == "sx_far") { u64 a = CA(0), lo = CA(1); u32 id = a >> OFFBITS; if (id && id < s.objs.size() && s.objs[id]) wr(s, id)->lo = lo; return CV(0); }
    if (n == "sx_objsize") { u64 a = CA(0); u32 id = a >> OFFBITS; return CV(id && id < s.objs.size() && s.objs[id] ? s.objs[id]->size : ~0ull); }
    if (n == "sx_oom") { i64 v = CI(0); int old = s.oom; if (v >= 0) s.oom = (int) v; return CV(old); }
    if (n == "sx_heap_live") return CV(s.heaplive);
    if (n == "sx_threads") return CV(cfgThreads);
    if (n == "sx_print") { if (cfgVerbose) fprintf(stderr, "[sx] %s %s %lld\n", cstr(s, CA(0)).c_str(), A(1).e ? showE(A(1).e).c_str() : "", (long long) sxt(A(1).c, I.imm[1])); return CV(0); }
    if (n == "sx_ff_add" || n == "sx_ff_sub" || n == "sx_ff_mul" || n == "sx_ff_neg" || n == "sx_ff_axpy" || n == "sx_ff_init") {
      u64 p = CI(0); const Poly *a = toP(s, A(1), I.imm[1], p); if (n == "sx_ff_init") return ffVal(a, 32); if (n == "sx_ff_neg") return ffVal(pScale(a, p - 1), 32); const Poly *b = toP(s, A(2), I.imm[2], p);
      if (n == "sx_ff_add") return ffVal(pAdd(a, b), 32); if (n == "sx_ff_sub") return ffVal(pAdd(a, pScale(b, p - 1)), 32); if (n == "sx_ff_mul") return ffVal(pMul(a, b), 32);
      const Poly *c = toP(s, A(3), I.imm[3], p); return ffVal(pAdd(pMul(a, b), c), 32); }
    if (n == "sx_ff_inv") { u64 p = CI(0); const Poly *a = toP(s, A(1), I.imm[1], p); if (decide(s, ffZero(a))) return CV(0); return ffVal(pInvNZ(a), 32); }
    inconclusive(s, "unknown harness call " + n);
  }
  // ---- OpenMP
  if (n.rfind("__kmpc_", 0) == 0 || n.rfind("omp_", 0) == 0) {
    bool par = s.team.active; int nth = par ? s.th.size() : 1;
    if (n == "omp_get_thread_num") return CV(par ? s.cur : 0); if (n == "omp_get_num_threads") return CV(nth); if (n == "omp_get_max_threads") return CV(par ? 1 : cfgThreads); if (n == "omp_set_num_threads") return CV(0);
    if (n == "__kmpc_global_thread_num") return CV(par ? s.cur : 0);
    if (n == "__kmpc_push_num_threads" || n == "__kmpc_flush" || n == "__kmpc_for_static_fini" || n == "__kmpc_dispatch_fini_4" || n == "__kmpc_dispatch_fini_8" || n == "__kmpc_end_masked" || n == "__kmpc_end_master" || n == "__kmpc_serialized_parallel" || n == "__kmpc_end_serialized_parallel") return CV(0);
    if (n == "__kmpc_master" || n == "__kmpc_masked") return CV(!par || s.cur == 0);
    if (n == "__kmpc_fork_call") {
      u64 fa = CA(2); auto it = fbyaddr.find(fa); if (it == fbyaddr.end()) inconclusive(s, "fork_call target"); int nt = par ? 1 : cfgThreads; vector<Val> args; for (size_t k = 3; k < I.imm.size(); k++) args.push_back(A(k));
      DFunc *mf = it->second; int cur0 = s.cur;
      if (nt > 1) { s.team = Team(); s.team.active = true; s.th.resize(nt); for (int k = 0; k < nt; k++) { s.th[k].vc.assign(nt, 0); s.th[k].vc[k] = 1; s.th[k].status = RUN; s.th[k].loopSeq = s.th[k].singleSeq = -1; s.th[k].resumed = false; s.th[k].spI = -1; } s.team.barVC.assign(nt, 0);
        // accesses before the region happen before everything in it: forget them
        for (size_t k = 0; k < s.objs.size(); k++) if (s.objs[k] && !s.objs[k]->sh.empty()) wr(s, k)->sh.clear(); }
      for (int k = 0; k < nt; k++) { int tid = nt > 1 ? k : cur0; u32 id = newObj(s, 4, 2, "gtid"); rawWrite(s.objs[id], 0, 4, CV(par ? s.cur : k)); vector<Val> a = { CV(baseOf(id)), CV(baseOf(id)) }; a.insert(a.end(), args.begin(), args.end()); pushFrame(s, s.th[tid], mf, a, -1); s.th[tid].st.back().micro = nt > 1; }
      if (nt > 1) { s.sched.push_back(0); }
      pushed = true; return CV(0); }
    if (n == "__kmpc_for_static_init_4" || n == "__kmpc_for_static_init_8" || n == "__kmpc_for_static_init_4u" || n == "__kmpc_for_static_init_8u") {
      int w = n.find("_8") != string::npos ? 64 : 32, nb = w / 8; int sched = CI(2); u64 pl = CA(3), plb = CA(4), pub = CA(5), pst = CA(6); i64 incr = CI(7), chunk = CI(8); i64 lb = sxt(concretize(s, memRead(s, plb, nb), w), w), ub = sxt(concretize(s, memRead(s, pub, nb), w), w); i64 tot = incr > 0 ? (ub - lb) / incr + 1 : (lb - ub) / -incr + 1; if ((incr > 0 && ub < lb) || (incr < 0 && ub > lb)) tot = 0;
      int me = par ? s.cur : 0; sched &= ~((1 << 30) | (1 << 29));
      if (sched == 33 && chunk >= 1) { memWrite(s, plb, nb, CV((u64)(lb + me * chunk * incr) & maskw(w))); memWrite(s, pub, nb, CV((u64)(lb + me * chunk * incr + (chunk - 1) * incr) & maskw(w))); memWrite(s, pst, nb, CV((u64)(nth * chunk * incr) & maskw(w))); memWrite(s, pl, 4, CV(0)); return CV(0); }
      i64 q = tot / nth, r = tot % nth; i64 b = me * q + std::min<i64>(me, r), c = q + (me < r); memWrite(s, plb, nb, CV((u64)(lb + b * incr) & maskw(w))); memWrite(s, pub, nb, CV((u64)(lb + (b + c - 1) * incr) & maskw(w))); memWrite(s, pst, nb, CV((u64)(tot ? tot * incr : incr) & maskw(w))); memWrite(s, pl, 4, CV(c > 0 && b + c == tot)); return CV(0); }
    if (n.rfind("__kmpc_dispatch_init_", 0) == 0) { t.loopSeq++; if ((int) s.team.loops.size() <= t.loopSeq) s.team.loops.resize(t.loopSeq + 1); Loop &l = s.team.loops[t.loopSeq]; if (!l.init) { l.init = true; l.next = CI(3); l.ub = CI(4); l.st = CI(5); } if (!par) {} return CV(0); }
    if (n.rfind("__kmpc_dispatch_next_", 0) == 0) { if (par) schedPoint(s); int nb = n.find("_8") != string::npos ? 8 : 4; Loop &l = s.team.loops[t.loopSeq]; bool more = l.st > 0 ? l.next <= l.ub : l.next >= l.ub; if (!more) { if (!par) { s.team.loops.pop_back(); t.loopSeq--; } return CV(0); }
      i64 a = l.next, b; if (!par) { b = l.ub; l.next = l.ub + l.st; } else { b = a; l.next = a + l.st; } bool last = l.st > 0 ? l.next > l.ub : l.next < l.ub; u64 m = maskw(nb * 8); i64 st = l.st; u64 p2 = CA(2), p3 = CA(3), p4 = CA(4), p5 = CA(5); memWrite(s, p2, 4, CV(last)); memWrite(s, p3, nb, CV((u64) a & m)); memWrite(s, p4, nb, CV((u64) b & m)); memWrite(s, p5, nb, CV((u64) st & m)); return CV(1); }
    if (n == "__kmpc_critical" || n == "__kmpc_reduce" || n == "__kmpc_reduce_nowait" || n == "__kmpc_critical_with_hint") { u64 lk = n.find("reduce") != string::npos ? CA(6) : CA(2); if (par) { schedPoint(s); auto it = s.team.locks.find(lk); if (it != s.team.locks.end() && it->second >= 0) { if (it->second == s.cur) violation(s, "deadlock", "critical section entered twice by the same thread"); t.status = LOCKW; t.waitAddr = lk; t.resumed = true; blocked(s); throw Redo(); } s.team.locks[lk] = s.cur; vcJoin(t.vc, s.team.lockVC[lk]); t.spI = -1; } return CV(1); }
    if (n == "__kmpc_end_critical" || n == "__kmpc_end_reduce_nowait" || n == "__kmpc_end_reduce") { u64 lk = CA(2); if (par) { if (s.team.locks.count(lk) && s.team.locks[lk] == s.cur) { s.team.locks[lk] = -1; s.team.lockVC[lk] = t.vc; t.vc[s.cur]++; } } if (n != "__kmpc_end_reduce") return CV(0); if (!par) return CV(0); /* falls through to the barrier */ }
    if (n == "__kmpc_barrier" || n == "__kmpc_cancel_barrier" || n == "__kmpc_end_reduce") { if (!par) return CV(0);
      vcJoin(s.team.barVC, t.vc); f.pc++; pushed = true; s.team.barCount++; t.spI = -1; 
      if (s.team.barCount == (int) s.th.size()) { s.team.barCount = 0; s.team.barGen++; for (auto &x : s.th) vcJoin(x.vc, s.team.barVC); for (size_t k = 0; k < s.th.size(); k++) s.th[k].vc[k]++; return CV(0); }
      t.status = BARW; t.barGen = s.team.barGen; blocked(s); return CV(0); }
    if (n == "__kmpc_single") { if (!par) return CV(1); schedPoint(s); t.singleSeq++; if ((int) s.team.singles.size() <= t.singleSeq) { s.team.singles.resize(t.singleSeq + 1, false); } if (!s.team.singles[t.singleSeq]) { s.team.singles[t.singleSeq] = true; return CV(1); } return CV(0); }
    if (n == "__kmpc_end_single") return CV(0);
    if (n == "omp_get_wtime") return CV(0);
    inconclusive(s, "unmodelled OpenMP call " + n);
  }
  // ---- libc
  if (n == "malloc" || n == "calloc" || n == "realloc") {
    if (s.oom == 1) {   // one of the allocations may fail (sx_oom)
      if (s.pendChoice < 0) { VarInfo v; v.kind = 0; v.w = 32; v.lo = 0; v.hi = 1; v.p = 0; v.nz = false; v.g = nullptr; Val x = symFresh(s, "allocation fails", v, 32); if (!x.e) { if (x.c) { s.oom = 2; return CV(0); } } else s.pendChoice = s.in.back().var; }
      if (s.pendChoice >= 0) { u64 r = concretize(s, Val{0, mkVarExpr(s.pendChoice)}, 32); s.pendChoice = -1; if (r) { s.oom = 2; return CV(0); } } }
    u64 sz = n == "calloc" ? CA(0) * CA(1) : n == "realloc" ? CA(1) : CA(0);
    if (n == "calloc") { u128 tot = (u128) CA(0) * CA(1); if (tot > (u128) 1 << 40) violation(s, "bad-allocation", "allocation of a negative or absurd size"); }
    if (sz > (1ull << 35)) violation(s, "bad-allocation", "allocation of a negative or absurd size");
    u64 old = n == "realloc" ? CA(0) : 0; if (old) { u32 id = old >> OFFBITS; if ((old & OFFMASK) != BIAS || id >= s.objs.size() || !s.objs[id] || s.objs[id]->kind != 2) violation(s, "bad-free", "realloc of an invalid pointer"); }
    if (old && sz == 0) { // glibc: frees and returns NULL
      u32 oid = old >> OFFBITS; if (s.team.active) race(s, old, std::max<u64>(1, std::min<u64>(s.objs[oid]->size, 1 << 20)) - (s.objs[oid]->size ? 0 : 1), true, false);
      unref(s.objs[oid]); s.objs[oid] = nullptr; s.heaplive--; return CV(0); }
    u32 id = newObj(s, sz, 2, "heap"); Obj *o = s.objs[id]; s.heaplive++;
    if (n == "calloc") { if (o->big) o->zeroed = true; else std::fill(o->st.begin(), o->st.end(), 1); }
    if (old) { u32 oid = old >> OFFBITS; Obj *q = s.objs[oid]; u64 c = std::min(q->size, sz); if (c) { if (q->big || o->big) { if (q->big && o->big) { o->lo = q->lo; for (auto &p : q->pages) { p.second->refs++; o->pages[p.first] = p.second; } o->zeroed = false; if (q->zeroed) inconclusive(s, "realloc of zeroed big object"); } else if (q->big) inconclusive(s, "shrinking a big object"); else { for (u64 k = 0; k < c; k++) memWrite(s, baseOf(id) + k, 1, rawRead(q, k, 1)); } } else { memCopy(s, baseOf(id), old, c); } }
      if (s.team.active) race(s, old, std::max<u64>(1, std::min<u64>(s.objs[oid]->size, 1 << 20)) - (s.objs[oid]->size ? 0 : 1), true, false);
      unref(s.objs[oid]); s.objs[oid] = nullptr; s.heaplive--; }
    return CV(baseOf(id)); }
  if (n == "free") { u64 a = CA(0); if (!a) return CV(0); u32 id = a >> OFFBITS; if ((a & OFFMASK) != BIAS || id >= s.objs.size() || !s.objs[id] || s.objs[id]->kind != 2) violation(s, "bad-free", "free of an invalid or already freed pointer"); unref(s.objs[id]); s.objs[id] = nullptr; s.heaplive--; return CV(0); }
  if (n.rfind("llvm.memcpy", 0) == 0 || n.rfind("llvm.memmove", 0) == 0 || n == "memcpy" || n == "memmove") { u64 k = CA(2); if (k) memCopy(s, CA(0), CA(1), k); return CV(CA(0)); }
  if (n.rfind("llvm.memset", 0) == 0 || n == "memset") { u64 a = CA(0), k = CA(2); Val v = A(1); v = vTrunc(v, I.imm[1], 8); if (k > (1u << 20)) inconclusive(s, "huge memset"); if (k) { u32 id; u64 off; chk(s, a, k, true, &id, &off); for (u64 i = 0; i < k; i++) memWrite(s, a + i, 1, v); } return CV(a); }
  if (n == "memcmp" || n == "strcmp" || n == "strncmp" || n == "bcmp") { u64 a = CA(0), b = CA(1), k = n == "strcmp" ? 1u << 20 : CA(2); for (u64 i = 0; i < k; i++) { Val x = memRead(s, a + i, 1), y = memRead(s, b + i, 1); if (!decide(s, vEq(x, y, 8))) { return decide(s, vUlt(x, y, 8)) ? CV(0xffffffff) : CV(1); } if (n[0] == 's' && decide(s, vEq(x, CV(0), 8))) break; } return CV(0); }
  if (n == "strlen") { u64 a = CA(0); u64 i = 0; for (;; i++) { if (decide(s, vEq(memRead(s, a + i, 1), CV(0), 8))) break; } return CV(i); }
  if (n == "__assert_fail") { string m = cstr(s, CA(0)); violation(s, "assert-failed", "assert(" + m + ") fails"); }
  if (n == "exit" || n == "_exit" || n == "abort" || n == "err" || n == "errx" || n == "verr") { string m = n; if (n == "err" || n == "errx") m += ": " + cstr(s, CA(1)); if (cfgAllowExit.count("*") || cfgAllowExit.count(n)) throw PathEnd{1}; violation(s, "exit", "program terminates: " + m); }
  static const set<string> ignored = { "fprintf", "printf", "puts", "putchar", "fputs", "fputc", "fflush", "fwrite", "gettimeofday", "warn", "warnx", "perror", "snprintf", "srand", "setlinebuf", "fclose" };
  if (ignored.count(n)) { if (n == "gettimeofday") { u64 a = CA(0); memWrite(s, a, 8, CV(1000)); memWrite(s, a + 8, 8, CV(0)); } if (n == "snprintf") { u64 a = CA(0); if (CA(1)) memWrite(s, a, 1, CV(0)); } return CV(0); }
  if (n == "llvm.fmuladd.f64" || n == "llvm.fma.f64") { Val a = A(0), b = A(1), c = A(2); if (a.e == UNDEF || b.e == UNDEF || c.e == UNDEF) return Val{0, UNDEF}; if (a.e || b.e || c.e) return vFp(E_FADD, vFp(E_FMUL, a, b, 64), c, 64); return CV(fromD(asD(a.c) * asD(b.c) + asD(c.c))); }
  if (n == "llvm.ceil.f64" || n == "ceil") { Val a = A(0); if (a.e) inconclusive(s, "symbolic ceil"); return CV(fromD(ceil(asD(a.c)))); }
  if (n == "llvm.floor.f64" || n == "floor") { Val a = A(0); if (a.e) inconclusive(s, "symbolic floor"); return CV(fromD(floor(asD(a.c)))); }
  if (n == "llvm.fabs.f64" || n == "fabs") { Val a = A(0); if (a.e) inconclusive(s, "symbolic fabs"); return CV(fromD(fabs(asD(a.c)))); }
  if (n == "log" || n == "log2" || n == "exp" || n == "sqrt" || n == "llvm.sqrt.f64") { Val a = A(0); if (a.e) inconclusive(s, "symbolic " + n); double x = asD(a.c); return CV(fromD(n == "log" ? log(x) : n == "log2" ? log2(x) : n == "exp" ? exp(x) : sqrt(x))); }
  if (n == "pow") { if (A(0).e || A(1).e) inconclusive(s, "symbolic pow"); return CV(fromD(pow(asD(A(0).c), asD(A(1).c)))); }
  if (n == "abs" || n == "llvm.abs.i32" || n == "labs" || n == "llvm.abs.i64") { Val a = A(0); int w = I.imm[0]; if (decide(s, vSlt(a, CV(0), w))) return vSub(CV(0), a, w); return a; }
  if (n.rfind("llvm.smax", 0) == 0) { Val a = A(0), b = A(1); return decide(s, vSlt(a, b, I.imm[0])) ? b : a; }
  if (n.rfind("llvm.smin", 0) == 0) { Val a = A(0), b = A(1); return decide(s, vSlt(a, b, I.imm[0])) ? a : b; }
  if (n.rfind("llvm.umax", 0) == 0) { Val a = A(0), b = A(1); return decide(s, vUlt(a, b, I.imm[0])) ? b : a; }
  if (n.rfind("llvm.umin", 0) == 0) { Val a = A(0), b = A(1); return decide(s, vUlt(a, b, I.imm[0])) ? a : b; }
  if (n.rfind("llvm.bswap", 0) == 0 || n == "htonl" || n == "ntohl") { int w = I.imm[0]; Val a = A(0), r = CV(0); if (a.e == UNDEF) return a; for (int k = 0; k < w / 8; k++) { Val b = vExtract(a, w, 8 * k, 8); r = k == 0 ? b : vConcat(r, 8 * k, b, 8); } return r; }
  if (n.rfind("llvm.fshl", 0) == 0) { int w = I.imm[0]; Val a = A(0), b = A(1), c = A(2); if (c.e) inconclusive(s, "fshl"); u64 k = c.c % w; if (!k) return a; return vBin(E_OR, vBin(E_SHL, a, CV(k), w), vBin(E_LSHR, b, CV(w - k), w), w); }
  if (n == "tolower" || n == "toupper") { Val a = A(0); bool lowr = n == "tolower"; Val lo = CV(lowr ? 'A' : 'a'), hi = CV(lowr ? 'Z' : 'z'); if (decide(s, vSlt(a, lo, 32))) return a; if (decide(s, vSlt(hi, a, 32))) return a; return vAdd(a, CV(lowr ? 32 : (u64)(u32)-32), 32); }
  if (n == "isspace" || n == "isdigit") inconclusive(s, "ctype");
  if (n == "llvm.va_start" || n == "llvm.va_start.p0") { // System V: everything is passed in the overflow area
    u64 ap = CA(0); u32 id = newObj(s, 8 * f.va.size(), 2, "va"); for (size_t k = 0; k < f.va.size(); k++) rawWrite(s.objs[id], 8 * k, 8, f.va[k].e && f.va[k].e != UNDEF && f.va[k].e->w < 64 ? vSext(f.va[k], f.va[k].e->w, 64) : f.va[k]); f.vaobj = baseOf(id);
    memWrite(s, ap, 4, CV(48)); memWrite(s, ap + 4, 4, CV(176)); memWrite(s, ap + 8, 8, CV(baseOf(id))); memWrite(s, ap + 16, 8, CV(0)); return CV(0); }
  if (n.rfind("llvm.va_end", 0) == 0) return CV(0);
  if (n.rfind("llvm.va_copy", 0) == 0) { memCopy(s, CA(0), CA(1), 24); return CV(0); }
  if (n.rfind("llvm.assume", 0) == 0 || n.rfind("llvm.stack", 0) == 0 || n.rfind("llvm.prefetch", 0) == 0 || n.rfind("llvm.experimental.noalias", 0) == 0) return CV(0);
  if (n.rfind("llvm.expect", 0) == 0) return A(0);
  if (n.rfind("llvm.trap", 0) == 0) violation(s, "trap", "trap");
  if (n == "rand" || n == "random") { VarInfo v; v.kind = 0; v.w = 32; v.lo = 0; v.hi = 2147483647; v.p = 0; v.nz = false; v.g = nullptr; return symFresh(s, "rand", v, 32); }
  inconclusive(s, "unmodelled external " + n); return CV(0);
}

static void runState(State *s) { // runs until the path ends; forked siblings are pushed on the worklist
  try { for (;;) { step(*s); if ((ST.steps & 0xfff) == 0 && nowt() - T0 > cfgTime) { incReasons["time limit"]++; ST.inconclusive++; throw PathEnd{3}; } } }
  catch (PathEnd &e) { ST.paths++; if (e.why == 0) ST.ok++; else if (e.why == 1) ST.pruned++; else if (e.why == 2) ST.errpaths++; else ST.inconclusive++; }
  catch (Redo &) { }
  freeS(s);
}

// ------------------------------------------------------------------ results
static string js(const string &x) { string r = "\""; for (char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char) c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static string resultJson(bool complete) {
  string r = "{"; auto K = [&](const char *k, u64 v) { r += string("\"") + k + "\":" + to_string(v) + ","; };
  K("paths", ST.paths); K("ok", ST.ok); K("pruned", ST.pruned); K("asserts", ST.asserts); K("asserts_symbolic", ST.assertsSym); K("forks", ST.forks); K("steps", ST.steps); K("inconclusive", ST.inconclusive); K("errpaths", ST.errpaths); K("queries", SST.queries); K("sat", SST.sat); K("unsat", SST.unsat); K("unknown", SST.unknown); K("cachehits", SST.cachehits); K("guessed", SST.guessed); K("range_side_conditions", ST.liraSide);
  r += "\"solver_time\":" + to_string(SST.time) + ",\"complete\":" + (complete ? "true" : "false") + ",\"reach\":{"; bool first = true; for (auto &q : reachCount) { if (!first) r += ","; first = false; r += js(q.first) + ":" + to_string(q.second); }
  r += "},\"reasons\":{"; first = true; for (auto &q : incReasons) { if (!first) r += ","; first = false; r += js(q.first) + ":" + to_string(q.second); }
  r += "},\"functions\":["; first = true; for (auto &q : executedFns) { if (!first) r += ","; first = false; r += js(q); }
  // lines executed and not executed, and one-sided branches, per source file
  map<string, map<int, int>> cov; for (auto &q : funcs) { DFunc *d = q.second; if (!d->decoded || !d->F->getSubprogram()) continue; auto &fl = cov[d->F->getSubprogram()->getFilename().str()]; for (auto &i : d->code) if (i.line) { int &v = fl[i.line]; v |= i.hit ? 1 : 2; if (i.op == I_CBR && i.hit) v |= (i.hit & 2 ? 4 : 0) | (i.hit & 4 ? 8 : 0); } }
  r += "],\"cov\":{"; first = true; for (auto &q : cov) { if (!first) r += ","; first = false; r += js(q.first) + ":{"; bool f2 = true; for (auto &l : q.second) { if (!f2) r += ","; f2 = false; r += "\"" + to_string(l.first) + "\":" + to_string(l.second); } r += "}"; }
  r += "},\"assertions\":["; first = true; for (auto &q : assertMsgs) { if (!first) r += ","; first = false; r += js(q); }
  r += "],\"racy\":["; first = true; for (int q : racy) { if (!first) r += ","; first = false; r += to_string(q); }
  r += "],\"witnesses\":["; first = true; for (auto &v : wits) { if (!first) r += ","; first = false; r += "{\"inputs\":["; bool f2 = true; for (auto &q : v.in) { if (!f2) r += ","; f2 = false; r += "[" + js(q.first) + "," + to_string(q.second) + "]"; } r += "],\"outs\":["; f2 = true; for (i64 k : v.out) { if (!f2) r += ","; f2 = false; r += to_string(k); } r += "]}"; }
  r += "],\"violations\":["; first = true; for (auto &v : viols) { if (!first) r += ","; first = false; r += "{\"kind\":" + js(v.kind) + ",\"msg\":" + js(v.msg) + ",\"loc\":" + js(v.loc) + ",\"inputs\":["; bool f2 = true; for (auto &q : v.in) { if (!f2) r += ","; f2 = false; r += "[" + js(q.first) + "," + to_string(q.second) + "]"; } r += "],\"sched\":["; f2 = true; for (int k : v.sched) { if (!f2) r += ","; f2 = false; r += to_string(k); } r += "]}"; }
  return r + "]}";
}
int main(int argc, char **argv) {
  { struct rlimit rl; const rlim_t want = 1ull << 31;      // deep expressions: a large stack
    if (!getenv("SYMX_STACK") && getrlimit(RLIMIT_STACK, &rl) == 0 && rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want) {
      rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > want ? want : rl.rlim_max;
      if (setrlimit(RLIMIT_STACK, &rl) == 0) { setenv("SYMX_STACK", "1", 1); execv("/proc/self/exe", argv); } } }
  string file, entry = "harness", out = ""; 
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--threads") cfgThreads = stoi(nx()); else if (a == "--preempt") cfgPreempt = stoi(nx()); else if (a == "--jobs") cfgJobs = stoi(nx()); else if (a == "--time") cfgTime = stod(nx()); else if (a == "--max-steps") cfgMaxSteps = stoull(nx()); else if (a == "--maxviol") cfgMaxViol = stoi(nx()); else if (a == "--out") out = nx(); else if (a == "--lira") lira_mode = true; else if (a == "--solver-timeout") solver_timeout_ms = stoi(nx()); else if (a == "--no-overflow") cfgOverflow = false; else if (a == "--allow-exit") cfgAllowExit.insert(nx()); else if (a == "-v") cfgVerbose = true; else if (a == "--max-paths") cfgMaxPaths = stoull(nx()); else if (a == "--split") cfgSplit = stoi(nx()); else if (a == "--witnesses") cfgWit = stoi(nx()); else if (a == "--seed") rng += 0x9E3779B97F4A7C15ull * stoull(nx()); else if (a == "--racy") { string l = nx(); size_t p = 0; while (p < l.size()) { racy.insert(stoi(l.substr(p))); p = l.find(',', p); if (p == string::npos) break; p++; } } else file = a; }
  T0 = nowt(); SMDiagnostic Err; M = parseIRFile(file, Err, Ctx); if (!M) { Err.print("symx", errs()); return 3; } DL = &M->getDataLayout();
  State *s0 = new State; s0->objs.push_back(nullptr); // object 0 = null
  for (auto &F : *M) { DFunc *d = new DFunc; d->name = F.getName().str(); d->F = &F; funcs[&F] = d; fbyname[d->name] = d; u32 id = newObj(*s0, 0, 3, "function"); d->addr = baseOf(id); gaddr[&F] = d->addr; fbyaddr[d->addr] = d; }
  vector<pair<GlobalVariable*, u32>> gl;
  for (auto &G : M->globals()) { u64 sz = DL->getTypeAllocSize(G.getValueType()); u32 id = newObj(*s0, sz, 0, "global"); gaddr[&G] = baseOf(id); gl.push_back({&G, id}); }
  for (auto &q : gl) { Obj *o = s0->objs[q.second]; if (o->big) { o->zeroed = true; continue; } if (q.first->hasInitializer()) initGlobal(o, 0, q.first->getInitializer()); else { // external object (stdin, stderr...): a pointer to an opaque object
      u32 id = newObj(*s0, 256, 0, "extern"); u64 a = baseOf(id); o = s0->objs[q.second]; if (o->size >= 8) { memcpy(&o->data[0], &a, 8); memset(&o->st[0], 1, 8); } }
    s0->objs[q.second]->ro = q.first->isConstant(); }
  // decode in a fixed order so that instruction numbers are reproducible
  for (auto &F : *M) if (!F.isDeclaration()) decode(funcs[&F]);
  auto ent = fbyname.find(entry); if (ent == fbyname.end() || ent->second->F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  s0->th.resize(1); s0->th[0].vc = {1}; pushFrame(*s0, s0->th[0], ent->second, {}, -1);
  bool complete = true;
  { work.push_back(s0);
    int split = cfgJobs > 1 ? (cfgSplit ? cfgSplit : 24 * cfgJobs) : 0;
    if (cfgJobs > 1) { // breadth-first until there is enough to share
      std::deque<State*> q; q.push_back(s0); work.clear();
      while (!q.empty() && (int) q.size() < split && (int) viols.size() < cfgMaxViol && nowt() - T0 < cfgTime && ST.paths < 20000) { State *s = q.front(); q.pop_front(); runState(s); for (auto it = work.rbegin(); it != work.rend(); ++it) q.push_back(*it); work.clear(); }
      if (!q.empty() && (int) viols.size() < cfgMaxViol && nowt() - T0 < cfgTime) {
        vector<State*> all(q.begin(), q.end()); size_t next = 0; map<pid_t, int> kids; int live = 0; vector<string> res; int nfail = 0; string tmp = out.empty() ? "/tmp/symx" : out; bool stop = false;
        vector<string> files;
        while (next < all.size() || live) {
          while (!stop && next < all.size() && live < cfgJobs) {
            string fn = tmp + ".part" + to_string(next); files.push_back(fn); fflush(stdout); fflush(stderr); pid_t pid = fork();
            if (pid == 0) { // child: a fresh count
              ST = Stats(); SST = SolverStats(); reachCount.clear(); incReasons.clear(); viols.clear(); wits.clear(); witSeen = 0; State *mine = all[next]; work.clear(); work.push_back(mine); bool comp = true;
              while (!work.empty()) { if ((int) viols.size() >= cfgMaxViol || nowt() - T0 > cfgTime) { comp = false; break; } State *s = work.back(); work.pop_back(); runState(s); }
              FILE *o = fopen(fn.c_str(), "w"); string r = resultJson(comp && ST.inconclusive == 0); fwrite(r.data(), 1, r.size(), o); fclose(o); _exit(comp ? (viols.empty() ? 0 : 1) : 2); }
            next++; live++; }
          int stt; pid_t w = wait(&stt); if (w < 0) break; live--; if (!WIFEXITED(stt) || WEXITSTATUS(stt) > 2) { nfail++; incReasons["worker process failed (status " + to_string(stt) + ")"]++; } else if (WEXITSTATUS(stt) == 1 || WEXITSTATUS(stt) == 2) stop = true;
        }
        if (next < all.size()) complete = false; if (nfail) complete = false;
        if (next < all.size() && nowt() - T0 > cfgTime) incReasons["time limit"]++;
        // the runner merges the part files
        FILE *o = fopen((tmp + ".parts").c_str(), "w"); for (auto &x : files) fprintf(o, "%s\n", x.c_str()); fclose(o);
      } else if (!q.empty()) complete = false;
    } else {
      while (!work.empty()) { if ((int) viols.size() >= cfgMaxViol || nowt() - T0 > cfgTime || ST.paths > cfgMaxPaths) { complete = false; if (nowt() - T0 > cfgTime) incReasons["time limit"]++; break; } State *s = work.back(); work.pop_back(); runState(s); }
    }
  }
  string r = resultJson(complete && ST.inconclusive == 0);
  if (out.empty()) { puts(r.c_str()); } else { FILE *o = fopen(out.c_str(), "w"); fwrite(r.data(), 1, r.size(), o); fclose(o); }
  fflush(stdout); _exit(viols.empty() ? 0 : 1);
}

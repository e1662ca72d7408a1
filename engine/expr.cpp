#include "expr.h"
#include "solver.h"
vector<VarInfo> VARS;
static Expr undef_;
Expr *const UNDEF = &undef_;
static VarSet vsUnion(const VarSet &a, const VarSet &b) { if (a.empty()) return b; if (b.empty()) return a; VarSet r; std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }

int newVar(VarInfo v) { VARS.push_back(v); return VARS.size() - 1; }

// ---------- monomials ----------
static vector<Mono*> MONOS; 
static std::map<vector<pair<u32,u32>>, u32> monoTab;
static u32 monoGet(const vector<pair<u32,u32>> &f) {
  auto it = monoTab.find(f); if (it != monoTab.end()) return it->second;
  Mono *m = new Mono; m->id = MONOS.size(); m->f = f;
  for (auto &q : f) { VarInfo &v = VARS[q.first]; VarSet s; if (v.kind >= 2) s = v.deps; else s.push_back(q.first); m->vs = vsUnion(m->vs, s); }
  MONOS.push_back(m); monoTab[f] = m->id; return m->id;
}
static u32 monoOne() { static u32 one = monoGet({}); return one; }
const Mono *monoOf(u32 id) { return MONOS[id]; }
static u32 redExp(u32 v, u64 e, u64 p) {
  if (VARS[v].nz) return e % (p - 1);
  if (e >= p) e = (e - 1) % (p - 1) + 1;
  return e;
}
static std::unordered_map<u64,u32> monoMulTab;
static u32 monoMul(u32 a, u32 b, u64 p) {
  if (a > b) std::swap(a, b);
  u64 key = ((u64) a << 32) | b; auto it = monoMulTab.find(key); if (it != monoMulTab.end()) return it->second;
  auto &A = MONOS[a]->f, &B = MONOS[b]->f; vector<pair<u32,u32>> r; size_t i = 0, j = 0;
  while (i < A.size() || j < B.size()) {
    if (j == B.size() || (i < A.size() && A[i].first < B[j].first)) r.push_back(A[i++]);
    else if (i == A.size() || B[j].first < A[i].first) r.push_back(B[j++]);
    else { u32 e = redExp(A[i].first, (u64) A[i].second + B[j].second, p); if (e) r.push_back({A[i].first, e}); i++; j++; }
  }
  u32 id = monoGet(r); monoMulTab[key] = id; return id;
}
// ---------- polynomials ----------
struct PKey { u64 p; vector<pair<u32,u64>> t; bool operator==(const PKey &o) const { return p == o.p && t == o.t; } };
struct PHash { size_t operator()(const PKey &k) const { u64 h = k.p * 0x9E3779B97F4A7C15ull; for (auto &q : k.t) { h ^= q.first + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h ^= q.second * 31 + (h << 7) + (h >> 3); } return h; } };
static std::unordered_map<PKey, Poly*, PHash> polyTab;
static u32 polyCount = 0;
static const Poly *pMake(u64 p, vector<pair<u32,u64>> &&t) {
  PKey k{p, std::move(t)}; auto it = polyTab.find(k); if (it != polyTab.end()) return it->second;
  Poly *f = new Poly; f->id = polyCount++; f->p = p; f->t = k.t; for (auto &q : f->t) f->vs = vsUnion(f->vs, MONOS[q.first]->vs);
  polyTab.emplace(std::move(k), f); return f;
}
static u64 modp(i64 c, u64 p) { i64 r = c % (i64) p; return r < 0 ? r + p : r; }
static u64 mulmod(u64 a, u64 b, u64 p) { return (u128) a * b % p; }
static u64 powmod(u64 a, u64 e, u64 p) { u64 r = 1 % p; a %= p; while (e) { if (e & 1) r = mulmod(r, a, p); a = mulmod(a, a, p); e >>= 1; } return r; }
u64 invmod(u64 a, u64 p) { return a % p == 0 ? 0 : powmod(a, p - 2, p); }
const Poly *pConst(u64 p, i64 c) { u64 v = modp(c, p); vector<pair<u32,u64>> t; if (v) t.push_back({monoOne(), v}); return pMake(p, std::move(t)); }
const Poly *pVar(u64 p, int v) { monoOne(); u32 e = redExp(v, 1, p); if (!e) return pConst(p, 1); return pMake(p, {{monoGet({{(u32) v, 1}}), 1}}); }
const Poly *pAdd(const Poly *f, const Poly *g) {
  vector<pair<u32,u64>> r; size_t i = 0, j = 0; u64 p = f->p;
  while (i < f->t.size() || j < g->t.size()) {
    if (j == g->t.size() || (i < f->t.size() && f->t[i].first < g->t[j].first)) r.push_back(f->t[i++]);
    else if (i == f->t.size() || g->t[j].first < f->t[i].first) r.push_back(g->t[j++]);
    else { u64 c = (f->t[i].second + g->t[j].second) % p; if (c) r.push_back({f->t[i].first, c}); i++; j++; }
  }
  return pMake(p, std::move(r));
}
const Poly *pScale(const Poly *f, u64 c) { c %= f->p; vector<pair<u32,u64>> r; if (c) for (auto &q : f->t) r.push_back({q.first, mulmod(q.second, c, f->p)}); return pMake(f->p, std::move(r)); }
static std::unordered_map<u64, const Poly*> pMulTab;
const Poly *pMul(const Poly *f, const Poly *g) {
  if (f->id > g->id) std::swap(f, g);
  u64 key = ((u64) f->id << 32) | g->id; auto it = pMulTab.find(key); if (it != pMulTab.end()) return it->second;
  u64 p = f->p; std::map<u32,u64> acc;
  for (auto &a : f->t) for (auto &b : g->t) { u32 m = monoMul(a.first, b.first, p); u64 &c = acc[m]; c = (c + mulmod(a.second, b.second, p)) % p; }
  vector<pair<u32,u64>> r; for (auto &q : acc) if (q.second) r.push_back(q);
  const Poly *h = pMake(p, std::move(r)); pMulTab[key] = h; return h;
}
bool pIsConst(const Poly *f, u64 *c) { if (f->t.empty()) { *c = 0; return true; } if (f->t.size() == 1 && f->t[0].first == monoOne()) { *c = f->t[0].second; return true; } return false; }
// f = c * mono * g with mono a monomial in nonzero variables; g is the same for all associates of f
// (exponents of nonzero variables form the group Z/(p-1), so f can be divided by the nonzero part of any of its terms: the smallest result is canonical)
static std::unordered_map<u32, std::tuple<const Poly*, u64, vector<pair<u32,u32>>>> normTab;
static const Poly *pNormalise(const Poly *f, u64 *c, vector<pair<u32,u32>> *content) {
  auto it = normTab.find(f->id); if (it != normTab.end()) { *c = std::get<1>(it->second); if (content) *content = std::get<2>(it->second); return std::get<0>(it->second); }
  u64 p = f->p; vector<pair<u32,u64>> best; bool have = false; u64 bc = 0; vector<pair<u32,u32>> bm;
  std::set<vector<pair<u32,u32>>> tried;
  for (size_t k = 0; k < f->t.size(); k++) {
    vector<pair<u32,u32>> mono; for (auto &x : MONOS[f->t[k].first]->f) if (VARS[x.first].nz) mono.push_back(x);
    u64 lc = f->t[k].second, il = invmod(lc, p); vector<pair<u32,u64>> r; u32 inv = monoOne();
    { vector<pair<u32,u32>> im; for (auto &x : mono) { u32 e = (p - 1 - x.second % (p - 1)) % (p - 1); if (e) im.push_back({x.first, e}); } inv = monoGet(im); }
    for (auto &q : f->t) r.push_back({monoMul(q.first, inv, p), mulmod(q.second, il, p)});
    std::sort(r.begin(), r.end());
    if (!have || r < best) { best = r; bc = lc; bm = mono; have = true; }
  }
  const Poly *g = pMake(p, std::move(best)); normTab[f->id] = std::make_tuple(g, bc, bm); *c = bc; if (content) *content = bm; return g;
}
static std::unordered_map<u32, int> invVars; // poly id -> var
const Poly *pInvNZ(const Poly *f) {
  u64 p = f->p, c; if (pIsConst(f, &c)) return pConst(p, invmod(c, p));
  vector<pair<u32,u32>> cont; const Poly *g = pNormalise(f, &c, &cont);
  const Poly *r = pConst(p, invmod(c, p));
  for (auto &q : cont) { u32 e = (p - 1 - q.second % (p - 1)) % (p - 1); if (e) r = pMul(r, pMake(p, {{monoGet({{q.first, e}}), 1}})); }
  u64 cc; if (pIsConst(g, &cc)) return r;
  if (g->t.size() == 1 && MONOS[g->t[0].first]->f.size() == 1) {      // power of one (general) variable: 1/x = x^(p-2)
    auto x = MONOS[g->t[0].first]->f[0]; const Poly *h = pMake(p, {{g->t[0].first, 1}}); const Poly *acc = pConst(p, 1); u64 e = p - 2; const Poly *b = h; (void) x;
    while (e) { if (e & 1) acc = pMul(acc, b); b = pMul(b, b); e >>= 1; }
    return pMul(r, acc);
  }
  auto it = invVars.find(g->id); int v;
  if (it == invVars.end()) { VarInfo vi; vi.kind = 2; vi.w = 32; vi.lo = 0; vi.hi = p - 1; vi.p = p; vi.nz = true; vi.g = g; vi.deps = g->vs; vi.name = "inv"; v = newVar(vi); invVars[g->id] = v; }
  else v = it->second;
  return pMul(r, pVar(p, v));
}
u64 evalPoly(const Poly *f, const Model &m) {
  u64 p = f->p, acc = 0;
  for (auto &q : f->t) { u64 x = q.second; for (auto &y : MONOS[q.first]->f) { VarInfo &v = VARS[y.first]; u64 b; if (v.kind == 2) b = invmod(evalPoly(v.g, m), p); else if (v.kind == 3) { u32 bb = v.deps[0]; b = (size_t) bb < m.size() ? (u64) m[bb] : 1; } else b = (size_t) y.first < m.size() ? (u64) m[y.first] : (v.nz ? 1 : 0); x = mulmod(x, y.second == 1 ? b : powmod(b, y.second, p), p); } acc = (acc + x) % p; }
  return acc;
}

// ---------- expressions ----------
struct EKey { EK k; u8 w; u64 c; const Poly *poly; vector<Expr*> a; vector<u64> co; bool operator==(const EKey &o) const { return k == o.k && w == o.w && c == o.c && poly == o.poly && a == o.a && co == o.co; } };
struct EHash { size_t operator()(const EKey &k) const { u64 h = k.k * 131 + k.w + k.c * 0x9E3779B97F4A7C15ull + (u64) k.poly * 17; for (auto x : k.a) h = h * 1000003 ^ (u64) x >> 3; for (auto x : k.co) h = h * 1000033 ^ x; return h; } };
static std::unordered_map<EKey, Expr*, EHash> etab;
static u32 ecount = 1;
static void range(Expr *e) {
  int w = e->w; i64 mn = w >= 64 ? INT64_MIN : -(1ll << (w - 1)), mx = w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1;
  if (w == 1) { mn = -1; mx = 0; }
  e->lo = mn; e->hi = mx;
  auto set = [&](i128 lo, i128 hi) { if (lo >= mn && hi <= mx) { e->lo = (i64) lo; e->hi = (i64) hi; } };
  switch (e->k) {
  case E_CONST: e->lo = e->hi = sxt(e->c, w); break;
  case E_VAR: e->lo = VARS[e->c].lo; e->hi = VARS[e->c].hi; break;
  case E_FF: { i64 p = e->poly->p; set(p / 2 - p + 1, p / 2); break; }
  case E_LIN: { i128 lo = sxt(e->c, w), hi = lo; for (size_t i = 0; i < e->a.size(); i++) { i128 c = sxt(e->co[i], w); i128 l = e->a[i]->lo, h = e->a[i]->hi; if (c >= 0) { lo += c * l; hi += c * h; } else { lo += c * h; hi += c * l; } } set(lo, hi); break; }
  case E_MUL: { i128 x[4] = { (i128) e->a[0]->lo * e->a[1]->lo, (i128) e->a[0]->lo * e->a[1]->hi, (i128) e->a[0]->hi * e->a[1]->lo, (i128) e->a[0]->hi * e->a[1]->hi }; i128 l = x[0], h = x[0]; for (auto y : x) { l = std::min(l, y); h = std::max(h, y); } set(l, h); break; }
  case E_SEXT: e->lo = e->a[0]->lo; e->hi = e->a[0]->hi; break;
  case E_ZEXT: if (e->a[0]->w == 1) { e->lo = 0; e->hi = 1; } else if (e->a[0]->lo >= 0) { e->lo = e->a[0]->lo; e->hi = e->a[0]->hi; } else set(0, (i128) maskw(e->a[0]->w)); break;
  case E_AND: { u64 m = ~0ull; bool ok = false; for (auto x : e->a) if (x->lo >= 0) { ok = true; m = std::min(m, (u64) x->hi); } if (ok) set(0, (i128) m); break; }
  case E_UREM: if (e->a[1]->lo > 0) set(0, (i128) e->a[1]->hi - 1); break;
  case E_SREM: if (e->a[1]->lo > 0) { set(e->a[0]->lo >= 0 ? 0 : -((i128) e->a[1]->hi - 1), (i128) e->a[1]->hi - 1); } break;
  case E_LSHR: if (e->a[1]->k == E_CONST && e->a[1]->c > 0 && e->a[1]->c < (u64) w) set(0, (i128) (maskw(w) >> e->a[1]->c)); break;
  case E_SDIV: if (e->a[1]->k == E_CONST && sxt(e->a[1]->c, w) > 0) { i64 d = sxt(e->a[1]->c, w); set(e->a[0]->lo / d, e->a[0]->hi / d); } break;
  default: break;
  }
}
static Expr *mk(EK k, int w, u64 c, vector<Expr*> a, vector<u64> co = {}, const Poly *poly = nullptr) {
  EKey key{k, (u8) w, c, poly, a, co}; auto it = etab.find(key); if (it != etab.end()) return it->second;
  Expr *e = new Expr; e->k = k; e->w = w; e->id = ecount++; e->c = c; e->poly = poly; e->a = a; e->co = co;
  for (auto x : a) e->vs = vsUnion(e->vs, x->vs);
  if (poly) e->vs = vsUnion(e->vs, poly->vs);
  if (k == E_VAR) e->vs = { (int) c };
  range(e);
  etab.emplace(std::move(key), e); return e;
}
Expr *mkConst(u64 c, int w) { return mk(E_CONST, w, c & maskw(w), {}); }
Expr *mkVarExpr(int v) { return mk(E_VAR, VARS[v].w, v, {}); }
Expr *mkFF(const Poly *f, int w) { return mk(E_FF, w, 0, {}, {}, f); }
static Expr *EX(Val v, int w) { return v.e ? v.e : mkConst(v.c, w); }
static Val EV(Expr *e) { if (e->k == E_CONST) return CV(e->c); return Val{0, e}; }
static i64 balanced(u64 v, u64 p) { return v > p / 2 ? (i64) v - (i64) p : (i64) v; }
Val ffVal(const Poly *f, int w) { u64 c; if (pIsConst(f, &c)) return CV((u64) balanced(c, f->p) & maskw(w)); return Val{0, mkFF(f, w)}; }
// f == 0 <=> clearDen(f) == 0: inverses are multiplied away (their argument is nonzero)
static std::unordered_map<u32, const Poly*> clearTab;
static const Poly *clearDen(const Poly *f0) {
  auto it = clearTab.find(f0->id); if (it != clearTab.end()) return it->second;
  const Poly *f = f0; u64 p = f->p;
  for (int round = 0; round < 12; round++) {
    int v = -1; for (auto &q : f->t) for (auto &y : MONOS[q.first]->f) if (VARS[y.first].kind == 2 && (int) y.first > v) v = y.first;
    if (v < 0) break;
    const Poly *g = VARS[v].g; std::map<int, const Poly*> by; int mx = -100; // by exponent of inv in (-(p-1)/2, (p-1)/2]
    for (auto &q : f->t) { vector<pair<u32,u32>> rest; int e = 0; for (auto &y : MONOS[q.first]->f) if ((int) y.first == v) e = y.second; else rest.push_back(y); if ((u64) e > (p - 1) / 2) e -= (int) (p - 1); const Poly *m = pMake(p, {{monoGet(rest), q.second}}); auto z = by.find(e); if (z == by.end()) by[e] = m; else z->second = pAdd(z->second, m); mx = std::max(mx, e); }
    const Poly *acc = pConst(p, 0); bool big = false;
    for (auto &q : by) { const Poly *m = q.second; for (int k = q.first; k < mx; k++) { m = pMul(m, g); if (m->t.size() > 300) { big = true; break; } } if (big) break; acc = pAdd(acc, m); }
    if (big || acc->t.size() > 300) break;
    f = acc;
  }
  return clearTab[f0->id] = f;
}
Val ffZero(const Poly *f) {
  f = clearDen(f);
  u64 c; if (pIsConst(f, &c)) return CV(c == 0);
  const Poly *g = pNormalise(f, &c, nullptr);
  u64 cc; if (pIsConst(g, &cc)) return CV(0);
  if (g->t.size() == 1) { auto &m = MONOS[g->t[0].first]->f; if (m.size() == 1) g = pVar(g->p, m[0].first); }  // x^k == 0 <=> x == 0
  return Val{0, mk(E_FFZ, 1, 0, {}, {}, g)};
}
const Poly *pFromVal(Val v, int w, u64 p) {
  if (v.e == UNDEF) return nullptr;
  if (!v.e) return pConst(p, sxt(v.c, w));
  Expr *e = v.e;
  if (e->k == E_FF) return e->poly->p == p ? e->poly : nullptr;
  if (e->k == E_SEXT) return pFromVal(Val{0, e->a[0]}, e->a[0]->w, p);
  if (e->k == E_LIN && e->lo > -(1ll << 62) && e->hi < (1ll << 62)) { // value is the exact integer combination: check no wrap
    i128 lo = sxt(e->c, e->w), hi = lo; for (size_t i = 0; i < e->a.size(); i++) { i128 c = sxt(e->co[i], e->w); i128 l = e->a[i]->lo, h = e->a[i]->hi; if (c >= 0) { lo += c * l; hi += c * h; } else { lo += c * h; hi += c * l; } }
    i128 mn = -((i128) 1 << (e->w - 1)), mx = ((i128) 1 << (e->w - 1)) - 1; if (lo < mn || hi > mx) return nullptr;
    const Poly *r = pConst(p, sxt(e->c, e->w)); for (size_t i = 0; i < e->a.size(); i++) { const Poly *q = pFromVal(Val{0, e->a[i]}, e->w, p); if (!q) return nullptr; r = pAdd(r, pScale(q, modp(sxt(e->co[i], e->w), p))); }
    return r;
  }
  if (e->k == E_MUL && e->w == 64 && e->a[0]->hi < (1ll << 31) && e->a[1]->hi < (1ll << 31) && e->a[0]->lo > -(1ll << 31) && e->a[1]->lo > -(1ll << 31)) { const Poly *x = pFromVal(Val{0, e->a[0]}, 64, p), *y = pFromVal(Val{0, e->a[1]}, 64, p); return x && y ? pMul(x, y) : nullptr; }
  if (e->k == E_SREM && e->a[1]->k == E_CONST && sxt(e->a[1]->c, e->w) == (i64) p) return pFromVal(Val{0, e->a[0]}, e->w, p);
  return nullptr;
}
// linear normal form
struct Lin { u64 c; std::map<u32, pair<Expr*,u64>> t; };
static void linAdd(Lin &l, Val v, u64 k, int w) {
  if (!v.e) { l.c += v.c * k; return; }
  Expr *e = v.e;
  if (e->k == E_LIN) { l.c += e->c * k; for (size_t i = 0; i < e->a.size(); i++) { auto &q = l.t[e->a[i]->id]; q.first = e->a[i]; q.second += e->co[i] * k; } }
  else { auto &q = l.t[e->id]; q.first = e; q.second += k; }
}
static Val linVal(Lin &l, int w) {
  vector<Expr*> a; vector<u64> co; u64 M = maskw(w);
  for (auto &q : l.t) if (q.second.second & M) { a.push_back(q.second.first); co.push_back(q.second.second & M); }
  l.c &= M;
  if (a.empty()) return CV(l.c);
  if (a.size() == 1 && co[0] == 1 && l.c == 0) return Val{0, a[0]};
  if (a.size() == 1 && a[0]->k == E_FF && co[0] == M && l.c == 0 && (a[0]->poly->p & 1)) return ffVal(pScale(a[0]->poly, a[0]->poly->p - 1), w);
  return Val{0, mk(E_LIN, w, l.c, a, co)};
}
#define UND(a, b) if (a.e == UNDEF || b.e == UNDEF) return Val{0, UNDEF}
#define UND1(a) if (a.e == UNDEF) return a
Val vAdd(Val a, Val b, int w) { UND(a, b); if (!a.e && !b.e) return CV((a.c + b.c) & maskw(w)); if (w == 1) return vBin(E_XOR, a, b, 1); Lin l{0, {}}; linAdd(l, a, 1, w); linAdd(l, b, 1, w); return linVal(l, w); }
Val vSub(Val a, Val b, int w) { UND(a, b); if (!a.e && !b.e) return CV((a.c - b.c) & maskw(w)); if (w == 1) return vBin(E_XOR, a, b, 1); Lin l{0, {}}; linAdd(l, a, 1, w); linAdd(l, b, ~0ull, w); return linVal(l, w); }
Val vMul(Val a, Val b, int w) { UND(a, b); if (!a.e && !b.e) return CV((a.c * b.c) & maskw(w)); if (!a.e) std::swap(a, b); if (!b.e) { Lin l{0, {}}; linAdd(l, a, b.c, w); return linVal(l, w); }
  if (a.e->id > b.e->id) std::swap(a, b); return Val{0, mk(E_MUL, w, 0, {a.e, b.e})}; }
static u64 cbin(EK k, u64 a, u64 b, int w) {
  u64 M = maskw(w); a &= M; b &= M;
  switch (k) {
  case E_UDIV: return b ? a / b : M; case E_UREM: return b ? a % b : a;
  case E_SDIV: { i64 x = sxt(a, w), y = sxt(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (0 - a) & M; return (u64)(x / y) & M; }
  case E_SREM: { i64 x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & M; }
  case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
  case E_SHL: return b >= (u64) w ? 0 : (a << b) & M; case E_LSHR: return b >= (u64) w ? 0 : a >> b; case E_ASHR: return (u64)(sxt(a, w) >> (b >= (u64) w ? w - 1 : b)) & M;
  case E_EQ: return a == b; case E_ULT: return a < b; case E_SLT: return sxt(a, w) < sxt(b, w);
  default: abort();
  }
}
Val vBin(EK k, Val a, Val b, int w) {
  if (k == E_AND && ((!a.e && (a.c & maskw(w)) == 0) || (!b.e && (b.c & maskw(w)) == 0))) return CV(0);
  UND(a, b);
  if (!a.e && !b.e) return CV(cbin(k, a.c, b.c, w));
  u64 M = maskw(w);
  if (k == E_AND || k == E_OR || k == E_XOR) {
    if (!a.e) std::swap(a, b);
    if (a.e == b.e) return k == E_XOR ? CV(0) : a;
    if (!b.e) { u64 c = b.c & M; if (k == E_AND) { if (c == M) return a; if (c == 0) return CV(0); if (a.e->lo >= 0 && ((c + 1) & c) == 0 && (u64) a.e->hi <= c) return a; }
      if (k == E_OR) { if (c == 0) return a; if (c == M) return CV(M); }
      if (k == E_XOR) { if (c == 0) return a; if (w == 1) return vNot(a); } }
    Expr *x = EX(a, w), *y = EX(b, w); if (x->id > y->id) std::swap(x, y);
    return Val{0, mk(k, w, 0, {x, y})};
  }
  if (k == E_SHL && !b.e) { if (b.c >= (u64) w) return CV(0); return vMul(a, CV(1ull << b.c), w); }
  if ((k == E_LSHR || k == E_ASHR) && !b.e && b.c == 0) return a;
  if ((k == E_UDIV || k == E_SDIV) && !b.e && b.c == 1) return a;
  if ((k == E_SREM || k == E_UREM || k == E_SDIV || k == E_UDIV) && a.e && !b.e) { i64 c = sxt(b.c, w); bool sg = k == E_SREM || k == E_SDIV; if (c > 0 && a.e->hi < c && a.e->lo > (sg ? -c : -1)) return (k == E_SREM || k == E_UREM) ? a : CV(0); }
  return Val{0, mk(k, w, 0, {EX(a, w), EX(b, w)})};
}
Val vZext(Val a, int w, int w2) { UND1(a); if (w == w2) return a; if (!a.e) return CV(a.c & maskw(w));
  if (w > 1 && a.e->lo >= 0) return vSext(a, w, w2);
  if (a.e->k == E_ZEXT) return vZext(Val{0, a.e->a[0]}, a.e->a[0]->w, w2);
  return Val{0, mk(E_ZEXT, w2, 0, {a.e})}; }
Val vSext(Val a, int w, int w2) { UND1(a); if (w == w2) return a; if (!a.e) return CV((u64) sxt(a.c, w) & maskw(w2));
  Expr *e = a.e;
  if (e->k == E_FF) return Val{0, mkFF(e->poly, w2)};
  if (e->k == E_SEXT) return vSext(Val{0, e->a[0]}, e->a[0]->w, w2);
  if (e->k == E_EXTRACT && e->c == 0 && e->a[0]->w == w2 && w < 64 && e->a[0]->lo >= -(1ll << (w - 1)) && e->a[0]->hi < (1ll << (w - 1))) return Val{0, e->a[0]};
  if (e->k == E_ZEXT) return vZext(Val{0, e->a[0]}, e->a[0]->w, w2);
  if (e->k == E_LIN) { // distribute when the narrow sum cannot wrap
    i128 lo = sxt(e->c, w), hi = lo; for (size_t i = 0; i < e->a.size(); i++) { i128 c = sxt(e->co[i], w); i128 l = e->a[i]->lo, h = e->a[i]->hi; if (c >= 0) { lo += c * l; hi += c * h; } else { lo += c * h; hi += c * l; } }
    i128 mn = -((i128) 1 << (w - 1)), mx = ((i128) 1 << (w - 1)) - 1;
    if (lo >= mn && hi <= mx) { Lin l{(u64) sxt(e->c, w), {}}; for (size_t i = 0; i < e->a.size(); i++) linAdd(l, vSext(Val{0, e->a[i]}, w, w2), (u64) sxt(e->co[i], w), w2); return linVal(l, w2); } }
  return Val{0, mk(E_SEXT, w2, 0, {e})}; }
static Val vExtractPush(Expr *e, int w, int lo, int w2);
Val vExtract(Val a, int w, int lo, int w2) { UND1(a); if (lo == 0 && w == w2) return a; if (!a.e) return CV((a.c >> lo) & maskw(w2));
  Expr *e = a.e;
  if (lo == 0 && (e->k == E_SEXT || e->k == E_ZEXT)) { int wi = e->a[0]->w; if (wi == w2) return Val{0, e->a[0]}; if (wi > w2) return vExtract(Val{0, e->a[0]}, wi, 0, w2); return e->k == E_SEXT ? vSext(Val{0, e->a[0]}, wi, w2) : vZext(Val{0, e->a[0]}, wi, w2); }
  if (lo == 0 && e->k == E_FF && (i64) (e->poly->p / 2) <= (i64) maskw(w2 - 1)) return Val{0, mkFF(e->poly, w2)};
  if (lo == 0 && e->k == E_VAR && w2 > 1 && e->lo >= -(1ll << (w2 - 1)) && e->hi <= (1ll << (w2 - 1)) - 1) {}
  if ((e->k == E_LSHR || e->k == E_ASHR) && e->a[1]->k == E_CONST && e->a[1]->c < (u64) w && lo + (int) e->a[1]->c + w2 <= w) return vExtract(EV(e->a[0]), w, lo + (int) e->a[1]->c, w2);
  static std::unordered_map<u64, Val> exMemo; u64 mkey = 0; bool memo = (lo == 0 && e->k == E_LIN && !lira_mode) || e->k == E_AND || e->k == E_OR || e->k == E_XOR;
  if (memo) { mkey = ((u64) e->id << 16) | ((u64) lo << 8) | (u64) w2; auto it = exMemo.find(mkey); if (it != exMemo.end()) return it->second; Val r = vExtractPush(e, w, lo, w2); exMemo[mkey] = r; return r; }
  if (e->k == E_CONCAT) { int wl = e->a[1]->w; if (lo + w2 <= wl) return vExtract(Val{0, e->a[1]}, wl, lo, w2); if (lo >= wl) return vExtract(Val{0, e->a[0]}, e->a[0]->w, lo - wl, w2); }
  if (e->k == E_EXTRACT) return vExtract(Val{0, e->a[0]}, e->a[0]->w, lo + (int) e->c, w2);
  if (e->k == E_ZEXT) { int wi = e->a[0]->w; if (lo >= wi) return CV(0); if (lo + w2 <= wi) return vExtract(Val{0, e->a[0]}, wi, lo, w2); }
  return Val{0, mk(E_EXTRACT, w2, lo, {e})}; }
static Val vExtractPush(Expr *e, int w, int lo, int w2) {
  if (lo == 0 && e->k == E_LIN && !lira_mode) { Lin l{e->c, {}}; for (size_t i = 0; i < e->a.size(); i++) linAdd(l, vExtract(Val{0, e->a[i]}, w, 0, w2), e->co[i], w2); return linVal(l, w2); }
  if (e->k == E_AND || e->k == E_OR || e->k == E_XOR) return vBin(e->k, vExtract(EV(e->a[0]), w, lo, w2), vExtract(EV(e->a[1]), w, lo, w2), w2);
  return Val{0, mk(E_EXTRACT, w2, lo, {e})}; }
Val vTrunc(Val a, int w, int w2) { return vExtract(a, w, 0, w2); }
Val vConcat(Val h, int wh, Val l, int wl) { UND(h, l); if (!h.e && !l.e) return CV((h.c << wl) | (l.c & maskw(wl)));
  if (!h.e && h.c == 0) return vZext(l, wl, wh + wl);
  if (h.e && l.e && h.e->k == E_EXTRACT && h.e->a[0]->w == wh + wl && (int) h.e->c == wl) {
    Expr *x = h.e->a[0]; Val low = vExtract(Val{0, x}, x->w, 0, wl); if (low.e == l.e) return Val{0, x}; }
  if (h.e && l.e && h.e->k == E_EXTRACT && l.e->k == E_EXTRACT && h.e->a[0] == l.e->a[0] && h.e->c == l.e->c + wl) return vExtract(Val{0, h.e->a[0]}, h.e->a[0]->w, l.e->c, wh + wl);
  return Val{0, mk(E_CONCAT, wh + wl, 0, {EX(h, wh), EX(l, wl)})}; }
Val vNot(Val a) { UND1(a); if (!a.e) return CV(!(a.c & 1)); if (a.e->k == E_NOT) return Val{0, a.e->a[0]}; return Val{0, mk(E_NOT, 1, 0, {a.e})}; }
Val vEq(Val a, Val b, int w) {
  UND(a, b); if (!a.e && !b.e) return CV(((a.c ^ b.c) & maskw(w)) == 0);
  if (a.e == b.e) return CV(1);
  if (!a.e) std::swap(a, b);
  if (w == 1) { if (!b.e) return (b.c & 1) ? a : vNot(a); return vNot(vBin(E_XOR, a, b, 1)); }
  Expr *e = a.e;
  if (!b.e) {
    i64 c = sxt(b.c, w);
    if (e->lo > c || e->hi < c) return CV(0);
    if (e->lo == e->hi) return CV(e->lo == c);
    if (e->k == E_ZEXT) { int wi = e->a[0]->w; return vEq(Val{0, e->a[0]}, CV(b.c & maskw(wi)), wi); }
    if (e->k == E_SEXT) { int wi = e->a[0]->w; return vEq(Val{0, e->a[0]}, CV(b.c & maskw(wi)), wi); }
    if (e->k == E_FF) return ffZero(pAdd(e->poly, pConst(e->poly->p, -c)));
  } else if (e->k == E_FF && b.e->k == E_FF && e->poly->p == b.e->poly->p) return ffZero(pAdd(e->poly, pScale(b.e->poly, b.e->poly->p - 1)));
  // canonical: (a - b) == 0
  Val d = vSub(a, b, w); if (!d.e) return CV(d.c == 0);
  if (d.e->k == E_LIN && d.e->a.size() == 1 && (d.e->co[0] == 1 || d.e->co[0] == maskw(w))) { u64 c = d.e->co[0] == 1 ? (0 - d.e->c) : d.e->c; c &= maskw(w); Expr *x = d.e->a[0]; i64 sc = sxt(c, w); if (x->lo > sc || x->hi < sc) return CV(0); return Val{0, mk(E_EQ, 1, 0, {x, mkConst(c, w)})}; }
  if (d.e->lo > 0 || d.e->hi < 0) { if (!(d.e->lo == INT64_MIN)) return CV(0); }
  return Val{0, mk(E_EQ, 1, 0, {d.e, mkConst(0, w)})};
}
Val vSlt(Val a, Val b, int w) { UND(a, b); if (!a.e && !b.e) return CV(sxt(a.c, w) < sxt(b.c, w)); if (a.e == b.e) return CV(0);
  Expr *x = EX(a, w), *y = EX(b, w); if (x->hi < y->lo) return CV(1); if (x->lo >= y->hi) return CV(0);
  return Val{0, mk(E_SLT, 1, 0, {x, y})}; }
Val vUlt(Val a, Val b, int w) { UND(a, b); if (!a.e && !b.e) return CV((a.c & maskw(w)) < (b.c & maskw(w))); if (a.e == b.e) return CV(0);
  Expr *x = EX(a, w), *y = EX(b, w); if (x->lo >= 0 && y->lo >= 0) return vSlt(a, b, w);
  return Val{0, mk(E_ULT, 1, 0, {x, y})}; }
Val vFp(EK k, Val a, Val b, int w) { UND(a, b); vector<Expr*> v; int wa = 64; if (k == E_ITOF || k == E_UTOF) wa = a.e->w; v.push_back(EX(a, wa)); if (k != E_ITOF && k != E_UTOF && k != E_FTOI && k != E_FNEG) v.push_back(EX(b, 64)); return Val{0, mk(k, w, 0, v)}; }

static double asD(u64 x) { double d; memcpy(&d, &x, 8); return d; } static u64 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static std::unordered_map<u32, u64> *evMemo;
static u64 ev(Expr *e, const Model &m) {
  u64 M = maskw(e->w);
  switch (e->k) { case E_CONST: return e->c; case E_VAR: return (e->c < m.size() ? (u64) m[e->c] : (u64) VARS[e->c].lo) & M;
  case E_FF: return (u64) balanced(evalPoly(e->poly, m), e->poly->p) & M; case E_FFZ: return evalPoly(e->poly, m) == 0; default: break; }
  auto it = evMemo->find(e->id); if (it != evMemo->end()) return it->second;
  u64 r = 0; auto A = [&](int i) { return ev(e->a[i], m); }; int wa = e->a[0]->w;
  switch (e->k) {
  case E_LIN: r = e->c; for (size_t i = 0; i < e->a.size(); i++) r += e->co[i] * A(i); r &= M; break;
  case E_MUL: r = (A(0) * A(1)) & M; break;
  case E_ZEXT: r = A(0); break; case E_SEXT: r = (u64) sxt(A(0), wa) & M; break; case E_EXTRACT: r = (A(0) >> e->c) & M; break;
  case E_CONCAT: r = (A(0) << e->a[1]->w) | A(1); break; case E_NOT: r = !A(0); break;
  case E_ITOF: if (e->w == 32) { float q = (float) sxt(A(0), wa); u32 qq; memcpy(&qq, &q, 4); r = qq; } else r = fromD((double) sxt(A(0), wa)); break; case E_UTOF: r = fromD((double) A(0)); break;
  case E_FADD: r = fromD(asD(A(0)) + asD(A(1))); break; case E_FSUB: r = fromD(asD(A(0)) - asD(A(1))); break; case E_FMUL: r = fromD(asD(A(0)) * asD(A(1))); break;
  case E_FDIV: r = fromD(asD(A(0)) / asD(A(1))); break; case E_FNEG: r = fromD(-asD(A(0))); break; case E_FTOI: r = (u64)(i64) asD(A(0)) & M; break;
  case E_FLT: r = asD(A(0)) < asD(A(1)); break; case E_FLE: r = asD(A(0)) <= asD(A(1)); break; case E_FEQ: r = asD(A(0)) == asD(A(1)); break;
  default: r = cbin(e->k, A(0), A(1), wa); break;
  }
  (*evMemo)[e->id] = r; return r;
}
u64 evalE(Expr *e, const Model &m) { std::unordered_map<u32, u64> memo; evMemo = &memo; return ev(e, m); }
string showP(const Poly *f) { string s; for (auto &q : f->t) { if (!s.empty()) s += "+"; s += std::to_string(q.second); for (auto &x : MONOS[q.first]->f) { s += "*" + VARS[x.first].name + "#" + std::to_string(x.first); if (x.second > 1) s += "^" + std::to_string(x.second); } } return s.empty() ? "0" : s; }
string showE(Expr *e) { if (!e) return "-"; if (e == UNDEF) return "undef"; static const char *n[] = {"const","var","lin","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","zext","sext","extract","concat","eq","ult","slt","not","ff","ffz","ite","itof","utof","fadd","fsub","fmul","fdiv","fneg","ftoi","flt","fle","feq"};
  string s = string("(") + n[e->k]; if (e->k == E_CONST) return std::to_string(sxt(e->c, e->w)); if (e->k == E_VAR) return VARS[e->c].name + "#" + std::to_string(e->c); if (e->poly) s += " " + showP(e->poly); if (e->k == E_LIN) s += " " + std::to_string(sxt(e->c, e->w)); for (size_t i = 0; i < e->a.size(); i++) { s += " "; if (e->k == E_LIN) s += std::to_string(sxt(e->co[i], e->w)) + "*"; s += showE(e->a[i]); } return s + ")"; }

// x := r in f
const Poly *pSubst(const Poly *f, int x, const Poly *r) {
  bool occ = false; for (auto &q : f->t) { for (auto &y : MONOS[q.first]->f) if ((int) y.first == x) { occ = true; break; } if (occ) break; } if (!occ) return f;
  u64 p = f->p; const Poly *acc = pConst(p, 0); std::map<u32, const Poly*> pw;
  for (auto &q : f->t) { vector<pair<u32,u32>> rest; u32 e = 0; for (auto &y : MONOS[q.first]->f) if ((int) y.first == x) e = y.second; else rest.push_back(y);
    const Poly *m = pMake(p, {{monoGet(rest), q.second}});
    if (e) { auto it = pw.find(e); const Poly *z; if (it == pw.end()) { z = r; for (u32 k = 1; k < e; k++) { z = pMul(z, r); if (z->t.size() > 60) return nullptr; } pw[e] = z; } else z = it->second; m = pMul(m, z); }
    acc = pAdd(acc, m); if (acc->t.size() > 120) return nullptr; }
  return acc;
}
// from f == 0 : a variable that is determined by the others
bool pSolveFor(const Poly *f, int *x, const Poly **r) {
  std::map<int,int> occ; for (auto &q : f->t) for (auto &y : MONOS[q.first]->f) occ[y.first]++;
  for (auto &q : f->t) for (auto &y : MONOS[q.first]->f) { if (y.second != 1 || occ[y.first] != 1 || VARS[y.first].kind == 2) continue; bool ok = true; vector<pair<u32,u32>> im; u64 p = f->p;
      for (auto &z : MONOS[q.first]->f) if (z.first != y.first) { if (!VARS[z.first].nz || VARS[z.first].kind == 2) { ok = false; break; } u32 e = (p - 1 - z.second % (p - 1)) % (p - 1); if (e) im.push_back({z.first, e}); }
      // inverse variables that depend on y would become stale
      if (ok) { for (auto &q2 : f->t) for (auto &z : MONOS[q2.first]->f) if (VARS[z.first].kind == 2) ok = false; }
      if (!ok) continue;
      const Poly *g = pAdd(f, pScale(pMake(p, {q}), p - 1)); g = pMul(g, pMake(p, {{monoGet(im), 1}})); g = pScale(g, p - invmod(q.second, p)); *x = y.first; *r = g; return true; }
  return false;
}

#include "solver.h"
#include <z3.h>
#include <ctime>
SolverStats SST; int solver_timeout_ms = 60000; bool lira_mode = false;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Z3_context C; static Z3_solver S; static size_t ndefs;
static std::unordered_map<u32, Z3_ast> bvMemo;                   // expr id -> ast
static std::unordered_map<int, vector<Z3_ast>> varWire;           // FF variable -> one-hot wire
static std::unordered_map<int, Z3_ast> bvVar;
static std::unordered_map<u32, vector<Z3_ast>> polyWire, monoWire;
static std::map<vector<unsigned>, vector<Z3_ast>> opMemo;
static std::unordered_map<u32, Z3_ast> names;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(42); }
static void reset() {
  bvMemo.clear(); varWire.clear(); bvVar.clear(); polyWire.clear(); monoWire.clear(); opMemo.clear(); names.clear(); ndefs = 0;
  if (C) Z3_del_context(C);
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, errh);
  S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, lira_mode ? "QF_LIRA" : "QF_FD")); Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), solver_timeout_ms); Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p);
}
static void add(Z3_ast a) { Z3_solver_assert(C, S, a); ndefs++; }
static Z3_ast freshB() { return Z3_mk_fresh_const(C, "w", Z3_mk_bool_sort(C)); }
static Z3_ast Or(vector<Z3_ast> v) { if (v.empty()) return Z3_mk_false(C); if (v.size() == 1) return v[0]; return Z3_mk_or(C, v.size(), v.data()); }
static vector<Z3_ast> newWire(u64 p, bool nz) {
  vector<Z3_ast> w(p); for (auto &x : w) x = freshB();
  if (nz) w[0] = Z3_mk_false(C);
  add(Or(w)); for (u64 i = nz; i < p; i++) for (u64 j = i + 1; j < p; j++) add(Or({Z3_mk_not(C, w[i]), Z3_mk_not(C, w[j])}));
  return w;
}
static vector<Z3_ast> constWire(u64 p, u64 c) { vector<Z3_ast> w(p); for (u64 i = 0; i < p; i++) w[i] = i == c ? Z3_mk_true(C) : Z3_mk_false(C); return w; }
static bool isF(Z3_ast a) { return Z3_get_bool_value(C, a) == Z3_L_FALSE; }
static bool isT(Z3_ast a) { return Z3_get_bool_value(C, a) == Z3_L_TRUE; }
static vector<Z3_ast> binWire(u64 p, const vector<Z3_ast> &x, const vector<Z3_ast> &y, bool mul) {
  vector<unsigned> key; key.push_back(mul); for (auto q : x) key.push_back(Z3_get_ast_id(C, q)); for (auto q : y) key.push_back(Z3_get_ast_id(C, q)); auto it = opMemo.find(key); if (it != opMemo.end()) return it->second;
  bool nz = mul && isF(x[0]) && isF(y[0]);
  vector<Z3_ast> z = newWire(p, nz);
  for (u64 i = 0; i < p; i++) { if (isF(x[i])) continue; for (u64 j = 0; j < p; j++) { if (isF(y[j])) continue; u64 k = mul ? i * j % p : (i + j) % p; 
    add(Or({Z3_mk_not(C, x[i]), Z3_mk_not(C, y[j]), z[k]}));
    if (!mul || k) { add(Or({Z3_mk_not(C, x[i]), Z3_mk_not(C, z[k]), y[j]})); add(Or({Z3_mk_not(C, y[j]), Z3_mk_not(C, z[k]), x[i]})); } } }
  opMemo[key] = z; return z;
}
static const vector<Z3_ast> &wPoly(const Poly *f);
static const vector<Z3_ast> &wVar(int v) {
  auto it = varWire.find(v); if (it != varWire.end()) return it->second;
  VarInfo &i = VARS[v]; u64 p = i.p; vector<Z3_ast> w;
  if (i.kind == 2) { vector<Z3_ast> g = wPoly(i.g); w.resize(p); for (u64 k = 0; k < p; k++) w[invmod(k, p)] = g[k]; }
  else if (i.kind == 3) w = wVar(i.deps[0]);
  else w = newWire(p, i.nz);
  return varWire[v] = w;
}
static u64 pw(u64 b, u64 e, u64 p) { u64 r = 1; while (e--) r = r * b % p; return r; }
static const vector<Z3_ast> &wMono(u32 id, u64 p) {
  auto it = monoWire.find(id); if (it != monoWire.end()) return it->second;
  const Mono *m = monoOf(id); vector<Z3_ast> acc; bool first = true;
  if (m->f.empty()) acc = constWire(p, 1);
  for (auto &q : m->f) {
    vector<Z3_ast> x = wVar(q.first); 
    if (q.second > 1) { vector<vector<Z3_ast>> parts(p); for (u64 k = 0; k < p; k++) if (!isF(x[k])) parts[pw(k, q.second, p)].push_back(x[k]); vector<Z3_ast> y(p); for (u64 k = 0; k < p; k++) y[k] = Or(parts[k]); x = y; }
    if (first) { acc = x; first = false; } else acc = binWire(p, acc, x, true);
  }
  return monoWire[id] = acc;
}
static const vector<Z3_ast> &wPoly(const Poly *f) {
  auto it = polyWire.find(f->id); if (it != polyWire.end()) return it->second;
  u64 p = f->p; vector<Z3_ast> acc; bool first = true; u64 shift = 0;
  if (p > 31) { fprintf(stderr, "FF prime too large for the solver encoding\n"); exit(43); }
  for (auto &q : f->t) {
    if (monoOf(q.first)->f.empty()) { shift = q.second; continue; }
    vector<Z3_ast> x = wMono(q.first, p); vector<Z3_ast> y(p); for (u64 k = 0; k < p; k++) y[k * q.second % p] = x[k];
    if (first) { acc = y; first = false; } else acc = binWire(p, acc, y, false);
  }
  if (first) acc = constWire(p, shift); else if (shift) { vector<Z3_ast> y(p); for (u64 k = 0; k < p; k++) y[(k + shift) % p] = acc[k]; acc = y; }
  return polyWire[f->id] = acc;
}
// ---- integer/real translation (lira_mode): machine integers as mathematical integers, with the no-wrap side conditions proved by the caller; doubles as reals with rounding error
static Z3_ast num(i128 v) { bool neg = v < 0; u128 u = neg ? -(u128) v : (u128) v; string s; if (!u) s = "0"; while (u) { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } if (neg) s = "-" + s; return Z3_mk_numeral(C, s.c_str(), Z3_mk_int_sort(C)); }
static Z3_ast rnum(double d) { // exact rational
  if (d == 0) return Z3_mk_numeral(C, "0", Z3_mk_real_sort(C)); int e; double m = frexp(d, &e); i64 mi = (i64) ldexp(m, 53); e -= 53; string s = std::to_string(mi);
  Z3_ast a = Z3_mk_numeral(C, s.c_str(), Z3_mk_real_sort(C)); Z3_ast two = Z3_mk_numeral(C, "2", Z3_mk_real_sort(C)); (void) two;
  // power of two as decimal string
  string pz = "1"; int k = e < 0 ? -e : e; for (int i = 0; i < k; i++) { int c = 0; for (int j = pz.size() - 1; j >= 0; j--) { int x = (pz[j] - '0') * 2 + c; pz[j] = '0' + x % 10; c = x / 10; } if (c) pz.insert(pz.begin(), '0' + c); }
  Z3_ast q = Z3_mk_numeral(C, pz.c_str(), Z3_mk_real_sort(C)); if (e < 0) return Z3_mk_div(C, a, q); Z3_ast v[2] = {a, q}; return Z3_mk_mul(C, 2, v); }
static Z3_ast bin(Z3_ast (*f)(Z3_context, unsigned, Z3_ast const[]), Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return f(C, 2, v); }
static Z3_ast T(Expr *e);
static Z3_ast lit(Expr *e) { return T(e); }
static const char *EPS = "1/9007199254740992"; // 2^-53
static Z3_ast rounded(Z3_ast exact, Z3_ast lin) { // v with |v-exact| <= eps*|exact|   (no underflow/overflow: magnitudes here are in [1e-10, 1e30] or exactly 0)
  (void) lin; Z3_ast v = Z3_mk_fresh_const(C, "r", Z3_mk_real_sort(C)); Z3_ast eps = Z3_mk_numeral(C, EPS, Z3_mk_real_sort(C)); Z3_ast zero = Z3_mk_numeral(C, "0", Z3_mk_real_sort(C));
  Z3_ast absx = Z3_mk_ite(C, Z3_mk_ge(C, exact, zero), exact, bin(Z3_mk_sub, zero, exact)); Z3_ast err = bin(Z3_mk_mul, eps, absx); Z3_ast d = bin(Z3_mk_sub, v, exact);
  add(Z3_mk_le(C, d, err)); add(Z3_mk_ge(C, d, bin(Z3_mk_sub, zero, err))); return v; }
static double asD(u64 x) { double d; memcpy(&d, &x, 8); return d; }
// a double that is certainly an integer of magnitude at most 2^53: computed without rounding
static bool exactInt(Expr *e, i128 &lo, i128 &hi) {
  const i128 L = (i128) 1 << 53; i128 a, b, c, d;
  if (e->k == E_CONST) { double x = asD(e->c); if (x != floor(x) || fabs(x) > 9007199254740992.) return false; lo = hi = (i64) x; return true; }
  if (e->k == E_ITOF) { lo = e->a[0]->lo; hi = e->a[0]->hi; return lo >= -L && hi <= L; }
  if (e->k == E_FNEG) { if (!exactInt(e->a[0], a, b)) return false; lo = -b; hi = -a; return true; }
  if (e->k != E_FMUL && e->k != E_FADD && e->k != E_FSUB) return false;
  if (!exactInt(e->a[0], a, b) || !exactInt(e->a[1], c, d)) return false;
  if (e->k == E_FADD) { lo = a + c; hi = b + d; } else if (e->k == E_FSUB) { lo = a - d; hi = b - c; } else { i128 xs[4] = {a * c, a * d, b * c, b * d}; lo = hi = xs[0]; for (auto y : xs) { lo = std::min(lo, y); hi = std::max(hi, y); } }
  return lo >= -L && hi <= L; }
static Z3_ast Tl(Expr *e) {
  auto it = bvMemo.find(e->id); if (it != bvMemo.end()) return it->second;
  Z3_ast r = nullptr; auto A = [&](int i) { return Tl(e->a[i]); };
  auto F = [&](int i) -> Z3_ast { Expr *x = e->a[i]; if (x->k == E_CONST) return rnum(asD(x->c)); return Tl(x); };
  switch (e->k) {
  case E_CONST: r = num(e->w == 1 ? (i128) e->c : (i128) sxt(e->c, e->w)); break;
  case E_VAR: { r = Z3_mk_const(C, Z3_mk_string_symbol(C, (VARS[e->c].name + "#" + std::to_string(e->c)).c_str()), Z3_mk_int_sort(C)); bvVar[e->c] = r; add(Z3_mk_ge(C, r, num(VARS[e->c].lo))); add(Z3_mk_le(C, r, num(VARS[e->c].hi))); break; }
  case E_LIN: { r = num(sxt(e->c, e->w)); for (size_t i = 0; i < e->a.size(); i++) { Z3_ast t = bin(Z3_mk_mul, num(sxt(e->co[i], e->w)), A(i)); r = bin(Z3_mk_add, r, t); } break; }
  case E_MUL: { Z3_ast a = A(0), b = A(1); (void) a; (void) b; r = Z3_mk_fresh_const(C, "prod", Z3_mk_int_sort(C));
    i128 xs[4] = { (i128) e->a[0]->lo * e->a[1]->lo, (i128) e->a[0]->lo * e->a[1]->hi, (i128) e->a[0]->hi * e->a[1]->lo, (i128) e->a[0]->hi * e->a[1]->hi }; i128 l = xs[0], h = xs[0]; for (auto y : xs) { l = std::min(l, y); h = std::max(h, y); }
    add(Z3_mk_ge(C, r, num(l))); add(Z3_mk_le(C, r, num(h))); break; }
  case E_SEXT: r = A(0); break;
  case E_ZEXT: if (e->a[0]->w == 1) r = Z3_mk_ite(C, A(0), num(1), num(0)); else if (e->a[0]->lo >= 0) r = A(0); else { fprintf(stderr, "lira: zext\n"); exit(44); } break;
  case E_EXTRACT: if (e->c == 0) { r = A(0); break; } fprintf(stderr, "lira: extract\n"); exit(44);   // truncation: the caller proves the value fits
  case E_SREM: case E_SDIV: { Z3_ast a = A(0); if (e->a[1]->k != E_CONST || sxt(e->a[1]->c, e->w) <= 0) { // symbolic divisor (Euclid): q,r with sign conditions, q abstract
        fprintf(stderr, "lira: division\n"); exit(44); }
      i64 d = sxt(e->a[1]->c, e->w); Z3_ast q = Z3_mk_fresh_const(C, "q", Z3_mk_int_sort(C)); Z3_ast rem = bin(Z3_mk_sub, a, bin(Z3_mk_mul, num(d), q)); Z3_ast z = num(0);
      add(Z3_mk_ite(C, Z3_mk_ge(C, a, z), bin(Z3_mk_and, Z3_mk_ge(C, rem, z), Z3_mk_lt(C, rem, num(d))), bin(Z3_mk_and, Z3_mk_le(C, rem, z), Z3_mk_gt(C, rem, num(-(i128) d)))));
      r = e->k == E_SREM ? rem : q; break; }
  case E_EQ: r = Z3_mk_eq(C, A(0), A(1)); break; case E_SLT: r = Z3_mk_lt(C, A(0), A(1)); break; case E_NOT: r = Z3_mk_not(C, A(0)); break;
  case E_ULT: if (e->a[0]->lo >= 0 && e->a[1]->lo >= 0) { r = Z3_mk_lt(C, A(0), A(1)); break; } fprintf(stderr, "lira: ult\n"); exit(44);
  case E_AND: if (e->w == 1) { r = bin(Z3_mk_and, A(0), A(1)); break; } fprintf(stderr, "lira: and\n"); exit(44);
  case E_OR: if (e->w == 1) { r = bin(Z3_mk_or, A(0), A(1)); break; } fprintf(stderr, "lira: or\n"); exit(44);
  case E_ITOF: { Expr *x = e->a[0]; Z3_ast v = Z3_mk_int2real(C, A(0)); if (x->lo >= -(1ll << 53) && x->hi <= (1ll << 53)) r = v; else r = rounded(v, nullptr); break; }
  case E_FADD: case E_FSUB: { i128 l, h; Z3_ast x = bin(e->k == E_FADD ? Z3_mk_add : Z3_mk_sub, F(0), F(1)); r = exactInt(e, l, h) ? x : rounded(x, nullptr); break; }
  case E_FNEG: r = Z3_mk_unary_minus(C, F(0)); break;
  case E_FMUL: { Expr *x = e->a[0], *y = e->a[1]; if (x->k == E_CONST || y->k == E_CONST) { r = rounded(bin(Z3_mk_mul, F(0), F(1)), nullptr); break; }
      if (x->k == E_ITOF && y->k == E_ITOF) { Val v = vMul(vSext(Val{0, x->a[0]}, x->a[0]->w, 64), vSext(Val{0, y->a[0]}, y->a[0]->w, 64), 64); Z3_ast P = v.e ? Tl(v.e) : num((i64) v.c); i128 l, h; r = exactInt(e, l, h) ? Z3_mk_int2real(C, P) : rounded(Z3_mk_int2real(C, P), nullptr); break; }
      fprintf(stderr, "lira: nonlinear double product\n"); exit(44); }
  case E_FDIV: { Expr *y = e->a[1]; if (y->k != E_CONST) { fprintf(stderr, "lira: division of doubles\n"); exit(44); } r = rounded(Z3_mk_div(C, F(0), F(1)), nullptr); break; }
  case E_FTOI: { Z3_ast x = F(0); r = Z3_mk_fresh_const(C, "trunc", Z3_mk_int_sort(C)); Z3_ast rr = Z3_mk_int2real(C, r), z = Z3_mk_numeral(C, "0", Z3_mk_real_sort(C)), one = Z3_mk_numeral(C, "1", Z3_mk_real_sort(C));
      add(Z3_mk_ite(C, Z3_mk_ge(C, x, z), bin(Z3_mk_and, Z3_mk_le(C, rr, x), Z3_mk_lt(C, x, bin(Z3_mk_add, rr, one))), bin(Z3_mk_and, Z3_mk_ge(C, rr, x), Z3_mk_gt(C, x, bin(Z3_mk_sub, rr, one))))); break; }
  case E_FLT: r = Z3_mk_lt(C, F(0), F(1)); break; case E_FLE: r = Z3_mk_le(C, F(0), F(1)); break; case E_FEQ: r = Z3_mk_eq(C, F(0), F(1)); break;
  default: fprintf(stderr, "lira: unsupported term %s\n", showE(e).c_str()); exit(44);
  }
  return bvMemo[e->id] = r;
}
static Z3_ast T(Expr *e) {
  if (lira_mode) return Tl(e);
  auto it = bvMemo.find(e->id); if (it != bvMemo.end()) return it->second;
  Z3_ast r = nullptr; int w = e->w; Z3_sort bs = Z3_mk_bv_sort(C, w);
  auto A = [&](int i) { Z3_ast x = T(e->a[i]); return x; };
  auto B = [&](int i) { Z3_ast x = T(e->a[i]); if (e->a[i]->w == 1) return Z3_mk_ite(C, x, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)), Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, 1))); return x; };
  switch (e->k) {
  case E_CONST: r = w == 1 ? (e->c ? Z3_mk_true(C) : Z3_mk_false(C)) : Z3_mk_unsigned_int64(C, e->c, bs); break;
  case E_VAR: { VarInfo &v = VARS[e->c]; r = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string(e->c)).c_str()), bs); bvVar[e->c] = r;
    if (v.lo > (w >= 64 ? INT64_MIN : -(1ll << (w - 1)))) add(Z3_mk_bvsge(C, r, Z3_mk_unsigned_int64(C, (u64) v.lo & maskw(w), bs))); if (v.hi < (w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1)) add(Z3_mk_bvsle(C, r, Z3_mk_unsigned_int64(C, (u64) v.hi & maskw(w), bs))); break; }
  case E_LIN: { r = nullptr; for (size_t i = 0; i < e->a.size(); i++) { Z3_ast t = A(i); if (e->co[i] == maskw(w)) t = Z3_mk_bvneg(C, t); else if (e->co[i] != 1) t = Z3_mk_bvmul(C, Z3_mk_unsigned_int64(C, e->co[i], bs), t); r = r ? Z3_mk_bvadd(C, r, t) : t; } if (e->c) r = Z3_mk_bvadd(C, r, Z3_mk_unsigned_int64(C, e->c, bs)); break; }
  case E_MUL: r = Z3_mk_bvmul(C, A(0), A(1)); break; case E_UDIV: r = Z3_mk_bvudiv(C, A(0), A(1)); break; case E_SDIV: r = Z3_mk_bvsdiv(C, A(0), A(1)); break;
  case E_UREM: r = Z3_mk_bvurem(C, A(0), A(1)); break; case E_SREM: r = Z3_mk_bvsrem(C, A(0), A(1)); break;
  case E_AND: r = w == 1 ? bin(Z3_mk_and, A(0), A(1)) : Z3_mk_bvand(C, A(0), A(1)); break; case E_OR: r = w == 1 ? bin(Z3_mk_or, A(0), A(1)) : Z3_mk_bvor(C, A(0), A(1)); break; case E_XOR: r = w == 1 ? Z3_mk_xor(C, A(0), A(1)) : Z3_mk_bvxor(C, A(0), A(1)); break;
  case E_SHL: r = Z3_mk_bvshl(C, A(0), A(1)); break; case E_LSHR: r = Z3_mk_bvlshr(C, A(0), A(1)); break; case E_ASHR: r = Z3_mk_bvashr(C, A(0), A(1)); break;
  case E_ZEXT: r = Z3_mk_zero_ext(C, w - e->a[0]->w, B(0)); break; case E_SEXT: r = Z3_mk_sign_ext(C, w - e->a[0]->w, B(0)); break;
  case E_EXTRACT: r = Z3_mk_extract(C, e->c + w - 1, e->c, B(0)); if (w == 1) r = Z3_mk_eq(C, r, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1))); break;
  case E_CONCAT: r = Z3_mk_concat(C, B(0), B(1)); break;
  case E_EQ: r = Z3_mk_eq(C, A(0), A(1)); break; case E_ULT: r = Z3_mk_bvult(C, A(0), A(1)); break; case E_SLT: r = Z3_mk_bvslt(C, A(0), A(1)); break; case E_NOT: r = Z3_mk_not(C, A(0)); break;
  case E_FFZ: r = wPoly(e->poly)[0]; break;
  case E_FF: { const vector<Z3_ast> &x = wPoly(e->poly); u64 p = e->poly->p; r = Z3_mk_unsigned_int64(C, 0, bs); for (u64 k = 1; k < p; k++) { i64 b = k > p / 2 ? (i64) k - (i64) p : (i64) k; r = Z3_mk_ite(C, x[k], Z3_mk_unsigned_int64(C, (u64) b & maskw(w), bs), r); } break; }
  default: fprintf(stderr, "solver: unsupported term %s\n", showE(e).c_str()); exit(44);
  }
  return bvMemo[e->id] = r;
}
struct CacheE { SatRes r; vector<pair<int,i64>> m; };
static std::map<vector<u32>, CacheE> cache;
// a satisfying assignment is often found by trying a few assignments (each is checked by evaluation); only the solver can answer UNSAT
static u64 grng = 0x2545F4914F6CDD1Dull; static u64 grnd() { grng ^= grng << 13; grng ^= grng >> 7; grng ^= grng << 17; return grng; }
static bool guess(const vector<Expr*> &conj, const VarSet &vs, Model &out) {
  for (int v : vs) if (VARS[v].kind != 1) return false;
  Model m = out; int mx = vs.empty() ? -1 : *std::max_element(vs.begin(), vs.end()); while ((int) m.size() <= mx) m.push_back(VARS[m.size()].nz ? 1 : 0); if (vs.empty()) return false;
  for (int it = 0; it < 120; it++) {
    if (it % 8 == 0) { if (it) m = out; while ((int) m.size() <= mx) m.push_back(VARS[m.size()].nz ? 1 : 0); }
    int nch = it < 60 ? 1 : (int) vs.size(); for (int k = 0; k < nch; k++) { int v = nch == 1 ? vs[grnd() % vs.size()] : vs[k]; u64 p = VARS[v].p; m[v] = VARS[v].nz ? 1 + grnd() % (p - 1) : grnd() % p; }
    bool ok = true; for (auto q = conj.rbegin(); q != conj.rend(); ++q) if (!(evalE(*q, m) & 1)) { ok = false; break; }
    if (ok) { out = m; return true; }
  }
  return false;
}
SatRes solve(const vector<Expr*> &conj, Model &out) {
  vector<u32> key; for (auto e : conj) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key); if (it != cache.end()) { SST.cachehits++; if (it->second.r == SAT) for (auto &q : it->second.m) { if ((int) out.size() <= q.first) out.resize(q.first + 1); out[q.first] = q.second; } return it->second.r; }
  VarSet gv; for (auto e : conj) gv.insert(gv.end(), e->vs.begin(), e->vs.end()); std::sort(gv.begin(), gv.end()); gv.erase(std::unique(gv.begin(), gv.end()), gv.end());
  if (!lira_mode && guess(conj, gv, out)) { SST.guessed++; CacheE ce; ce.r = SAT; for (int v : gv) ce.m.push_back({v, out[v]}); cache[key] = ce; return SAT; }
  if (!C || ndefs > 3000) reset();
  double t0 = now(); SST.queries++;
  vector<Z3_ast> as; VarSet vs; CacheE ce;
  if (lira_mode) Z3_solver_push(C, S);
  for (auto e : conj) { Z3_ast a = T(e); if (lira_mode) add(a); else { // assumption literals must be (negated) atoms: name compound formulas
      bool atom = e->k == E_FFZ || (e->k == E_NOT && e->a[0]->k == E_FFZ); if (isT(a)) { } else if (atom && !isF(a)) as.push_back(a); else { auto f = names.find(e->id); Z3_ast n; if (f == names.end()) { n = freshB(); add(Or({Z3_mk_not(C, n), a})); names[e->id] = n; } else n = f->second; as.push_back(n); } }
    for (int v : e->vs) vs.push_back(v); }
  Z3_lbool r = lira_mode ? Z3_solver_check(C, S) : Z3_solver_check_assumptions(C, S, as.size(), as.data());
  ce.r = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (ce.r == SAT) { std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
    Z3_model M = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, M);
    for (int v : vs) { VarInfo &i = VARS[v]; i64 val = i.lo; Z3_ast o;
      if (i.kind == 1) { auto w = varWire.find(v); val = i.nz ? 1 : 0; if (w != varWire.end()) for (u64 k = 0; k < i.p; k++) { if (isF(w->second[k])) continue; if (Z3_model_eval(C, M, w->second[k], true, &o) && isT(o)) { val = k; break; } } }
      else if (i.kind == 0) { auto w = bvVar.find(v); if (w != bvVar.end() && Z3_model_eval(C, M, w->second, true, &o)) { const char *s = Z3_get_numeral_string(C, o); val = lira_mode ? (i64) strtoll(s, 0, 10) : sxt(strtoull(s, 0, 10), i.w); } }
      else continue;
      ce.m.push_back({v, val}); }
    Z3_model_dec_ref(C, M);
    for (auto &q : ce.m) { if ((int) out.size() <= q.first) out.resize(q.first + 1); out[q.first] = q.second; }
    if (!lira_mode) for (auto e : conj) if (!(evalE(e, out) & 1)) { fprintf(stderr, "ENGINE ERROR: z3 model does not satisfy %s\n", showE(e).c_str()); exit(45); } }
  if (lira_mode) { Z3_solver_pop(C, S, 1); bvMemo.clear(); bvVar.clear(); }
  static bool dump = getenv("SX_DUMP"); if (dump) { fprintf(stderr, "QUERY %s %.3f\n", ce.r == SAT ? "sat" : ce.r == UNSAT ? "unsat" : "unk", now() - t0); for (auto e : conj) fprintf(stderr, "     %s\n", showE(e).c_str()); }
  SST.time += now() - t0; (ce.r == SAT ? SST.sat : ce.r == UNSAT ? SST.unsat : SST.unknown)++;
  if (cache.size() > 400000) cache.clear();
  cache[key] = ce; return ce.r;
}
SatRes solveRange(const vector<Expr*> &pc, Expr *e, i128 mn, i128 mx) {
  if (!C || ndefs > 3000) reset();
  double t0 = now(); SST.queries++; Z3_solver_push(C, S); for (auto c : pc) add(T(c)); 
  Z3_ast x = e->k == E_EXTRACT ? Tl(e->a[0]) : Tl(e); add(bin(Z3_mk_or, Z3_mk_lt(C, x, num(mn)), Z3_mk_gt(C, x, num(mx))));
  Z3_lbool r = Z3_solver_check(C, S); Z3_solver_pop(C, S, 1); bvMemo.clear(); bvVar.clear(); SST.time += now() - t0;
  SatRes q = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN; (q == SAT ? SST.sat : q == UNSAT ? SST.unsat : SST.unknown)++; return q;
}

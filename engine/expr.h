// Expression layer: hash-consed terms over bit-vectors, polynomials over GF(p) and (abstract) doubles.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include <tuple>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint8_t u8; typedef uint16_t u16;
typedef __int128 i128; typedef unsigned __int128 u128;
using std::vector; using std::string; using std::pair;

typedef vector<int> VarSet;

struct Mono { u32 id; vector<pair<u32,u32>> f; VarSet vs; };
struct Poly { u32 id; u64 p; vector<pair<u32,u64>> t; VarSet vs; };   // t: (monomial id, coefficient != 0), sorted by monomial id

struct VarInfo { int kind; /*0 BV, 1 FF, 2 FF inverse, 3 nonzero alias of an FF variable*/ int w; i64 lo, hi; u64 p; bool nz; const Poly *g; string name; VarSet deps; };
extern vector<VarInfo> VARS;

enum EK : u8 { E_CONST, E_VAR, E_LIN, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_EQ, E_ULT, E_SLT, E_NOT, E_FF, E_FFZ, E_ITE,
  E_ITOF, E_UTOF, E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FNEG, E_FTOI, E_FLT, E_FLE, E_FEQ };

struct Expr { EK k; u8 w; u32 id; u64 c; const Poly *poly; vector<Expr*> a; vector<u64> co; VarSet vs; i64 lo, hi; };

struct Val { u64 c; Expr *e; };
extern Expr *const UNDEF;
static inline Val CV(u64 c) { return Val{c, nullptr}; }
static inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sxt(u64 v, int w) { if (w >= 64) return (i64) v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

int newVar(VarInfo v);
Expr *mkConst(u64 c, int w);
Expr *mkVarExpr(int v);
Expr *mkFF(const Poly *f, int w);
Val vAdd(Val a, Val b, int w); Val vSub(Val a, Val b, int w); Val vMul(Val a, Val b, int w);
Val vBin(EK k, Val a, Val b, int w);
Val vZext(Val a, int w, int w2); Val vSext(Val a, int w, int w2); Val vTrunc(Val a, int w, int w2);
Val vExtract(Val a, int w, int lo, int w2); Val vConcat(Val hi, int wh, Val lo, int wl);
Val vEq(Val a, Val b, int w); Val vUlt(Val a, Val b, int w); Val vSlt(Val a, Val b, int w); Val vNot(Val a);
Val vFp(EK k, Val a, Val b, int w); 

// polynomials
const Poly *pConst(u64 p, i64 c); const Poly *pVar(u64 p, int v);
const Poly *pAdd(const Poly *f, const Poly *g); const Poly *pMul(const Poly *f, const Poly *g);
const Poly *pScale(const Poly *f, u64 c);
bool pIsConst(const Poly *f, u64 *c);
const Poly *pFromVal(Val v, int w, u64 p);     // NULL if impossible
Val ffVal(const Poly *f, int w);               // balanced representative
Val ffZero(const Poly *f);                     // boolean f == 0
const Poly *pInvNZ(const Poly *f);             // inverse, knowing f != 0
u64 invmod(u64 a, u64 p);
const Poly *pSubst(const Poly *f, int x, const Poly *r); bool pSolveFor(const Poly *f, int *x, const Poly **r);
const Mono *monoOf(u32 id);

typedef vector<i64> Model;   // value of each variable (FF variables: 0..p-1)
u64 evalE(Expr *e, const Model &m);
u64 evalPoly(const Poly *f, const Model &m);
string showE(Expr *e);

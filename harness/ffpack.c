/* number formats and the wrappers around FFPACK (C11).  OP 0 rref, 1 LU, 2 choice of the format, 3 read / write */
#include "hx.h"
#ifndef NR
#define NR 2
#define NC 2
#endif
static int D[NR * NC + 1], R[NR * NC + 1];
#define LD (NC + PAD)
#ifndef PAD
#define PAD 0
#endif
void harness(void)
{
#if OP == 2
	/* every prime of the supported range, as an arbitrary odd number */
	i64 p = sx_i64(3, 4294967295LL, "p");
	sx_assume(p % 2 == 1);
	spasm_datatype dt = spasm_datatype_choose(p);
	i64 h = (p - 1) / 2;
	if (dt == SPASM_FLOAT) sx_assert(h <= 4095, "products of two elements plus one are below 2^24 in floats");
	else if (dt == SPASM_DOUBLE) sx_assert(h <= 94906265, "products of two elements plus one are below 2^53 in doubles");
	else sx_assert(dt == SPASM_I64, "one of the three formats");
	sx_assert(spasm_datatype_size(SPASM_FLOAT) == sizeof(float) && spasm_datatype_size(SPASM_DOUBLE) == sizeof(double) && spasm_datatype_size(SPASM_I64) == sizeof(i64), "sizes of the formats");
	sx_reach(dt == SPASM_FLOAT ? "float" : dt == SPASM_DOUBLE ? "double" : "i64");
#elif OP == 3
	int dt = sx_choose(3, "datatype"), k = sx_choose(3, "index");
	int hmax = dt == SPASM_FLOAT ? 4095 : dt == SPASM_DOUBLE ? 94906265 : 2147483647;
	int v = sx_int(-hmax, hmax, "v");
	char S[3 * 8];
	for (int i = 0; i < 24; i++) S[i] = 0x11;
	size_t sz = spasm_datatype_size(dt);
	for (int i = 0; i < 3; i++) spasm_datatype_write(S, i, dt, 7 + i);
	spasm_datatype_write(S, k, dt, v);
	for (int i = 0; i < 3; i++) sx_assert(spasm_datatype_read(S, i, dt) == (i == k ? v : 7 + i), "what is written is read back");
	for (int i = 3 * sz; i < 24; i++) sx_assert(S[i] == 0x11, "nothing else written");
	sx_reach("written");
#else
	int dt = sx_choose(3, "datatype");
	size_t sz = spasm_datatype_size(dt), q[NC + 1], p[NR + 1];
	char *S = spasm_malloc(((size_t) NR * LD + 1) * sz);
	for (int i = 0; i < NR; i++) for (int j = 0; j < LD; j++) {
		int v = j < NC ? sx_entry(P, "a") : 2;
		if (j < NC) D[i * NC + j] = v;
		spasm_datatype_write(S, (size_t) i * LD + j, dt, v);
	}
	for (int j = 0; j <= NC; j++) q[j] = 99;
	for (int i = 0; i <= NR; i++) p[i] = 99;
#if OP == 0
	int r = spasm_ffpack_rref(P, NR, NC, S, LD, dt, q);
#else
	int r = spasm_ffpack_LU(P, NR, NC, S, LD, dt, p, q);
#endif
	sx_assert(r == hx_rank(NR, NC, D), "rank");
	unsigned seen = 0;
	for (int j = 0; j < NC; j++) { sx_assert(q[j] < NC && !((seen >> q[j]) & 1), "the column map is a permutation"); seen |= 1u << q[j]; }
	sx_assert(q[NC] == 99 && p[NR] == 99, "nothing written past the end of the maps");
	for (int i = 0; i < NR; i++) for (int j = NC; j < LD; j++) sx_assert(spasm_datatype_read(S, (size_t) i * LD + j, dt) == 2, "the padding is not modified");
#if OP == 0
	for (int i = 0; i < r; i++) for (int k = 0; k < NC; k++) R[i * NC + q[k]] = k == i ? 1 : k < r ? 0 : spasm_datatype_read(S, (size_t) i * LD + k, dt);
	/* the rows of the input reduce to zero */
	for (int i = 0; i < NR; i++) {
		int row[NC + 1];
		for (int j = 0; j < NC; j++) row[j] = D[i * NC + j];
		for (int k = 0; k < r; k++) { int c = sx_ff_neg(P, row[q[k]]); for (int j = 0; j < NC; j++) row[j] = sx_ff_axpy(P, c, R[k * NC + j], row[j]); }
		for (int j = 0; j < NC; j++) sx_assert(row[j] == 0, "the reduced form spans the rows of the input");
	}
#else
	seen = 0;
	for (int i = 0; i < NR; i++) { sx_assert(p[i] < NR && !((seen >> p[i]) & 1), "the row map is a permutation"); seen |= 1u << p[i]; }
	for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) {
		int s = 0;
		for (int k = 0; k < r && k <= i && k <= j; k++) {
			int l = spasm_datatype_read(S, (size_t) i * LD + k, dt), u = k == j ? 1 : spasm_datatype_read(S, (size_t) k * LD + j, dt);
			s = sx_ff_axpy(P, l, u, s);
		}
		sx_assert(s == D[p[i] * NC + q[j]], "L.U = the permuted input");
	}
	for (int i = 0; i < r; i++) sx_assert(spasm_datatype_read(S, (size_t) i * LD + i, dt) != 0, "pivots");
#endif
	sx_out(r);
	sx_reach("echelonized");
	free(S);
	sx_assert(sx_heap_live() == 0, "everything allocated has been released");
#endif
}

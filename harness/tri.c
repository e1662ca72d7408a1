/* triangular solves and reachability (C08).  OP 0 dense back, 1 dense forward, 2 sparse */
#include "hx.h"
#ifndef NR
#define NR 2
#define NC 3
#endif
/* an NR x NC matrix whose row i has its pivot on column piv[i] (unit if unit) and, for i before k (in the order given by
   dir), row k has nothing on column piv[i] */
static struct spasm_csr *triangular(int *D, const int *piv, int dir, int ord)
{
	int nnz = 0;
	for (int i = 0; i < NR; i++)
		for (int j = 0; j < NC; j++) {
			int zero = 0;
			for (int k = 0; k < NR; k++)
				if (piv[k] == j && k != i && (dir ? k > i : k < i)) zero = 1;
			int v = zero ? 0 : piv[i] == j ? 1 : sx_entry(P, "u");
			D[i * NC + j] = v;
			nnz += v != 0;
		}
	struct spasm_csr *A = spasm_csr_alloc(NR, NC, nnz, P, true);
	int k = 0;
	for (int i = 0; i < NR; i++) {
		for (int t = 0; t < NC; t++) {
			int j = ord == 0 ? t : ord == 1 ? NC - 1 - t : (t + piv[i]) % NC;
			if (D[i * NC + j] != 0) { A->j[k] = j; A->x[k] = D[i * NC + j]; k++; }
		}
		A->p[i + 1] = k;
	}
	return hx_shift(A);
}
static void injective(int n, int m, int *f, const char *name)
{
	for (int i = 0; i < n; i++) {
		f[i] = sx_choose(m, name);
		for (int k = 0; k < i; k++) sx_assume(f[i] != f[k]);
	}
}
void harness(void)
{
	int D[NR * NC + 1];
#if OP == 0
	/* L is NR x NC, NC <= NR; column j has its diagonal on row p[j], row p[j] has nothing on columns > j */
	int p[NC + 1], b[NC + 1], b0[NC + 1], x[NR + 1];
	int useid = sx_choose(2, "identity");
	if (useid) for (int j = 0; j < NC; j++) p[j] = j; else injective(NC, NR, p, "p");
	int nnz = 0;
	for (int i = 0; i < NR; i++) {
		int jd = NC;
		for (int j = 0; j < NC; j++) if (p[j] == i) jd = j;
		for (int j = 0; j < NC; j++) { D[i * NC + j] = jd < NC && j > jd ? 0 : jd == j ? sx_ffnz(P, "d") : sx_entry(P, "l"); nnz += D[i * NC + j] != 0; }
	}
	struct spasm_csr *L = spasm_csr_alloc(NR, NC, nnz, P, true);
	int ord = sx_choose(2, "ord"), k = 0;
	for (int i = 0; i < NR; i++) {
		for (int t = 0; t < NC; t++) { int j = ord ? NC - 1 - t : t; if (D[i * NC + j] != 0) { L->j[k] = j; L->x[k] = D[i * NC + j]; k++; } }
		L->p[i + 1] = k;
	}
	hx_shift(L);
	for (int j = 0; j < NC; j++) b0[j] = b[j] = sx_ff(P, "b");
	x[NR] = b[NC] = 77;
	spasm_dense_back_solve(L, b, x, useid ? NULL : p);
	for (int j = 0; j < NC; j++) {
		int s = 0;
		for (int i = 0; i < NR; i++) s = sx_ff_axpy(P, x[i], D[i * NC + j], s);
		sx_assert(s == b0[j], "x.L = b");
	}
	for (int i = 0; i < NR; i++) {
		int piv = 0;
		for (int j = 0; j < NC; j++) if (p[j] == i) piv = 1;
		if (!piv) sx_assert(x[i] == 0, "rows without pivot do not contribute");
		sx_out(x[i]);
	}
	sx_assert(x[NR] == 77 && b[NC] == 77, "nothing written past the end");
	sx_reach("solved");
	spasm_csr_free(L);
#elif OP == 1
	int q[NR + 1], b[NC + 1], b0[NC + 1], x[NR + 1];
	int useid = sx_choose(2, "identity");
	if (useid) for (int i = 0; i < NR; i++) q[i] = i; else injective(NR, NC, q, "q");
	struct spasm_csr *U = triangular(D, q, 0, sx_choose(3, "ord"));
	for (int j = 0; j < NC; j++) b0[j] = b[j] = sx_ff(P, "b");
	x[NR] = b[NC] = 77;
	int ok = spasm_dense_forward_solve(U, b, x, useid ? NULL : q);
	int nz = 0;
	for (int j = 0; j < NC; j++) {
		int s = b[j], piv = 0;
		for (int i = 0; i < NR; i++) { s = sx_ff_axpy(P, x[i], D[i * NC + j], s); piv |= q[i] == j; }
		sx_assert(s == b0[j], "x.U + remainder = b");
		if (piv) sx_assert(b[j] == 0, "nothing left on a pivotal column");
		else if (b[j] != 0) nz = 1;
	}
	sx_assert(!!ok == !nz, "a solution is reported exactly when the remainder is zero");
	sx_assert(x[NR] == 77 && b[NC] == 77, "nothing written past the end");
	for (int i = 0; i < NR; i++) sx_out(x[i]);
	sx_reach(ok ? "solution" : "no solution");
	spasm_csr_free(U);
#else
	int piv[NR + 1], qinv[NC + 1], DB[2 * NC + 1];
	injective(NR, NC, piv, "piv");
	for (int j = 0; j < NC; j++) qinv[j] = -1;
	for (int i = 0; i < NR; i++) qinv[piv[i]] = i;
	int dir = sx_choose(2, "dir"), ord = sx_choose(2, "ord") ? 2 : 1;
	struct spasm_csr *U = triangular(D, piv, dir, ord);
	struct spasm_csr *B = hx_csr_ord(2, NC, DB, "b", 0);
	int xj[3 * NC + 1], x[NC + 1], pos[NC + 1];
	for (int i = 0; i < 3 * NC; i++) xj[i] = 0;
	for (int k = 0; k < 2; k++) {
		int top = spasm_sparse_triangular_solve(U, B, k, xj, x, qinv);
		sx_assert(top >= 0 && top <= NC, "top in range");
		for (int j = 0; j < NC; j++) pos[j] = -1;
		for (int px = top; px < NC; px++) {
			sx_assert(xj[px] >= 0 && xj[px] < NC, "pattern in range");
			sx_assert(pos[xj[px]] < 0, "each column appears once in the pattern");
			pos[xj[px]] = px;
		}
		for (int j = 0; j < NC; j++) if (DB[k * NC + j] != 0) sx_assert(pos[j] >= 0, "the entries of the right-hand side are in the pattern");
		for (int i = 0; i < NR; i++) if (pos[piv[i]] >= 0)
			for (int j = 0; j < NC; j++) if (D[i * NC + j] != 0) sx_assert(pos[j] >= pos[piv[i]], "the pattern is closed and topologically ordered");
		for (int j = 0; j < NC; j++) {
			int s = pos[j] >= 0 && qinv[j] < 0 ? x[j] : 0;
			for (int i = 0; i < NR; i++) if (pos[piv[i]] >= 0) s = sx_ff_axpy(P, x[piv[i]], D[i * NC + j], s);
			sx_assert(s == DB[k * NC + j], "x_pivotal.U + x_rest = b");
			if (pos[j] >= 0) sx_out(x[j]);
		}
		for (int j = 0; j < NC; j++) sx_assert(xj[2 * NC + j] == 0, "marks are clean after the solve");
		sx_reach(top == NC ? "empty pattern" : "solved");
	}
	spasm_csr_free(U); spasm_csr_free(B);
#endif
	sx_assert(sx_heap_live() == 0, "no allocation left");
}

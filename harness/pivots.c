/* structural pivots (C09): first call on a symbolic matrix, or later call below R0 existing rows of U.
   NR x NC matrix, R0 earlier pivots, LT: record L */
#include "hx.h"
#ifndef R0
#define R0 0
#endif
#ifndef GREEDY
#define GREEDY 1
#endif
#ifndef ORDS
#define ORDS 2
#endif
#ifndef LT
#define LT 1
#endif
static int D[NR * NC + 1], U0[R0 * NC + 1], U1[(R0 + NR) * NC + 1];
void harness(void)
{
	int piv[R0 + 1], p[NR + 1], pin[NR + 1];
	struct spasm_lu *F = hx_fact(R0, NC, U0, piv, 0);
	/* the matrix has no entry on an existing pivot column */
	int nnz = 0, ord = sx_choose(ORDS, "ord");
	for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) {
#ifdef SHAPE    /* 0: zero, 1: nonzero, ?: anything */
		const char *sh = SHAPE;
		D[i * NC + j] = sh[i * NC + j] == '0' ? 0 : sh[i * NC + j] == '1' ? sx_ffnz(P, "a") : sx_entry(P, "a");
#else
		D[i * NC + j] = F->qinv[j] >= 0 ? 0 : sx_entry(P, "a");
#endif
		nnz += D[i * NC + j] != 0;
	}
	struct spasm_csr *A = spasm_csr_alloc(NR, NC, nnz, P, true);
	int k = 0;
	A->p[0] = 0;
	for (int i = 0; i < NR; i++) {
		for (int t = 0; t < NC; t++) { int j = ord ? (t + NC - 1 - i % 2) % NC : t; if (D[i * NC + j] != 0) { A->j[k] = j; A->x[k] = D[i * NC + j]; k++; } }
		A->p[i + 1] = k;
	}
	hx_shift(A);
	/* U has room for the rows (as in the caller); its entries may have to grow */
	int r0 = F->U->n;
	F->U->p = spasm_realloc(F->U->p, (R0 + NR + 1) * sizeof(i64));
	int lt = LT, useid = ORDS == 1 ? 0 : sx_choose(2, "p_in");
	const int *p_in = useid ? pin : NULL;
	for (int i = 0; i < NR; i++) pin[i] = 2 * i + 1;         /* original row numbers: any injective map */
	int lcap = ORDS == 1 ? 1 : sx_choose(2, "lcap");
	if (lt) {
		F->Ltmp = spasm_triplet_alloc(2 * NR + 2, R0 + NR, hx_off + (lcap ? 1 : R0 + NR), P, true);
		F->Ltmp->nz = hx_off;
		F->p = spasm_malloc((R0 + NR + 1) * sizeof(int));
		for (int i = 0; i < R0 + NR + 1; i++) F->p[i] = -7;
	}
	p[NR] = 99;
	struct echelonize_opts o;
	spasm_echelonize_init_opts(&o);
	o.enable_greedy_pivot_search = GREEDY;
	int npiv = spasm_pivots_extract_structural(A, p_in, F, p, &o);

	sx_assert(npiv >= 0 && npiv <= NR && npiv <= NC - R0, "at most one pivot per row and per column");
	sx_assert((npiv == 0) == (nnz == 0), "a pivot is found unless the matrix is zero");
	sx_assert(p[NR] == 99, "nothing written past the end of p");
	unsigned seen = 0;
	for (int i = 0; i < NR; i++) {
		sx_assert(p[i] >= 0 && p[i] < NR && !((seen >> p[i]) & 1), "p is a permutation of the rows");
		seen |= 1u << p[i];
	}
	sx_assert(F->U->n == r0 + npiv, "one row of U per pivot");
	hx_check_echelon(F->U, F->qinv, R0 + npiv, NC, U1);
	for (int i = 0; i < R0 * NC; i++) sx_assert(U1[i] == U0[i], "the earlier rows of U are not modified");
	for (int i = 0; i < R0; i++) sx_assert(F->qinv[piv[i]] == i, "the earlier pivots stay registered");
	for (int k = 0; k < npiv; k++) {
		int i = p[k], u = R0 + k, j = F->U->j[F->U->p[u]];
		sx_assert(D[i * NC + j] != 0, "pivots are nonzero entries");
		for (int c = 0; c < NC; c++) sx_assert(sx_ff_mul(P, D[i * NC + j], U1[u * NC + c]) == D[i * NC + c], "the row of U is the pivotal row, scaled");
		for (i64 px = F->U->p[u]; px < F->U->p[u + 1]; px++) sx_assert(F->U->x[px] != 0, "no stored zero");
		int io = p_in ? pin[i] : i;
		if (lt) {
			sx_assert(F->p[u] == io, "the pivot map names the original row");
			int found = 0;
			for (i64 t = hx_off; t < F->Ltmp->nz; t++)
				if (F->Ltmp->j[t] == u) { found++; sx_assert(F->Ltmp->i[t] == io && F->Ltmp->x[t] == D[i * NC + j], "the coefficient of L is the pivot"); }
			sx_assert(found == 1, "one coefficient of L per pivotal row");
		}
		sx_out(i); sx_out(j);
	}
	if (lt) sx_assert(F->Ltmp->nz == hx_off + npiv, "nothing else is added to L");
	for (int i = npiv; lt && i < NR + 1; i++) sx_assert(F->p[R0 + i] == -7, "the pivot map is not written further");
	/* the remaining rows: no pivot can be added on an entry whose row and column... (not claimed: maximality) */
	int D2[NR * NC + 1];
	hx_dense(A, NR, NC, D2);
	for (int i = 0; i < NR * NC; i++) sx_assert(D[i] == D2[i], "the matrix is not modified");
	sx_reach(npiv == 0 ? "no pivot" : npiv < NR ? "some rows left" : "all rows pivotal");
	spasm_csr_free(A);
	if (lt) spasm_triplet_free(F->Ltmp);
	F->Ltmp = NULL;
	spasm_lu_free(F);
	sx_assert(sx_heap_live() == 0, "everything allocated has been released");
}

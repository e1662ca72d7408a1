/* spasm_echelonize on every NR x NC matrix over GF(P): U is echelonized, spans the row space of A, rank is exact */
#include "hx.h"
#ifndef NR
#define NR 3
#define NC 3
#endif
void harness(void)
{
	int D[NR * NC], DU[NR * NC];
	struct spasm_csr *A = hx_csr(NR, NC, D, "a");
	struct echelonize_opts o;
	spasm_echelonize_init_opts(&o);
#ifdef OPTS
	OPTS
#endif
#ifdef NOOPTS
	struct spasm_lu *F = spasm_echelonize(A, NULL);
#else
	struct spasm_lu *F = spasm_echelonize(A, &o);
#endif
	int r = F->U->n;
	sx_assert(F->r == r, "reported rank = number of rows of U");
	sx_assert(r >= 0 && r <= NR && r <= NC, "rank <= min(n, m)");
	hx_check_echelon(F->U, F->qinv, r, NC, DU);
	for (int i = 0; i < NR; i++) {
		int row[NC];
		for (int j = 0; j < NC; j++) row[j] = D[i * NC + j];
		hx_reduce(row, DU, F->U, r, NC);
		for (int j = 0; j < NC; j++) sx_assert(row[j] == 0, "row of A belongs to the row space of U");
	}
	sx_assert(hx_rank(NR, NC, D) == r, "rank(U) = rank(A)");
	/* the input is not modified */
	int D2[NR * NC];
	hx_dense(A, NR, NC, D2);
	for (int i = 0; i < NR * NC; i++) sx_assert(D[i] == D2[i], "the input matrix keeps its entries");
	sx_reach(r == (NR < NC ? NR : NC) ? "full rank" : r == 0 ? "zero matrix" : "rank deficient");
	sx_out(r);
	spasm_csr_free(A);
	spasm_lu_free(F);
}

/* Schur complements.  OP 0 spasm_schur (C10), 1 spasm_schur_dense (C11), 2 spasm_schur_dense_randomized (C11), 3 density estimate
   A is NR x NC, U has R0 rows; a selection of SEL rows (-1: any) */
#include "hx.h"
#ifndef R0
#define R0 1
#endif
#ifndef DT
#define DT -1
#endif
#ifndef UORD
#define UORD 0
#endif
#define SM (NC - R0)
static int D[NR * NC + 1], U0[R0 * NC + 1], Sd[(NR + R0 + 1) * NC + 1];
/* row of the Schur complement, and the coefficients on the rows of U: a - sum lam_k U_k */
static void eliminate(const int *a, int *row, int *lam, const int *piv)
{
	for (int j = 0; j < NC; j++) row[j] = a[j];
	for (int k = 0; k < R0; k++) {
		lam[k] = row[piv[k]];
		int c = sx_ff_neg(P, lam[k]);
		for (int j = 0; j < NC; j++) row[j] = sx_ff_axpy(P, c, U0[k * NC + j], row[j]);
	}
}
static void check_L(const struct spasm_triplet *L, i64 l0, int io, const int *lam)
{
	int got[R0 + 1], cnt[R0 + 1];
	for (int k = 0; k < R0; k++) got[k] = cnt[k] = 0;
	for (i64 t = l0; t < L->nz; t++)
		if (L->i[t] == io) {
			sx_assert(L->j[t] >= 0 && L->j[t] < R0, "column of L in range");
			cnt[L->j[t]]++;
			got[L->j[t]] = L->x[t];
			sx_assert(L->x[t] != 0, "no stored zero in L");
		}
	for (int k = 0; k < R0; k++) { sx_assert(cnt[k] <= 1, "one coefficient per position of L"); sx_assert(got[k] == lam[k], "the elimination coefficients reproduce the row"); }
}
void harness(void)
{
	int piv[R0 + 1], p[NR + 1], pin[NR + 1], pout[NR + 2], lam[R0 + 1], row[NC + 1];
	struct spasm_lu *F = hx_fact(R0, NC, U0, piv, OP == 2 ? 0 : UORD);
	/* storage order, row maps, L and density estimate / number format vary together */
#ifndef MODES
#define MODES 8
#endif
	int mode = sx_choose(MODES, "mode");
	struct spasm_csr *A = hx_csr_ord(NR, NC, D, "a", mode & 1);
#ifdef USHAPE    /* larger matrices: a fixed selection */
	int n = NR - 1;
	for (int i = 0; i < n; i++) p[i] = (i * (NR % 3 ? 3 : 5) + mode) % NR;
#else
	int n = sx_choose(NR + (OP != 2), "n") + (OP == 2);
	hx_injective(n, NR, p, "p");
#endif
	int usein = (0xA6 >> mode) & 1;
	for (int i = 0; i < NR; i++) pin[i] = 3 * (NR - 1 - i) + 1;
	for (int i = 0; i <= NR + 1; i++) pout[i] = -5;
	struct spasm_triplet *L = NULL;
	i64 l0 = 0;
#if OP <= 1
	const int lms[8] = {1, 0, 2, 1, 1, 2, 0, 1};
	int lm = lms[mode];
	if (lm) {
		l0 = hx_off + 1;
		L = spasm_triplet_alloc(3 * NR + 1, R0, hx_off + (lm == 1 ? 1 : NR * R0 + 4), P, true);
		L->i[l0 - 1] = 3 * NR; L->j[l0 - 1] = 0; L->x[l0 - 1] = 1; L->nz = l0;        /* coefficient left by an earlier stage */
	}
#endif
#if OP == 0
	int useout = mode != 3 && mode != 6, dens = (mode >> 1) & 3;
	double dd[4] = {0.0, 0.03125, 0.5, 1.0};
	struct spasm_csr *S = spasm_schur(A, p, n, F, dd[dens], L, usein ? pin : NULL, useout ? pout : NULL);
	hx_dense(S, n, NC, Sd);
	sx_assert(S->nzmax == S->p[n] || S->nzmax >= S->p[n], "room");
	sx_assert(spasm_get_prime(S) == P, "modulus");
	for (int s = 0; s < n; s++) {
		int inew = -1;
		if (useout) {
			for (int i = 0; i < n; i++) if (pout[s] == (usein ? pin[p[i]] : p[i])) inew = p[i];
			sx_assert(inew >= 0, "each row of S names a selected row");
			for (int t = 0; t < s; t++) sx_assert(pout[t] != pout[s], "each selected row appears once");
		} else if (sx_threads() == 1) inew = p[s];
		for (i64 px = S->p[s]; px < S->p[s + 1]; px++) {
			sx_assert(S->x[px] != 0, "no stored zero");
			sx_assert(F->qinv[S->j[px]] < 0, "no entry on a pivotal column");
			sx_out(S->x[px]);
		}
		if (inew < 0) continue;
		eliminate(D + inew * NC, row, lam, piv);
		for (int j = 0; j < NC; j++) sx_assert(Sd[s * NC + j] == row[j], "row of S = row of A minus the combination of rows of U that clears the pivotal columns");
		if (L) check_L(L, l0, usein ? pin[inew] : inew, lam);
	}
	sx_assert(pout[n] == -5, "nothing written past the end of p_out");
	if (L) {
		sx_assert(L->i[l0 - 1] == 3 * NR && L->j[l0 - 1] == 0 && L->x[l0 - 1] == 1, "earlier coefficients of L are kept");
		for (i64 t = l0; t < L->nz; t++) { int ok = 0; for (int i = 0; i < n; i++) if (L->i[t] == (usein ? pin[p[i]] : p[i])) ok = 1; sx_assert(ok, "L only receives selected rows"); }
		sx_reach(L->nz > l0 ? "L filled" : "L untouched");
	}
	sx_reach(S->p[n] > (i64) (dd[dens] * n * NC) ? "storage had to grow" : "enough room");
	spasm_csr_free(S);
#elif OP == 1
	int q[SM + 2];
	q[SM] = -9;
	F->Ltmp = L;
	spasm_datatype dt = DT >= 0 ? DT : mode % 3;
	size_t sz = spasm_datatype_size(dt);
	char *S = spasm_malloc((n * SM + 1) * sz);
	for (size_t i = 0; i < (n * SM + 1) * sz; i++) S[i] = 0x55;
	spasm_schur_dense(A, p, n, usein ? pin : NULL, F, S, dt, q, pout);
	for (size_t i = n * SM * sz; i < (n * SM + 1) * sz; i++) sx_assert(S[i] == 0x55, "nothing written past the end of the block");
	sx_assert(q[SM] == -9, "nothing written past the end of q");
	for (int k = 0; k < SM; k++) { sx_assert(q[k] >= 0 && q[k] < NC && F->qinv[q[k]] < 0, "q lists non-pivotal columns"); for (int l = 0; l < k; l++) sx_assert(q[l] != q[k], "q lists each column once"); }
	for (int s = 0; s < n; s++) {
		int io = usein ? pin[p[s]] : p[s];
		sx_assert(pout[s] == io, "p_out names the original rows");
		eliminate(D + p[s] * NC, row, lam, piv);
		for (int k = 0; k < SM; k++) { int v = spasm_datatype_read(S, (size_t) s * SM + k, dt); sx_assert(v == row[q[k]], "the block holds the eliminated rows"); sx_out(v); }
		if (L) check_L(L, l0, io, lam);
	}
	sx_assert(pout[n] == -5, "nothing written past the end of p_out");
	if (L) {
		sx_assert(L->i[l0 - 1] == 3 * NR && L->j[l0 - 1] == 0 && L->x[l0 - 1] == 1, "earlier coefficients of L are kept");
		sx_assert(L->nz <= L->nzmax, "L has room");
		int tot = 0;
		for (i64 t = l0; t < L->nz; t++) for (int s = 0; s < n; s++) if (L->i[t] == (usein ? pin[p[s]] : p[s])) tot++;
		sx_assert(tot == L->nz - l0, "L only receives selected rows");
	}
	sx_reach("block");
	free(S);
	F->Ltmp = NULL;
#elif OP == 2
#ifndef NN_
#define NN_ 2
#endif
	int q[SM + 2], N = mode == 7 ? 1 : mode == 3 ? 0 : NN_, w = mode / 3;
	q[SM] = -9;
	spasm_datatype dt = DT >= 0 ? DT : mode % 3;
	size_t sz = spasm_datatype_size(dt);
	char *S = spasm_malloc((N * SM + 1) * sz);
	for (size_t i = 0; i < (N * SM + 1) * sz; i++) S[i] = 0x55;
	spasm_schur_dense_randomized(A, p, n, F->U, F->qinv, S, dt, q, N, w);
	for (size_t i = N * SM * sz; i < (N * SM + 1) * sz; i++) sx_assert(S[i] == 0x55, "nothing written past the end of the block");
	sx_assert(q[SM] == -9, "nothing written past the end of q");
	for (int k = 0; k < SM; k++) { sx_assert(q[k] >= 0 && q[k] < NC && F->qinv[q[k]] < 0, "q lists non-pivotal columns"); for (int l = 0; l < k; l++) sx_assert(q[l] != q[k], "q lists each column once"); }
	/* the rows of the exact Schur complement */
	int E[NR * NC + 1];
	for (int i = 0; i < n; i++) eliminate(D + p[i] * NC, E + i * NC, lam, piv);
	for (int s = 0; s < N; s++) {
		int acc[NC + 1];
		for (int j = 0; j < NC; j++) acc[j] = 0;
		if (w <= 0) {
			/* the specified coefficients: PRNG seeded with (prime, row number, 0) */
			spasm_prng_ctx ctx;
			spasm_prng_seed_simple(P, s, 0, &ctx);
			for (int i = 0; i < n; i++) { int c = spasm_prng_ZZp(&ctx); for (int j = 0; j < NC; j++) acc[j] = sx_ff_axpy(P, c, E[i * NC + j], acc[j]); }
			for (int k = 0; k < SM; k++) sx_assert(spasm_datatype_read(S, (size_t) s * SM + k, dt) == acc[q[k]], "combination of all rows with the specified coefficients");
		} else {
			/* some w rows, the first with coefficient 1: w <= 2, look for the rows used */
			spasm_prng_ctx ctx;
			spasm_prng_seed_simple(P, s, 0, &ctx);
			int c = spasm_prng_ZZp(&ctx), hit = 0;
			for (int i = 0; i < n; i++) for (int i2 = 0; i2 < (w == 2 ? n : 1); i2++) {
				int same = 1;
				for (int k = 0; k < SM; k++) {
					int v = E[i * NC + q[k]];
					if (w == 2) v = sx_ff_axpy(P, c, E[i2 * NC + q[k]], v);
					same = same && spasm_datatype_read(S, (size_t) s * SM + k, dt) == v;
					if (!same) break;
				}
				if (same) hit = 1;
				if (hit) break;
			}
			sx_assert(hit, "combination of w selected rows, the first with coefficient 1");
		}
		for (int k = 0; k < SM; k++) sx_out(spasm_datatype_read(S, (size_t) s * SM + k, dt));
	}
	sx_reach(w <= 0 ? "all rows" : "w rows");
	free(S);
#elif OP == 3
	/* the density estimate: an average over the sampled rows */
	double e = spasm_schur_estimate_density(A, p, n, F->U, F->qinv, 3);
	int lo = NC, hi = 0;
	for (int i = 0; i < n; i++) {
		int wt = 0;
		eliminate(D + p[i] * NC, row, lam, piv);
		for (int j = 0; j < NC; j++) if (row[j] != 0) wt++;
		if (wt < lo) lo = wt;
		if (wt > hi) hi = wt;
	}
	if (n == 0 || SM == 0) sx_assert(e == 0, "no entry: density 0");
	else sx_assert(e * SM > lo - 0.001 && e * SM < hi + 0.001, "the estimate lies between the extreme densities of the rows");
	struct spasm_csr *S = spasm_schur(A, p, n, F, -1, NULL, NULL, pout);
	hx_dense(S, n, NC, Sd);
	for (int s = 0; s < n; s++) {
		int inew = -1;
		for (int i = 0; i < n; i++) if (pout[s] == p[i]) inew = p[i];
		sx_assert(inew >= 0, "each row of S names a selected row");
		eliminate(D + inew * NC, row, lam, piv);
		for (int j = 0; j < NC; j++) sx_assert(Sd[s * NC + j] == row[j], "row of S = row of A minus the combination of rows of U that clears the pivotal columns");
	}
	spasm_csr_free(S);
	sx_reach("estimated");
#endif
	hx_dense(A, NR, NC, Sd);
	for (int i = 0; i < NR * NC; i++) sx_assert(D[i] == Sd[i], "the matrix is not modified");
	hx_dense(F->U, R0, NC, Sd);
	for (int i = 0; i < R0 * NC; i++) sx_assert(U0[i] == Sd[i], "U is not modified");
	spasm_csr_free(A);
	if (L) spasm_triplet_free(L);
	spasm_lu_free(F);
	sx_assert(sx_heap_live() == 0, "everything allocated has been released");
}

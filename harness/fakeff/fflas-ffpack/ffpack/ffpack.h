/* engine-side contract of the three FFPACK routines that spasm calls (assumed, see DESIGN.md): exact Gaussian
   elimination over GF(p) with FFPACK's packed output format. */
#pragma once
#include <stddef.h>
#include "../fflas/fflas.h"
extern "C" { int sx_ff_add(long p, int a, int b); int sx_ff_mul(long p, int a, int b); int sx_ff_neg(long p, int a); int sx_ff_inv(long p, int a); int sx_ff_axpy(long p, int a, int x, int y); void sx_assert(int c, const char *m); }
namespace FFPACK {
template<typename T> int get_(const T *A, size_t i) { return (int) A[i]; }
/* LAPACK-style transpositions -> permutation */
static inline void LAPACKPerm2MathPerm(size_t *M, const size_t *L, size_t n) { for (size_t i = 0; i < n; i++) M[i] = i; for (size_t i = 0; i < n; i++) if (L[i] != i) { size_t t = M[i]; M[i] = M[L[i]]; M[L[i]] = t; } }
template<typename F, typename T> size_t pReducedRowEchelonForm(const F &GFp, size_t n, size_t m, T *A, size_t ld, size_t *P, size_t *Q)
{
	sx_assert(ld >= m || n == 0, "leading dimension passed to FFPACK is at least the number of columns");
	long p = GFp.p; size_t r = 0;
	for (size_t i = 0; i < n; i++) P[i] = i;
	for (size_t j = 0; j < m; j++) Q[j] = j;
	size_t *piv = (size_t *) ff_malloc((m + 1) * sizeof(size_t));
	int *D = (int *) ff_malloc((n * m + 1) * sizeof(int));
	for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) D[i * m + j] = (int) A[i * ld + j];
	for (size_t j = 0; j < m && r < n; j++) {
		size_t i = r;
		while (i < n && D[i * m + j] == 0) i++;
		if (i == n) continue;
		if (i != r) for (size_t k = 0; k < m; k++) { int t = D[i * m + k]; D[i * m + k] = D[r * m + k]; D[r * m + k] = t; }
		int inv = sx_ff_inv(p, D[r * m + j]);
		for (size_t k = 0; k < m; k++) D[r * m + k] = sx_ff_mul(p, inv, D[r * m + k]);
		for (size_t i2 = 0; i2 < n; i2++) if (i2 != r) { int c = sx_ff_neg(p, D[i2 * m + j]); for (size_t k = j; k < m; k++) D[i2 * m + k] = sx_ff_axpy(p, c, D[r * m + k], D[i2 * m + k]); }
		piv[r++] = j;
	}
	/* the pivot columns move to the front by transpositions; the identity block is implicit */
	size_t *col = (size_t *) ff_malloc((m + 1) * sizeof(size_t));
	for (size_t j = 0; j < m; j++) col[j] = j;
	for (size_t k = 0; k < r; k++) { size_t q = k; while (col[q] != piv[k]) q++; Q[k] = q; size_t t = col[k]; col[k] = col[q]; col[q] = t; }
	for (size_t i = 0; i < n; i++) for (size_t k = 0; k < m; k++) A[i * ld + k] = (i < r && k >= r) ? D[i * m + col[k]] : (i < r && k == i ? 1 : 0);
	free(col); free(D); free(piv);
	return r;
}
/* A = P.L.U.Q with U (diag = unit) or L (diag = non unit) having an implicit unit diagonal */
template<typename F, typename T> size_t pPLUQ(const F &GFp, FFLAS::FFLAS_DIAG diag, size_t n, size_t m, T *A, size_t ld, size_t *P, size_t *Q)
{
	sx_assert(ld >= m || n == 0, "leading dimension passed to FFPACK is at least the number of columns");
	long p = GFp.p; size_t r = 0;
	for (size_t i = 0; i < n; i++) P[i] = i;
	for (size_t j = 0; j < m; j++) Q[j] = j;
	while (r < n && r < m) {
		size_t pi = n, pj = m;
		for (size_t i = r; i < n && pi == n; i++) for (size_t j = r; j < m; j++) if ((int) A[i * ld + j] != 0) { pi = i; pj = j; break; }
		if (pi == n) break;
		P[r] = pi; Q[r] = pj;
		if (pi != r) for (size_t k = 0; k < m; k++) { T t = A[pi * ld + k]; A[pi * ld + k] = A[r * ld + k]; A[r * ld + k] = t; }
		if (pj != r) for (size_t k = 0; k < n; k++) { T t = A[k * ld + pj]; A[k * ld + pj] = A[k * ld + r]; A[k * ld + r] = t; }
		int inv = sx_ff_inv(p, (int) A[r * ld + r]);
		if (diag == FFLAS::FflasUnit) for (size_t k = r + 1; k < m; k++) A[r * ld + k] = sx_ff_mul(p, inv, (int) A[r * ld + k]);
		else for (size_t i = r + 1; i < n; i++) A[i * ld + r] = sx_ff_mul(p, inv, (int) A[i * ld + r]);
		for (size_t i = r + 1; i < n; i++) { int c = sx_ff_neg(p, (int) A[i * ld + r]); for (size_t k = r + 1; k < m; k++) A[i * ld + k] = sx_ff_axpy(p, c, (int) A[r * ld + k], (int) A[i * ld + k]); }
		r++;
	}
	return r;
}
}

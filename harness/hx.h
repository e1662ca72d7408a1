/* Helpers shared by the harnesses: symbolic sparse matrices, reference linear algebra over GF(p). */
#ifndef HX_H
#define HX_H
#include "sx.h"
#ifdef PP
#define P ((i64) PP)
#endif
#ifndef P
#define P ((i64) 5)
#endif
#define HXM 32
/* a symbolic n x m matrix with exactly the allocated space it needs; D (row major, n*m) receives the dense copy.
   ord: 0 = columns ascending, 1 = descending, 2 = rotated by one (entries of a row need not be sorted) */
static struct spasm_csr *hx_from_dense(int n, int m, const int *D, int ord)
{
	int nnz = 0;
	for (int i = 0; i < n * m; i++) if (D[i] != 0) nnz++;
	struct spasm_csr *A = spasm_csr_alloc(n, m, nnz, P, true);
	int k = 0;
	A->p[0] = 0;
	for (int i = 0; i < n; i++) {
		for (int t = 0; t < m; t++) {
			int j = ord == 0 ? t : ord == 1 ? m - 1 - t : (t + 1) % m;
			if (D[i * m + j] != 0) {
				A->j[k] = j;
				A->x[k] = D[i * m + j];
				k++;
			}
		}
		A->p[i + 1] = k;
	}
	return hx_shift(A);
}
static struct spasm_csr *hx_csr_ord(int n, int m, int *D, const char *name, int ord)
{
	for (int i = 0; i < n; i++)
		for (int j = 0; j < m; j++) {
#ifdef HSHAPE   /* 0: zero, u: one, 1: nonzero, ?: anything */
			char sh = name[0] == 'a' ? HSHAPE[i * m + j] : '?';
			int v = sh == '0' ? 0 : sh == 'u' ? 1 : sh == '1' ? sx_ffnz(P, name) : sx_entry(P, name);
#else
			int v = sx_entry(P, name);
#endif
			D[i * m + j] = v;
		}
	return hx_from_dense(n, m, D, ord);
}
static struct spasm_csr *hx_csr(int n, int m, int *D, const char *name) { return hx_csr_ord(n, m, D, name, 0); }
/* a symbolic sparsity pattern (no values) */
static struct spasm_csr *hx_pattern(int n, int m, int *D, const char *name)
{
	int nnz = 0;
	for (int i = 0; i < n; i++)
		for (int j = 0; j < m; j++) { D[i * m + j] = sx_choose(2, name); nnz += D[i * m + j]; }
	struct spasm_csr *A = spasm_csr_alloc(n, m, nnz, -1, false);
	int k = 0;
	A->p[0] = 0;
	for (int i = 0; i < n; i++) {
		for (int j = 0; j < m; j++) if (D[i * m + j]) A->j[k++] = j;
		A->p[i + 1] = k;
	}
	return hx_shift(A);
}
/* expand a CSR matrix, checking that it is well formed */
static void hx_dense(const struct spasm_csr *A, int n, int m, int *D)
{
	sx_assert(A->n == n && A->m == m, "result has the expected dimensions");
	for (int i = 0; i < n * m; i++) D[i] = 0;
	sx_assert(A->p[0] == 0 || (hx_off && A->p[0] == hx_off), "row pointers start at 0");
	for (int i = 0; i < n; i++) {
		char seen[HXM];
		for (int j = 0; j < m; j++) seen[j] = 0;
		sx_assert(A->p[i] <= A->p[i + 1], "row pointers are non-decreasing");
		for (i64 k = A->p[i]; k < A->p[i + 1]; k++) {
			int j = A->j[k];
			sx_assert(j >= 0 && j < m, "column index in range");
			sx_assert(!seen[j], "no duplicate entry in a row");
			seen[j] = 1;
			D[i * m + j] = A->x ? A->x[k] : 1;
		}
	}
	sx_assert(A->p[n] <= A->nzmax, "nnz <= nzmax");
}
static int hx_balanced(int v) { return v >= P / 2 - P + 1 && v <= P / 2; }
/* reference rank, by Gaussian elimination on a copy */
static int hx_rank(int n, int m, const int *D)
{
	int W[HXM * HXM], r = 0;
	for (int i = 0; i < n * m; i++) W[i] = D[i];
	for (int j = 0; j < m && r < n; j++) {
		int i = r;
		while (i < n && W[i * m + j] == 0) i++;
		if (i == n) continue;
		for (int k = 0; k < m; k++) { int t = W[i * m + k]; W[i * m + k] = W[r * m + k]; W[r * m + k] = t; }
		int inv = sx_ff_inv(P, W[r * m + j]);
		for (int i2 = r + 1; i2 < n; i2++) {
			int c = sx_ff_neg(P, sx_ff_mul(P, inv, W[i2 * m + j]));
			for (int k = j; k < m; k++) W[i2 * m + k] = sx_ff_axpy(P, c, W[r * m + k], W[i2 * m + k]);
		}
		r++;
	}
	return r;
}
/* U (r x m) in echelon form up to permutations: unit pivots at the head of each row, located by qinv, and no row has
   an entry on the pivot of an earlier row.  D receives the dense copy. */
static void hx_check_echelon(const struct spasm_csr *U, const int *qinv, int r, int m, int *D)
{
	hx_dense(U, r, m, D);
	int piv[HXM], npiv = 0;
	for (int i = 0; i < r; i++) {
		sx_assert(U->p[i] < U->p[i + 1], "row of U is not empty");
		int j = U->j[U->p[i]];
		piv[i] = j;
		sx_assert(U->x[U->p[i]] == 1, "pivot is first on its row and equal to 1");
		sx_assert(qinv[j] == i, "qinv locates the pivot of each row");
	}
	for (int j = 0; j < m; j++) {
		sx_assert(qinv[j] >= -1 && qinv[j] < r, "qinv in range");
		if (qinv[j] >= 0) npiv++;
	}
	sx_assert(npiv == r, "qinv registers exactly one column per row");
	for (int i = 0; i < r; i++)
		for (int k = 0; k < i; k++)
			sx_assert(D[i * m + piv[k]] == 0, "no entry under the pivot of an earlier row");
}
/* subtract multiples of the rows of an echelonized U; afterwards row is zero iff it belongs to the row space of U */
static void hx_reduce(int *row, const int *U, const struct spasm_csr *Uc, int r, int m)
{
	for (int i = 0; i < r; i++) {
		int c = sx_ff_neg(P, row[Uc->j[Uc->p[i]]]);
		for (int k = 0; k < m; k++) row[k] = sx_ff_axpy(P, c, U[i * m + k], row[k]);
	}
}
/* an r x m matrix with a unit pivot on column piv[i] of row i, echelonized up to permutations: row k has no entry on the
   pivot of row i for i before k (dir = 0) or after k (dir = 1).  ord: 0 pivot first then ascending, 1 ascending, 2 descending */
static struct spasm_csr *hx_triangular(int r, int m, int *D, const int *piv, int dir, int ord, const char *name)
{
	int nnz = 0;
	for (int i = 0; i < r; i++)
		for (int j = 0; j < m; j++) {
			int zero = 0;
			for (int k = 0; k < r; k++)
				if (piv[k] == j && k != i && (dir ? k > i : k < i)) zero = 1;
			int v = zero ? 0 : piv[i] == j ? 1 : sx_entry(P, name);
			D[i * m + j] = v;
			nnz += v != 0;
		}
	struct spasm_csr *A = spasm_csr_alloc(r, m, nnz, P, true);
	int k = 0;
	for (int i = 0; i < r; i++) {
		if (ord == 0) { A->j[k] = piv[i]; A->x[k] = 1; k++; }
		for (int t = 0; t < m; t++) {
			int j = ord == 2 ? m - 1 - t : t;
			if (ord == 0 && j == piv[i]) continue;
			if (D[i * m + j] != 0) { A->j[k] = j; A->x[k] = D[i * m + j]; k++; }
		}
		A->p[i + 1] = k;
	}
	return hx_shift(A);
}
/* f : {0..n-1} -> {0..m-1} injective */
static void hx_injective(int n, int m, int *f, const char *name)
{
	for (int i = 0; i < n; i++) {
		f[i] = sx_choose(m, name);
		for (int k = 0; k < i; k++) sx_assume(f[i] != f[k]);
	}
}
/* an echelonized factorization with a symbolic U (r x m), rows of U in any pivot placement; D receives U */
static struct spasm_lu *hx_fact(int r, int m, int *D, int *piv, int ord)
{
	struct spasm_lu *F = spasm_malloc(sizeof(*F));
#ifdef USHAPE    /* p: the pivot; otherwise as in HSHAPE */
	for (int i = 0; i < r; i++) for (int j = 0; j < m; j++) {
		char sh = USHAPE[i * m + j];
		if (sh == 'p') piv[i] = j;
		D[i * m + j] = sh == 'p' || sh == 'u' ? 1 : sh == '0' ? 0 : sh == '1' ? sx_ffnz(P, "u") : sx_entry(P, "u");
	}
	F->U = hx_from_dense(r, m, D, 0);
	for (int i = 0; i < r; i++)         /* the pivot comes first */
		for (i64 px = F->U->p[i]; px < F->U->p[i + 1]; px++) if (F->U->j[px] == piv[i]) {
			i64 p0 = F->U->p[i];
			F->U->j[px] = F->U->j[p0]; F->U->j[p0] = piv[i];
			spasm_ZZp t = F->U->x[px]; F->U->x[px] = F->U->x[p0]; F->U->x[p0] = t;
		}
#else
	hx_injective(r, m, piv, "piv");
	F->U = hx_triangular(r, m, D, piv, 0, ord, "u");
#endif
	F->qinv = spasm_malloc(m * sizeof(int));
	for (int j = 0; j < m; j++) F->qinv[j] = -1;
	for (int i = 0; i < r; i++) F->qinv[piv[i]] = i;
	F->r = r;
	F->complete = false;
	F->L = NULL;
	F->p = NULL;
	F->Ltmp = NULL;
	return F;
}
#endif

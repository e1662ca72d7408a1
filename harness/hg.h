/* symbolic sparsity patterns with symbolic column indices, and reference graph computations on bit masks */
#ifndef HG_H
#define HG_H
#include "sx.h"
/* n x m pattern: row i has a chosen number of entries, at distinct symbolic columns (in any order unless sorted).
   mask[i] = set of columns of row i, as a term */
static struct spasm_csr *hg_graph(int n, int m, unsigned *mask, int sorted, int maxw)
{
#ifdef HSHAPE    /* 0: no entry, u or 1: an entry, ?: optional; and, on each of the last WANDER rows, one more entry at any place */
	int nz = 0, k = 0;
	char e[n * m + 1];
	for (int k = 0; k < n * m; k++) { e[k] = HSHAPE[k] == '?' ? sx_choose(2, "entry") : HSHAPE[k] != '0'; nz += e[k]; }
	struct spasm_csr *A = spasm_csr_alloc(n, m, nz + WANDER, -1, false);
	for (int i = 0; i < n; i++) {
		int b = k;
		mask[i] = 0;
		for (int j = 0; j < m; j++) if (e[i * m + j]) { A->j[k++] = j; mask[i] |= 1u << j; }
		if (i >= n - WANDER) {
			int j = sx_int(0, m - 1, "col");
			for (int t = b; t < k; t++) sx_assume(A->j[t] != j);
			A->j[k++] = j;
			mask[i] |= 1u << j;
		}
		A->p[i + 1] = k;
	}
	(void) sorted; (void) maxw;
	return hx_shift(A);
#else
	int w[16], nz = 0;
	for (int i = 0; i < n; i++) { w[i] = sx_choose((m < maxw ? m : maxw) + 1, "weight"); nz += w[i]; }
	struct spasm_csr *A = spasm_csr_alloc(n, m, nz, -1, false);
	int k = 0;
	for (int i = 0; i < n; i++) {
		mask[i] = 0;
		for (int t = 0; t < w[i]; t++) {
			int j = sx_int(sorted ? t : 0, sorted ? m - w[i] + t : m - 1, "col");
			for (int u = sorted && t ? t - 1 : 0; u < t; u++) { int jj = A->j[k - t + u]; if (sorted) sx_assume(jj < j); else sx_assume(jj != j); }
			A->j[k++] = j;
			mask[i] |= 1u << j;
		}
		A->p[i + 1] = k;
	}
	return hx_shift(A);
#endif
}
static int hg_bit(unsigned x, int k) { return (x >> k) & 1; }
static int hg_pop(unsigned x, int m) { int s = 0; for (int k = 0; k < m; k++) s += (x >> k) & 1; return s; }
/* 1 iff the maximum matching of the bipartite graph has exactly size k, knowing that it is at least k (Hall / Koenig) */
static int hg_is_nu(int n, int m, const unsigned *mask, int k)
{
	int eq = 0;
	for (unsigned S = 0; S < (1u << n); S++) {
		unsigned N = 0;
		int sz = 0;
		for (int i = 0; i < n; i++) if ((S >> i) & 1) { N |= mask[i]; sz++; }
		eq |= n - sz + hg_pop(N, m) == k;
	}
	return eq;
}
/* size of a maximum matching of a concrete bipartite graph (deficiency version of Hall's theorem) */
static int hg_nu(int n, int m, const unsigned *mask)
{
	int best = n;
	for (unsigned S = 0; S < (1u << n); S++) {
		unsigned N = 0;
		int sz = 0;
		for (int i = 0; i < n; i++) if ((S >> i) & 1) { N |= mask[i]; sz++; }
		int v = n - sz + hg_pop(N, m);
		if (v < best) best = v;
	}
	return best;
}
/* reach[i] = vertices reachable from i (i included), arcs given by masks */
static void hg_closure(int n, const unsigned *mask, unsigned *reach)
{
	for (int i = 0; i < n; i++) reach[i] = mask[i] | (1u << i);
	for (int k = 0; k < n; k++)
		for (int i = 0; i < n; i++) reach[i] |= reach[k] & -((reach[i] >> k) & 1);
}
#endif

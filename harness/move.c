/* transposition, permutation, extraction, vector permutations (C03) */
#include "hx.h"
#ifndef NR
#define NR 2
#define NC 3
#endif
#define MX(a, b) ((a) > (b) ? (a) : (b))
static int *choose_perm(int n, int allow_null, const char *name)
{
	if (allow_null && sx_choose(2, name)) return NULL;
	int *p = malloc(n * sizeof(int));
	for (int i = 0; i < n; i++) {
		p[i] = sx_choose(n, name);
		for (int k = 0; k < i; k++) sx_assume(p[i] != p[k]);
	}
	return p;
}
void harness(void)
{
	int D[NR * NC + 1], E[NR * NC + 1];
#if OP <= 2
	int ord = sx_choose(2, "ord") ? 2 : 0, vals = sx_choose(2, "values");
	struct spasm_csr *A;
	if (sx_choose(4, "pattern") == 0) A = hx_pattern(NR, NC, D, "a"); else A = hx_csr_ord(NR, NC, D, "a", ord);
	int withx = vals && A->x != NULL;
	struct spasm_csr *B;
#if OP == 0
	B = spasm_transpose(A, vals);
	hx_dense(B, NC, NR, E);
	for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) {
		if (withx) sx_assert(E[j * NR + i] == D[i * NC + j], "entry (j, i) of the transpose is entry (i, j)");
		else sx_assert((E[j * NR + i] != 0) == (D[i * NC + j] != 0), "pattern of the transpose");
	}
	sx_reach("transposed");
#elif OP == 1
	int *p = choose_perm(NR, 1, "p"), *qinv = choose_perm(NC, 1, "q");
	B = spasm_permute(A, p, qinv, vals);
	hx_dense(B, NR, NC, E);
	for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) {
		int s = D[(p ? p[i] : i) * NC + j], t = E[i * NC + (qinv ? qinv[j] : j)];
		if (withx) sx_assert(s == t, "entry (p[i], j) goes to (i, qinv[j])"); else sx_assert((s != 0) == (t != 0), "pattern of the permuted matrix");
	}
	free(p); free(qinv);
	sx_reach("permuted");
#else
	int r0 = sx_choose(NR + 1, "r0"), r1 = sx_choose(NR + 1, "r1"), c0 = sx_choose(NC + 1, "c0"), c1 = sx_choose(NC + 1, "c1");
	B = spasm_submatrix(A, r0, r1, c0, c1, vals);
	int n = MX(r1 - r0, 0), m = MX(c1 - c0, 0);
	hx_dense(B, n, m, E);
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
		int s = D[(r0 + i) * NC + c0 + j], t = E[i * m + j];
		if (withx) sx_assert(s == t, "entry (r0 + i, c0 + j) goes to (i, j)"); else sx_assert((s != 0) == (t != 0), "pattern of the submatrix");
	}
	sx_reach("extracted");
#endif
	sx_assert((B->x != NULL) == withx, "values are kept exactly when they exist and are asked for");
	sx_assert(B->field->p == A->field->p, "same modulus");
	i64 nz = 0;
	for (int i = 0; i < B->n * B->m; i++) nz += E[i] != 0;
	sx_assert(B->p[B->n] == nz, "no extra entry");
	for (i64 k = 0; k < B->p[B->n]; k++) sx_out(B->j[k]);
	int *D2 = E;
	hx_dense(A, NR, NC, D2);
	for (int i = 0; i < NR * NC; i++) sx_assert(D2[i] == D[i], "the input is not modified");
	spasm_csr_free(A); spasm_csr_free(B);
#elif OP == 3
	int *p = choose_perm(NR, 1, "p");
	int b[NR + 1], x[NR + 1], y[NR + 1];
	for (int i = 0; i < NR; i++) { b[i] = sx_int(-2147483647, 2147483647, "b"); x[i] = y[i] = 7; }
	b[NR] = x[NR] = y[NR] = 12345;
	spasm_pvec(p, b, x, NR);
	spasm_ipvec(p, b, y, NR);
	int *pinv = spasm_pinv(p, NR);
	sx_assert((pinv == NULL) == (p == NULL), "the inverse of the identity is the identity");
	for (int i = 0; i < NR; i++) {
		sx_assert(x[i] == b[p ? p[i] : i], "pvec: x[i] = b[p[i]]");
		sx_assert(y[p ? p[i] : i] == b[i], "ipvec: x[p[i]] = b[i]");
		if (p) sx_assert(pinv[p[i]] == i, "pinv inverts");
		sx_out(x[i]); sx_out(y[i]);
	}
	sx_assert(x[NR] == 12345 && y[NR] == 12345, "nothing written past the end");
	if (p) {
		int v[NR + 4], w[NR + 4], q[NR];
		int a = sx_choose(4, "a");
		for (int i = 0; i < NR + 4; i++) v[i] = w[i] = i < NR ? b[i] : 100 + i;
		for (int i = 0; i < NR; i++) q[i] = p[i];
		spasm_range_pvec(v, a, a + NR, q);
		for (int i = 0; i < NR + 4; i++)
			if (i < a || i >= a + NR) sx_assert(v[i] == w[i], "range_pvec leaves the rest alone");
			else sx_assert(v[i] == w[a + p[i - a]], "range_pvec: x[a + i] = x[a + p[i]]");
	}
	free(p); free(pinv);
	sx_reach("vectors permuted");
#else
	int seen[NR + 1];
	for (int i = 0; i < NR; i++) seen[i] = 0;
	int *p = spasm_random_permutation(NR);
	for (int i = 0; i < NR; i++) {
		sx_assert(p[i] >= 0 && p[i] < NR && !seen[p[i]], "a random permutation is a permutation");
		seen[p[i]] = 1;
		sx_out(p[i]);
	}
	free(p);
	sx_reach("random permutation");
#endif
	sx_assert(sx_heap_live() == 0, "everything allocated has been released");
}

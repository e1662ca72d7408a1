/* C02: K entries added one at a time, then converted to rows.  NN x MM positions, announced dimensions N0 x M0 */
#include "hx.h"
#ifndef K
#define K 4
#endif
#ifndef VALS
#define VALS 1
#endif
void harness(void)
{
	int S[NN * MM], T0[NN * MM];
	for (int i = 0; i < NN * MM; i++) S[i] = T0[i] = 0;
	int n0 = N0, m0 = M0;
	int cap = sx_choose(3, "cap");
	cap = cap == 0 ? 0 : cap == 1 ? 1 : K;
	int tr = sx_choose(2, "transpose");
	struct spasm_triplet *T = spasm_triplet_alloc(n0, m0, cap, P, VALS);
	int n = n0, m = m0, stored = 0;
	for (int k = 0; k < K; k++) {
		int i = sx_choose(NN, "i"), j = sx_choose(MM, "j");
		i64 v = 1;
		if (VALS) {
			v = sx_entry(P, "v");
			if (k == 0) v += (i64) P * (sx_choose(3, "mult") - 1);
		}
		spasm_add_entry(T, i, j, v);
		S[i * MM + j] = VALS ? sx_ff_add(P, S[i * MM + j], sx_ff_init(P, v)) : 1;
		if (!VALS || sx_ff_init(P, v) != 0) {
			stored++;
			if (i + 1 > n) n = i + 1;
			if (j + 1 > m) m = j + 1;
		}
		sx_assert(T->nz <= T->nzmax, "capacity respected");
		sx_assert(T->nz == stored, "every nonzero entry is recorded, zero ones are not");
	}
	/* an explicit zero may extend the dimensions or not */
	sx_assert(T->n >= n && T->m >= m && T->n <= NN && T->m <= MM, "dimensions cover the entries");
	n = T->n; m = T->m;
	if (tr) {
		spasm_triplet_transpose(T);
		sx_assert(T->n == m && T->m == n, "transposition exchanges the dimensions");
	}
	struct spasm_csr *A = spasm_compress(T);
	int an = tr ? m : n, am = tr ? n : m, D[NN * MM + 1];
	sx_assert(A->p[A->n] == 0 || (A->x != NULL) == VALS, "values present exactly when the entries have values");
	sx_assert(spasm_get_prime(A) == P, "same field");
	hx_dense(A, an, am, D);
	for (int i = 0; i < an; i++)
		for (int j = 0; j < am; j++) {
			int e = tr ? S[j * MM + i] : S[i * MM + j];
			sx_assert(D[i * am + j] == e, "entry = sum of the entries added at its position");
		}
	if (VALS)
		for (i64 k = 0; k < A->p[an]; k++) sx_assert(A->x[k] != 0, "no stored zero");
	sx_reach(A->p[an] < stored ? "duplicates merged or cancelled" : "no duplicate");
	sx_out(A->p[an]);
	spasm_triplet_free(T);
	spasm_csr_free(A);
	sx_assert(sx_heap_live() == 0, "nothing left allocated");
}

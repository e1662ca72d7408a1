/* adding entries beyond the 2^31-th one (C23) */
#include "hx.h"
void harness(void)
{
	const i64 where[4] = {2147483646LL, 2147483648LL, 2147483645LL, 2147483647LL};
	i64 nz = where[sx_choose(4, "offset")], room = sx_choose(2, "room");
	struct spasm_triplet *T = spasm_triplet_alloc(2, 2, nz + room, P, true);
	T->nz = nz;
	T->i[nz - 1] = 1; T->j[nz - 1] = 0; T->x[nz - 1] = 1;
	int v[3], i[3], j[3];
	for (int k = 0; k < 3; k++) {
		v[k] = sx_ffnz(P, "v"); i[k] = sx_int(0, 5, "i"); j[k] = sx_int(0, 5, "j");
		spasm_add_entry(T, i[k], j[k], v[k]);
	}
	sx_assert(T->nz == nz + 3 && T->nzmax >= T->nz, "three more entries");
	sx_assert(T->i[nz - 1] == 1 && T->j[nz - 1] == 0 && T->x[nz - 1] == 1, "the last one before is kept");
	int n = 2, m = 2;
	for (int k = 0; k < 3; k++) { sx_assert(T->i[nz + k] == i[k] && T->j[nz + k] == j[k] && T->x[nz + k] == v[k], "the entries are recorded in order"); if (i[k] >= n) n = i[k] + 1; if (j[k] >= m) m = j[k] + 1; }
	sx_assert(T->n == n && T->m == m, "dimensions");
	spasm_triplet_transpose(T);
	sx_assert(T->nz == nz + 3 && T->n == m && T->m == n, "transposed");
	for (int k = 0; k < 3; k++) sx_assert(T->i[nz + k] == j[k] && T->j[nz + k] == i[k], "transposed entries");
	sx_reach("added");
	spasm_triplet_free(T);
	sx_assert(sx_heap_live() == 0, "no allocation left");
}

/* OP 0 maximum matching (C19), 1 Dulmage-Mendelsohn (C20), 2 strongly connected components (C21), 3 matching helpers (C19) */
#include "hg.h"
#ifndef NR
#define NR 3
#define NC 3
#endif
#ifndef SORTED
#define SORTED 0
#endif
#ifndef MAXW
#define MAXW 16
#endif
static void permutation(const int *p, int n, const char *msg)
{
	unsigned seen = 0;
	for (int i = 0; i < n; i++) {
		sx_assert(p[i] >= 0 && p[i] < n, msg);
		sx_assert(!((seen >> p[i]) & 1), msg);
		seen |= 1u << p[i];
	}
}
#if OP == 0 || OP == 3
static void check_matching(int n, int m, const unsigned *mask, const int *p, const int *qinv, int k)
{
	int a = 0, b = 0;
	for (int i = 0; i < n; i++) {
		sx_assert(p[i] >= -1 && p[i] < m, "row match in range");
		if (p[i] < 0) continue;
		a++;
		sx_assert(qinv[p[i]] == i, "row and column maps are inverse of one another");
		sx_assert(hg_bit(mask[i], p[i]), "matched rows and columns are joined by an entry");
	}
	for (int j = 0; j < m; j++) { sx_assert(qinv[j] >= -1 && qinv[j] < n, "column match in range"); if (qinv[j] >= 0) { b++; sx_assert(p[qinv[j]] == j, "column and row maps are inverse of one another"); } }
	sx_assert(a == b, "as many matched rows as matched columns");
	if (k >= 0) sx_assert(a == k, "the size of the matching is returned");
}
#endif
void harness(void)
{
	unsigned mask[NR + 1];
	struct spasm_csr *A = hg_graph(NR, NC, mask, SORTED, MAXW);
#if OP == 0
	int p[NR + 1], qinv[NC + 1];
	p[NR] = qinv[NC] = 99;
	int k = spasm_maximum_matching(A, p, qinv);
	sx_assert(p[NR] == 99 && qinv[NC] == 99, "nothing written past the end");
	for (int i = 0; i < NR; i++) mask[i] = sx_fix(mask[i]);
	check_matching(NR, NC, mask, p, qinv, k);
	sx_assert(hg_is_nu(NR, NC, mask, k), "no larger matching exists");
	for (int i = 0; i < NR; i++) sx_out(p[i]);
	sx_reach(k == (NR < NC ? NR : NC) ? "full matching" : "deficient matching");
#elif OP == 3
	/* permuted and restricted matchings */
	int p[NR + 1], q[NC + 1], jm[NR + 1], im[NC + 1];
	spasm_maximum_matching(A, jm, im);
	for (int i = 0; i < NR; i++) { p[i] = sx_int(0, NR - 1, "p"); for (int k = 0; k < i; k++) sx_assume(p[i] != p[k]); }
	for (int j = 0; j < NC; j++) { q[j] = sx_int(0, NC - 1, "q"); for (int k = 0; k < j; k++) sx_assume(q[j] != q[k]); }
	int *pinv = spasm_pinv(p, NR), *qinv = spasm_pinv(q, NC);
	struct spasm_csr *B = spasm_permute(A, p, qinv, SPASM_IGNORE_VALUES);
	int *jj = spasm_permute_row_matching(NR, jm, p, qinv), *ii = spasm_permute_column_matching(NC, im, pinv, q);
	unsigned mb[NR + 1];
	for (int i = 0; i < NR; i++) { mb[i] = 0; for (i64 px = B->p[i]; px < B->p[i + 1]; px++) mb[i] |= 1u << B->j[px]; mb[i] = sx_fix(mb[i]); }
	check_matching(NR, NC, mb, jj, ii, -1);
	int ca = 0, cb = 0;
	for (int i = 0; i < NR; i++) { ca += jm[i] >= 0; cb += jj[i] >= 0; sx_assert((jj[i] >= 0) == (jm[p[i]] >= 0), "row i of the permuted matrix is matched exactly when row p[i] is"); if (jj[i] >= 0) sx_assert(q[jj[i]] == jm[p[i]], "to the image of its column"); }
	sx_assert(ca == cb, "the permuted matching has the same size");
	/* restriction to the rows a..b-1, when their matches lie in c..d-1 */
	int a = sx_choose(NR + 1, "a"), b = a + sx_choose(NR + 1 - a, "len"), c = NC, d = 0;
	for (int i = a; i < b; i++) if (jm[i] >= 0) { if (jm[i] < c) c = jm[i]; if (jm[i] + 1 > d) d = jm[i] + 1; }
	if (c > d) c = d = 0;
	int *s = spasm_submatching(jm, a, b, c, NC);
	for (int i = a; i < b; i++) sx_assert(s[i - a] == (jm[i] < 0 ? -1 : jm[i] - c), "restricted matching");
	sx_reach(ca ? "matched" : "nothing matched");
	free(pinv); free(qinv); free(jj); free(ii); free(s);
	spasm_csr_free(B);
#elif OP == 1
	struct spasm_dm *DM = spasm_dulmage_mendelsohn(A);
	int n = NR, m = NC, *p = DM->p, *q = DM->q, *rr = DM->rr, *cc = DM->cc, *r = DM->r, *c = DM->c;
	for (int i = 0; i < NR; i++) mask[i] = sx_fix(mask[i]);
	permutation(p, n, "row order is a permutation");
	permutation(q, m, "column order is a permutation");
	sx_assert(rr[0] == 0 && rr[4] == n && cc[0] == 0 && cc[4] == m, "coarse blocks cover everything");
	for (int k = 0; k < 4; k++) sx_assert(rr[k] <= rr[k + 1] && cc[k] <= cc[k + 1], "coarse boundaries are ordered");
	sx_assert(rr[1] == cc[2] - cc[1], "R1 is as large as C1");
	sx_assert(rr[2] - rr[1] == cc[3] - cc[2], "the square part is square");
	sx_assert(rr[3] - rr[2] == cc[4] - cc[3], "R3 is as large as C3");
	for (int t = 0; t < rr[1]; t++) sx_assert(hg_bit(mask[p[t]], q[cc[1] + t]), "R1 is matched to C1");
	for (int t = rr[1]; t < rr[2]; t++) sx_assert(hg_bit(mask[p[t]], q[cc[2] + t - rr[1]]), "the square part has a zero-free diagonal");
	for (int t = rr[2]; t < rr[3]; t++) sx_assert(hg_bit(mask[p[t]], q[cc[3] + t - rr[2]]), "R3 is matched to C3");
	int nu = hg_nu(n, m, mask);
	sx_assert(rr[3] == nu, "R0 has as many rows as a maximum matching leaves unmatched");
	sx_assert(m - cc[1] == nu, "C0 has as many columns as a maximum matching leaves unmatched");
	/* canonical parts: a row (column) is in the vertical (horizontal) part iff some maximum matching avoids it */
	unsigned rowpart = 0, colpart = 0, w[NR + 1], horcols = 0, verrows = 0;
	for (int t = rr[2]; t < n; t++) verrows |= 1u << p[t];
	for (int t = 0; t < cc[2]; t++) horcols |= 1u << q[t];
	for (int i = 0; i < n; i++) {
		for (int k = 0; k < n; k++) w[k] = k == i ? 0 : mask[k];
		if (hg_nu(n, m, w) == nu) rowpart |= 1u << i;
	}
	for (int j = 0; j < m; j++) {
		for (int k = 0; k < n; k++) w[k] = mask[k] & ~(1u << j);
		if (hg_nu(n, m, w) == nu) colpart |= 1u << j;
	}
	sx_assert(rowpart == verrows, "the vertical part consists of the rows that some maximum matching avoids");
	sx_assert(colpart == horcols, "the horizontal part consists of the columns that some maximum matching avoids");
	unsigned c3 = 0, vcols = 0, hrows = 0, r1 = 0;
	for (int t = cc[3]; t < m; t++) vcols |= 1u << q[t];
	for (int t = 0; t < rr[1]; t++) hrows |= 1u << p[t];
	for (int i = 0; i < n; i++) { if ((rowpart >> i) & 1) c3 |= mask[i]; if (mask[i] & colpart) r1 |= 1u << i; }
	sx_assert(c3 == vcols, "the columns of the vertical part are the neighbours of its rows");
	sx_assert(r1 == hrows, "the rows of the horizontal part are the neighbours of its columns");
	for (int t = rr[1]; t < n; t++) for (int u = 0; u < (t < rr[2] ? cc[2] : cc[3]); u++) sx_assert(!hg_bit(mask[p[t]], q[u]), "no entry below the coarse diagonal blocks");
	int sq = rr[2] - rr[1];
	if (sq > 0) {
		int nb = DM->nb;
		sx_assert(nb >= 3 && nb <= sq + 2, "number of blocks");
		sx_assert(r[0] == 0 && r[1] == rr[1] && r[nb - 1] == rr[2] && r[nb] == n, "row boundaries");
		sx_assert(c[0] == 0 && c[1] == cc[2] && c[nb - 1] == cc[3] && c[nb] == m, "column boundaries");
		unsigned g[NR + 1], reach[NR + 1];
		int blk[NR + 1];
		for (int t = 0; t < sq; t++) { g[t] = 0; for (int u = 0; u < sq; u++) if (hg_bit(mask[p[rr[1] + t]], q[cc[2] + u])) g[t] |= 1u << u; }
		hg_closure(sq, g, reach);
		for (int k = 1; k < nb - 1; k++) {
			sx_assert(r[k] < r[k + 1], "fine blocks are not empty");
			sx_assert(r[k] - rr[1] == c[k] - cc[2], "fine blocks are square");
			for (int t = r[k]; t < r[k + 1]; t++) blk[t - rr[1]] = k;
		}
		for (int t = 0; t < sq; t++) for (int u = 0; u < sq; u++) {
			sx_assert((blk[t] == blk[u]) == (hg_bit(reach[t], u) && hg_bit(reach[u], t)), "fine blocks are the strongly connected components");
			if (hg_bit(g[t], u)) sx_assert(blk[u] >= blk[t], "no entry below the fine diagonal blocks");
		}
	}
	for (int i = 0; i < n; i++) sx_out(p[i]);
	sx_reach(sq == 0 ? "no square part" : sq == n && sq == m ? "only a square part" : "mixed");
	spasm_dm_free(DM);
#else
	struct spasm_dm *S = spasm_strongly_connected_components(A);
	int n = NR, *p = S->p, *r = S->r, nb = S->nb, blk[NR + 1];
	unsigned reach[NR + 1];
	for (int i = 0; i < NR; i++) mask[i] = sx_fix(mask[i]);
	permutation(p, n, "the order is a permutation");
	permutation(S->q, n, "the column order is a permutation");
	for (int i = 0; i < n; i++) sx_assert(p[i] == S->q[i], "same order for rows and columns");
	sx_assert(nb >= (n > 0) && nb <= n && r[0] == 0 && r[nb] == n, "the blocks cover all vertices");
	for (int k = 0; k < nb; k++) {
		sx_assert(r[k] < r[k + 1] && S->c[k] == r[k] && S->c[k + 1] == r[k + 1], "blocks are not empty");
		for (int t = r[k]; t < r[k + 1]; t++) blk[p[t]] = k;
	}
	hg_closure(n, mask, reach);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
		sx_assert((blk[i] == blk[j]) == (hg_bit(reach[i], j) & hg_bit(reach[j], i)), "two vertices are in the same block exactly when each is reachable from the other");
		if (blk[j] < blk[i]) sx_assert(!hg_bit(mask[i], j), "no arc leads to an earlier block");
	}
	for (int i = 0; i < n; i++) sx_out(p[i]);
	sx_reach(nb == 1 ? "one component" : nb == n ? "trivial components" : "several components");
	spasm_dm_free(S);
#endif
	spasm_csr_free(A);
	sx_assert(sx_heap_live() == 0, "everything allocated has been released");
}

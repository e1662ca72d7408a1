/* operations are functions of their arguments (C28): the arguments keep their contents, and the same call gives the same result again,
   whatever happened in between.  OP 0 sparse matrices and permutations, 1 graphs, 2 echelonize (OPTS), 3 solving, 4 kernel and rref, 5 certificates, 6 products and triangular systems */
#include "io.h"
#include "hx.h"
struct snap { struct spasm_csr *A, H; i64 p[HXM]; int j[HXM * 2], x[HXM * 2]; };
static void take(struct snap *s, struct spasm_csr *A)
{
	s->A = A; s->H = *A;
	for (int i = 0; i <= A->n; i++) s->p[i] = A->p[i];
	for (i64 k = 0; k < A->p[A->n]; k++) { s->j[k] = A->j[k]; if (A->x) s->x[k] = A->x[k]; }
}
static void same(const struct snap *s)
{
	const struct spasm_csr *A = s->A;
	sx_assert(A->n == s->H.n && A->m == s->H.m && A->nzmax == s->H.nzmax && A->p == s->H.p && A->j == s->H.j && A->x == s->H.x, "the header of an argument is unchanged");
	for (int i = 0; i <= A->n; i++) sx_assert(A->p[i] == s->p[i], "the row pointers of an argument are unchanged");
	for (i64 k = 0; k < s->p[A->n]; k++) { sx_assert(A->j[k] == s->j[k], "the columns of an argument are unchanged"); if (A->x) sx_assert(A->x[k] == s->x[k], "the values of an argument are unchanged"); }
}
static void equal(const struct spasm_csr *A, const struct spasm_csr *B)
{
	sx_assert(A->n == B->n && A->m == B->m && (A->x == NULL) == (B->x == NULL), "the same call gives the same result: dimensions");
	for (int i = 0; i <= A->n; i++) sx_assert(A->p[i] == B->p[i], "the same call gives the same result: row pointers");
	for (i64 k = 0; k < A->p[A->n]; k++) { sx_assert(A->j[k] == B->j[k], "the same call gives the same result: columns"); if (A->x) sx_assert(A->x[k] == B->x[k], "the same call gives the same result: values"); }
	sx_assert(A != B && A->p != B->p && (A->j != B->j || A->j == NULL), "results have storage of their own");
}
static void vec(const int *a, const int *b, int n, const char *m) { for (int k = 0; k < n; k++) sx_assert(a[k] == b[k], m); }
#define AGAIN "the same call gives the same result"
#define UNCH "an array given as argument is unchanged"
static int D[NR * NC + 1];
/* something else in between */
static void between(void)
{
	int E[4];
	struct spasm_csr *Z = spasm_csr_alloc(2, 2, 2, P, true), *T;
	Z->j[0] = 1; Z->x[0] = 1; Z->j[1] = 0; Z->x[1] = -1; Z->p[0] = 0; Z->p[1] = 1; Z->p[2] = 2;
	T = spasm_transpose(Z, true);
	hx_dense(T, 2, 2, E);
	struct echelonize_opts o;
	spasm_echelonize_init_opts(&o);
	o.L = 1;
	struct spasm_lu *F = spasm_echelonize(T, &o);
	struct spasm_dm *DM = spasm_dulmage_mendelsohn(Z);
	spasm_dm_free(DM); spasm_lu_free(F); spasm_csr_free(Z); spasm_csr_free(T);
}
static int same_dm(const struct spasm_dm *a, const struct spasm_dm *b, int n, int m)
{
	sx_assert(a->nb == b->nb, AGAIN);
	vec(a->p, b->p, n, AGAIN); vec(a->q, b->q, m, AGAIN); vec(a->r, b->r, a->nb + 1, AGAIN); vec(a->c, b->c, a->nb + 1, AGAIN); vec(a->rr, b->rr, 5, AGAIN); vec(a->cc, b->cc, 5, AGAIN);
	return 0;
}
void harness(void)
{
	struct snap sa, su, sl;
#if OP == 1
	struct spasm_csr *A = hx_pattern(NR, NC, D, "a");
#else
	struct spasm_csr *A = hx_csr_ord(NR, NC, D, "a", OP == 2 ? 0 : sx_choose(2, "order"));
#endif
	take(&sa, A);
#if OP == 0
	int p[NR + 1], q[NC + 1], p0[NR + 1], q0[NC + 1];
	hx_injective(NR, NR, p, "p");
	for (int j = 0; j < NC; j++) q[j] = NC - 1 - j;
	for (int i = 0; i < NR; i++) p0[i] = p[i];
	for (int j = 0; j < NC; j++) q0[j] = q[j];
	struct spasm_csr *R[2][4];
	int *pi[2];
	struct spasm_triplet *T = spasm_triplet_alloc(NR, NC, 1, P, true);
	for (int i = NR - 1; i >= 0; i--) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) { spasm_add_entry(T, i, A->j[k], 1); spasm_add_entry(T, i, A->j[k], k & 1 ? -1 : 1); }
	int ti[2 * NR * NC + 1], tj[2 * NR * NC + 1], tx[2 * NR * NC + 1];
	for (i64 k = 0; k < T->nz; k++) { ti[k] = T->i[k]; tj[k] = T->j[k]; tx[k] = T->x[k]; }
	i64 nz = T->nz;
	for (int t = 0; t < 2; t++) {
		R[t][0] = spasm_transpose(A, true);
		R[t][1] = spasm_permute(A, p, q, true);
		R[t][2] = spasm_submatrix(A, 0, NR, NC > 0, NC, true);
		R[t][3] = spasm_compress(T);
		pi[t] = spasm_pinv(p, NR);
		if (!t) between();
	}
	for (int k = 0; k < 4; k++) { equal(R[0][k], R[1][k]); spasm_csr_free(R[0][k]); spasm_csr_free(R[1][k]); }
	vec(pi[0], pi[1], NR, AGAIN); vec(p, p0, NR, UNCH); vec(q, q0, NC, UNCH);
	sx_assert(T->nz == nz && T->n == NR && T->m == NC, "the triplets are unchanged");
	vec(T->i, ti, nz, UNCH); vec(T->j, tj, nz, UNCH); vec(T->x, tx, nz, UNCH);
	free(pi[0]); free(pi[1]); spasm_triplet_free(T);
#elif OP == 1
	int jm[2][NR + 1], im[2][NC + 1], sz[2];
	struct spasm_dm *d[2], *c[2] = { NULL, NULL };
	for (int t = 0; t < 2; t++) {
		sz[t] = spasm_maximum_matching(A, jm[t], im[t]);
		d[t] = spasm_dulmage_mendelsohn(A);
#if NR == NC
		c[t] = spasm_strongly_connected_components(A);
#endif
		if (!t) between();
	}
	sx_assert(sz[0] == sz[1], AGAIN);
	vec(jm[0], jm[1], NR, AGAIN); vec(im[0], im[1], NC, AGAIN); same_dm(d[0], d[1], NR, NC);
	if (c[0]) { sx_assert(c[0]->nb == c[1]->nb, AGAIN); vec(c[0]->p, c[1]->p, NR, AGAIN); vec(c[0]->r, c[1]->r, c[0]->nb + 1, AGAIN); spasm_dm_free(c[0]); spasm_dm_free(c[1]); }
	spasm_dm_free(d[0]); spasm_dm_free(d[1]);
#elif OP == 2
	struct echelonize_opts o;
	spasm_echelonize_init_opts(&o);
	o.L = sx_choose(2, "L");
#ifdef OPTS
	OPTS
#endif
	struct spasm_lu *F[2];
	for (int t = 0; t < 2; t++) { F[t] = spasm_echelonize(A, &o); if (!t) between(); }
	sx_assert(F[0]->r == F[1]->r && (F[0]->L == NULL || F[0]->complete == F[1]->complete) && (F[0]->L == NULL) == (F[1]->L == NULL), AGAIN);
	equal(F[0]->U, F[1]->U);
	vec(F[0]->qinv, F[1]->qinv, NC, AGAIN);
	if (F[0]->L) { equal(F[0]->L, F[1]->L); vec(F[0]->p, F[1]->p, F[0]->r, AGAIN); }
	spasm_lu_free(F[0]); spasm_lu_free(F[1]);
#elif OP <= 5
	struct echelonize_opts o;
	spasm_echelonize_init_opts(&o);
	o.L = OP != 4;
	struct spasm_lu *F = spasm_echelonize(A, &o), H = *F;
	int q0[NC + 1], p0[NR + 1];
	take(&su, F->U);
	for (int j = 0; j < NC; j++) q0[j] = F->qinv[j];
	if (F->L) { take(&sl, F->L); for (int i = 0; i < F->r; i++) p0[i] = F->p[i]; }
#if OP == 3
	int b[NC + 1], b0[NC + 1], x[2][NR + 1], ok[2];
	for (int j = 0; j < NC; j++) b[j] = b0[j] = sx_ff(P, "b");
	struct spasm_csr *X[2];
	bool fl[2][NR + 1];
	for (int t = 0; t < 2; t++) { ok[t] = spasm_solve(F, b, x[t]); X[t] = spasm_gesv(F, A, fl[t]); if (!t) between(); }
	sx_assert(ok[0] == ok[1], AGAIN);
	vec(b, b0, NC, UNCH);
	if (ok[0]) vec(x[0], x[1], NR, AGAIN);
	equal(X[0], X[1]);
	for (int k = 0; k < NR; k++) sx_assert(fl[0][k] == fl[1][k], AGAIN);
	spasm_csr_free(X[0]); spasm_csr_free(X[1]);
#elif OP == 4
	struct spasm_csr *K[2], *R[2], *J[2];
	int rq[2][NC + 1];
	for (int t = 0; t < 2; t++) {
		struct snap sr;
		K[t] = spasm_kernel(F); R[t] = spasm_rref(F, rq[t]);
		take(&sr, R[t]);
		J[t] = spasm_kernel_from_rref(R[t], rq[t]);
		same(&sr);
		if (!t) between();
	}
	equal(K[0], K[1]); equal(R[0], R[1]); equal(J[0], J[1]); vec(rq[0], rq[1], NC, AGAIN);
	for (int t = 0; t < 2; t++) { spasm_csr_free(K[t]); spasm_csr_free(R[t]); spasm_csr_free(J[t]); }
#else
	u8 hash[32];
	for (int k = 0; k < 32; k++) hash[k] = 5 * k;
	struct spasm_rank_certificate *c[2];
	for (int t = 0; t < 2; t++) { c[t] = spasm_certificate_rank_create(A, hash, F); if (!t) between(); }
	sx_assert(c[0]->r == c[1]->r && c[0]->prime == c[1]->prime, AGAIN);
	for (int t = 0; t < 2; t++) for (int s = 0; s < 2; s++) {
		sx_assert(spasm_certificate_rank_verify(A, hash, c[t]), "verifies, each time");
		sx_assert(spasm_factorization_verify(A, F, 1), "verifies, each time");
	}
	vec(c[0]->i, c[1]->i, c[0]->r, AGAIN); vec(c[0]->j, c[1]->j, c[0]->r, AGAIN); vec(c[0]->x, c[1]->x, c[0]->r, AGAIN); vec(c[0]->y, c[1]->y, c[0]->r, AGAIN);
	for (int k = 0; k < 32; k++) sx_assert(hash[k] == 5 * k, UNCH);
	for (int t = 0; t < 2; t++) { free(c[t]->i); free(c[t]->j); free(c[t]->x); free(c[t]->y); free(c[t]); }
#endif
	sx_assert(F->r == H.r && F->L == H.L && F->U == H.U && F->qinv == H.qinv && (F->L == NULL || (F->complete == H.complete && F->p == H.p)), "the factorization is unchanged");
	same(&su); vec(F->qinv, q0, NC, UNCH);
	if (F->L) { same(&sl); vec(F->p, p0, F->r, UNCH); }
	spasm_lu_free(F);
#else
	int x[NR + NC + 1], x0[NR + NC + 1], y[2][NR + NC + 1], z[2][NR + NC + 1];
	for (int k = 0; k < NR + NC; k++) x[k] = x0[k] = sx_ff(P, "x");
	for (int t = 0; t < 2; t++) {
		for (int k = 0; k < NR + NC; k++) y[t][k] = z[t][k] = k & 1;
		spasm_xApy(x, A, y[t]); spasm_Axpy(A, x, z[t]);
		if (!t) between();
	}
	vec(x, x0, NR + NC, UNCH); vec(y[0], y[1], NR + NC, AGAIN); vec(z[0], z[1], NR + NC, AGAIN);
#endif
	same(&sa);
	for (i64 k = 0; k < A->p[A->n]; k++) sx_out(A->j[k]);
	sx_reach("same");
	spasm_csr_free(A);
}

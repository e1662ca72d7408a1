/* allocation failures (C27): any one of the allocations made by the operation fails.
   OP 0 triplets and CSR operations, 1 load and save, 2 echelonize (OPTS) and verification, 3 solve and gesv, 4 kernel and rref,
   5 rank certificates, 6 Dulmage-Mendelsohn, 7 permutations and small helpers */
#include "io.h"
#include "hx.h"
static int reported(int st)
{
	sx_assert(st != 0, "a failed allocation ends the program with a nonzero status");
	sx_assert(sx_oom(-1) == 2, "the program only gives up when an allocation has failed");
	sx_reach("reported");
	sx_done();
	return 0;
}
void STUB(err)(int st, const char *f, ...) { (void) f; reported(st); }
void STUB(errx)(int st, const char *f, ...) { (void) f; reported(st); }
void STUB(exit)(int st) { reported(st); }
void STUB(abort)(void) { reported(134); }
void STUB(__assert_fail)(const char *a, const char *b, unsigned c, const char *d) { (void) a; (void) b; (void) c; (void) d; reported(134); }
#define OOM(x) do { sx_oom(1); x; sx_assert(sx_oom(0) != 2, "an operation whose allocation failed returns no result"); } while (0)
static int D[NR * NC + 1];
void harness(void)
{
#if OP == 0
	struct spasm_triplet *T = NULL;
	struct spasm_csr *A = NULL, *B = NULL, *C = NULL;
	int nz = sx_choose(4, "nz"), v = sx_choose(2, "values"), cap = sx_choose(2, "capacity");
	OOM(T = spasm_triplet_alloc(NR, NC, cap, P, v));
	for (int k = 0; k < nz; k++) OOM(spasm_add_entry(T, k % NR, k * k % NC, k + 1));
	OOM(spasm_triplet_transpose(T));
	OOM(A = spasm_compress(T));
	OOM(B = spasm_transpose(A, sx_choose(2, "keep")));
	OOM(C = spasm_submatrix(A, 0, A->n, 0, A->m, true));
	OOM(spasm_csr_resize(C, A->n + 1, A->m));
	OOM(spasm_csr_realloc(C, -1));
	spasm_triplet_free(T); spasm_csr_free(A); spasm_csr_free(B); spasm_csr_free(C);
#elif OP == 1
	static char buf[512];
	struct io_text t = {0, buf};
	u8 hash[32];
	int mm = sx_choose(2, "mm");
	if (mm) io_str(&t, "%%MatrixMarket matrix coordinate integer general\n2 3 3\n1 1 1\n2 3 1\n1 2 1\n"); else io_str(&t, "2 3 M\n1 1 1\n2 3 1\n1 2 1\n0 0 0\n");
	struct spasm_triplet *T = NULL;
	FILE *f = io_open(buf, t.n), *g = io_sink(), *h = io_sink();
	OOM(T = spasm_triplet_load(f, sx_choose(2, "values") ? P : -1, sx_choose(2, "hash") ? hash : NULL));
	OOM(spasm_triplet_save(T, g));
	struct spasm_csr *A = NULL;
	OOM(A = spasm_compress(T));
	OOM(spasm_csr_save(A, h));
	FILE *k = io_sink();
	int mode = 1 + sx_choose(3, "mode");
	struct spasm_dm *DM = spasm_dulmage_mendelsohn(A);
	OOM(spasm_save_pnm(A, k, 2, 2, mode, mode == 3 ? DM : NULL));
	spasm_dm_free(DM); spasm_csr_free(A); spasm_triplet_free(T);
#elif OP == 2
	struct spasm_csr *A = hx_csr(NR, NC, D, "a");
	struct echelonize_opts o;
	spasm_echelonize_init_opts(&o);
	o.L = sx_choose(2, "L");
#ifdef OPTS
	OPTS
#endif
	struct spasm_lu *F = NULL;
	OOM(F = spasm_echelonize(A, &o));
	if (F->L) OOM(spasm_factorization_verify(A, F, 1));
	spasm_csr_free(A); spasm_lu_free(F);
#elif OP == 3 || OP == 4
	struct spasm_csr *A = hx_csr(NR, NC, D, "a");
	struct echelonize_opts o;
	spasm_echelonize_init_opts(&o);
	o.L = OP == 3;
	struct spasm_lu *F = spasm_echelonize(A, &o);
#if OP == 3
	int b[NC + 1], x[NR + 1];
	for (int j = 0; j < NC; j++) b[j] = D[j];
	OOM(spasm_solve(F, b, x));
	struct spasm_csr *X = NULL;
	bool ok[NR + 1];
	OOM(X = spasm_gesv(F, A, ok));
	spasm_csr_free(X);
#else
	int q[NC + 1];
	struct spasm_csr *K = NULL, *R = NULL, *K2 = NULL;
	OOM(K = spasm_kernel(F));
	OOM(R = spasm_rref(F, q));
	OOM(K2 = spasm_kernel_from_rref(R, q));
	spasm_csr_free(K); spasm_csr_free(R); spasm_csr_free(K2);
#endif
	spasm_csr_free(A); spasm_lu_free(F);
#elif OP == 5
	struct spasm_csr *A = hx_csr(NR, NC, D, "a");
	u8 hash[32];
	for (int k = 0; k < 32; k++) hash[k] = 7 * k;
	struct echelonize_opts o;
	spasm_echelonize_init_opts(&o);
	o.L = 1;
	struct spasm_lu *F = spasm_echelonize(A, &o);
	struct spasm_rank_certificate *pf = NULL, q;
	OOM(pf = spasm_certificate_rank_create(A, hash, F));
	OOM(spasm_certificate_rank_verify(A, hash, pf));
	io_tokens = 1;
	FILE *g = io_sink();
	OOM(spasm_rank_certificate_save(pf, g));
	int len, ok = 0;
	const char *d = io_data(g, &len);
	static char c[4096];
	for (int k = 0; k < len; k++) c[k] = d[k];
	FILE *f = io_open(c, len);
	OOM(ok = spasm_rank_certificate_load(f, &q));
	sx_assert(ok, "loaded");
	spasm_csr_free(A); spasm_lu_free(F);
#elif OP == 6
	struct spasm_csr *A = hx_pattern(NR, NC, D, "a");
	struct spasm_dm *DM = NULL;
	OOM(DM = spasm_dulmage_mendelsohn(A));
	spasm_dm_free(DM);
#if NR == NC
	OOM(DM = spasm_strongly_connected_components(A));
	spasm_dm_free(DM);
#endif
	spasm_csr_free(A);
#else
	struct spasm_csr *A = hx_csr(NR, NC, D, "a"), *B = NULL;
	int p[NR + 1], q[NC + 1], jm[NR + 1], im[NC + 1], *r = NULL;
	hx_injective(NR, NR, p, "p");
	for (int j = 0; j < NC; j++) q[j] = j;
	OOM(r = spasm_pinv(p, NR)); free(r);
	OOM(B = spasm_permute(A, p, q, true)); spasm_csr_free(B);
	OOM(r = spasm_random_permutation(NR)); free(r);
	OOM(spasm_range_pvec(q, 0, NC, q));
	OOM(spasm_maximum_matching(A, jm, im));
	OOM(r = spasm_permute_row_matching(NR, jm, p, q)); free(r);
	OOM(r = spasm_permute_column_matching(NC, im, p, q)); free(r);
	OOM(r = spasm_submatching(jm, 0, NR, 0, NC)); free(r);
	spasm_csr_free(A);
#endif
	sx_reach("no failure");
}

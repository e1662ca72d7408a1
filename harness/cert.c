/* rank certificates (C17).  OP 0: certificates of real factorizations verify; 1: the verifier decides the two equations on any certificate */
#include "hx.h"
#ifndef NR
#define NR 2
#define NC 2
#endif
#ifndef RMAX
#define RMAX 2
#endif
#ifndef BITS
#define BITS 255
#endif
int hx_challenge(const u8 *seed, i64 prime, int k);
static int D[NR * NC + 1];
void harness(void)
{
	struct spasm_csr *A = hx_csr(NR, NC, D, "a");
	u8 hash[32];
	for (int k = 0; k < 32; k++) hash[k] = 17 * k + 200;
#if OP == 0
	struct echelonize_opts o;
	spasm_echelonize_init_opts(&o);
	o.L = 1;
#ifdef OPTS
	OPTS
#endif
	struct spasm_lu *F = spasm_echelonize(A, &o);
	struct spasm_rank_certificate *pf = spasm_certificate_rank_create(A, hash, F);
	int r = hx_rank(NR, NC, D);
	sx_assert(pf->r == r, "the certificate states the rank");
	sx_assert(pf->prime == P, "the certificate states the prime");
	for (int k = 0; k < 32; k++) sx_assert(pf->hash[k] == hash[k], "the certificate contains the hash");
	unsigned si = 0, sj = 0;
	for (int k = 0; k < r; k++) {
		sx_assert(pf->i[k] >= 0 && pf->i[k] < NR && !((si >> pf->i[k]) & 1), "distinct rows in range");
		sx_assert(pf->j[k] >= 0 && pf->j[k] < NC && !((sj >> pf->j[k]) & 1), "distinct columns in range");
		si |= 1u << pf->i[k]; sj |= 1u << pf->j[k];
	}
	sx_assert(spasm_certificate_rank_verify(A, hash, pf), "an honest certificate verifies, whatever the challenge");
	/* another hash or prime is refused */
	int b = sx_choose(32, "byte");
	hash[b] ^= 1 << (b % 8);
	sx_assert(!spasm_certificate_rank_verify(A, hash, pf), "another hash is refused");
	hash[b] ^= 1 << (b % 8);
	pf->prime += 2;
	sx_assert(!spasm_certificate_rank_verify(A, hash, pf), "another prime is refused");
	sx_reach(r < NR && r < NC ? "rank deficient" : "full rank");
	free(pf->i); free(pf->j); free(pf->x); free(pf->y); free(pf);
	spasm_lu_free(F);
#else
	struct spasm_rank_certificate pf;
	int mode = MODE, r = sx_choose(RMAX + 1, "r");
	pf.r = r;
	pf.prime = P;
	memcpy(pf.hash, hash, 32);
	pf.i = spasm_malloc(r * sizeof(int)); pf.j = spasm_malloc(r * sizeof(int)); pf.x = spasm_malloc(r * sizeof(int)); pf.y = spasm_malloc(r * sizeof(int));
	int legit = 1;
	for (int k = 0; k < r; k++) {
		if (mode == 1) { pf.i[k] = sx_int(-2147483647 - 1, 2147483647, "i"); pf.j[k] = sx_int(-2147483647 - 1, 2147483647, "j"); }
		else { pf.i[k] = sx_choose(NR, "i"); pf.j[k] = sx_choose(NC, "j"); }
		pf.x[k] = sx_ff(P, "x"); pf.y[k] = sx_ff(P, "y");
	}
	if (mode == 1) for (int k = 0; k < r; k++) if (pf.i[k] < 0 || pf.i[k] >= NR || pf.j[k] < 0 || pf.j[k] >= NC) legit = 0;
	int df = 0;
	if (mode == 2) for (int k = 0; k < 32; k++) { pf.hash[k] = sx_int(0, 255, "hash"); df |= pf.hash[k] ^ hash[k]; }
	if (mode == 3) { pf.prime = sx_i64(2, 5000000000LL, "prime"); if (pf.prime != P) legit = 0; }
	if (mode == 4) { pf.r = sx_int(-2147483647 - 1, -1, "rank"); legit = 0; }
	int ok = spasm_certificate_rank_verify(A, hash, &pf);
	sx_assert(ok == 0 || ok == 1, "boolean");
	if (df) legit = 0;
	if (!legit) { sx_assert(!ok, "refused: hash, prime, rank or position"); sx_reach("refused"); sx_done(); }
	/* first equation: the combination of the designated rows with coefficients x matches the challenge on the designated columns */
	int x[NR + 1], c = 0, want = 1;
	for (int i = 0; i < NR; i++) x[i] = 0;
	for (int k = 0; k < r; k++) x[pf.i[k]] = pf.x[k];
	for (int k = 0; k < r; k++) {
		int s = 0;
		for (int i = 0; i < NR; i++) s = sx_ff_axpy(P, x[i], D[i * NC + pf.j[k]], s);
		int h = hx_challenge(hash, P, c++);
		if (s != h) want = 0;
	}
	/* second: y on the designated rows, challenge on the others, a vanishing combination */
	int in[NR + 1];
	for (int i = 0; i < NR; i++) in[i] = 0;
	for (int k = 0; k < r; k++) { x[pf.i[k]] = pf.y[k]; in[pf.i[k]] = 1; }
	for (int i = 0; i < NR; i++) if (!in[i]) x[i] = hx_challenge(hash, P, c++);
	for (int j = 0; j < NC; j++) {
		int s = 0;
		for (int i = 0; i < NR; i++) s = sx_ff_axpy(P, x[i], D[i * NC + j], s);
		if (s != 0) want = 0;
	}
	sx_assert(ok == want, "accepted exactly when the two equations hold");
	sx_reach(ok ? "accepted" : "refused");
	free(pf.i); free(pf.j); free(pf.x); free(pf.y);
#endif
	spasm_csr_free(A);
	sx_assert(sx_heap_live() == 0, "everything allocated has been released");
}

/* solvers, kernels, reduced forms and LU factorizations on top of a factorization.
   FACT 0: spasm_echelonize of a symbolic NR x NC matrix with options OPTS; 1: a symbolic echelonized U (NR x NC, NR <= NC)
   OP 0 LU (C13), 1 solve (C14), 2 gesv (C14), 3 kernel (C15), 4 rref (C16), 5 kernel from rref (C15) */
#include "hx.h"
#ifndef NR
#define NR 2
#define NC 3
#endif
#ifndef NB
#define NB 2
#endif
#ifndef FACT
#define FACT 0
#endif
static int A_[NR * NC + 1], U_[(NR + 1) * NC + 1];
static int dot(const int *a, const int *b, int n) { int s = 0; for (int i = 0; i < n; i++) s = sx_ff_axpy(P, a[i], b[i], s); return s; }
/* is b in the row space described by the echelonized U? */
static int in_space(const int *b, const struct spasm_csr *U, int r)
{
	int row[NC + 1], zero = 1;
	for (int j = 0; j < NC; j++) row[j] = b[j];
	hx_reduce(row, U_, U, r, NC);
	for (int j = 0; j < NC; j++) if (row[j] != 0) zero = 0;
	return zero;
}
static void check_kernel(const struct spasm_csr *K, int r, const int *qinv)
{
	int KD[NC * NC + 1];
	sx_assert(K->n == NC - r, "the kernel has (columns - rank) rows");
	hx_dense(K, NC - r, NC, KD);
	for (int k = 0; k < NC - r; k++) {
		for (int i = 0; i < NR; i++) sx_assert(dot(KD + k * NC, A_ + i * NC, NC) == 0, "each row of the kernel is orthogonal to the matrix");
		for (i64 px = K->p[k]; px < K->p[k + 1]; px++) sx_assert(K->x[px] != 0, "no stored zero");
	}
	/* independence: restricted to the non-pivotal columns, each row of the basis has an entry of its own; otherwise compute the rank */
	sx_assert(hx_rank(NC - r, NC, KD) == NC - r, "the rows of the kernel are independent");
	for (i64 px = 0; px < K->p[K->n]; px++) { sx_out(K->j[px]); sx_out(K->x[px]); }
}
void harness(void)
{
	int n = NR, r;
	struct spasm_lu *F;
	struct spasm_csr *A = NULL;
#if FACT == 0
	A = hx_csr(NR, NC, A_, "a");
	struct echelonize_opts o;
	spasm_echelonize_init_opts(&o);
#if OP <= 2
	o.L = 1;
	o.complete = 1;
#endif
#ifdef OPTS
	OPTS
#endif
	F = spasm_echelonize(A, &o);
	r = F->U->n;
	hx_dense(F->U, r, NC, U_);
#else
	int piv[NR + 1];
	F = hx_fact(NR, NC, A_, piv, 0);
	for (int i = 0; i < NR * NC; i++) U_[i] = A_[i];
	r = NR;
#endif
#if OP <= 2
	struct spasm_csr *L = F->L;
#if FACT == 1
	/* a symbolic L, lower triangular up to a row permutation: A = L.U with NX rows */
#ifndef NX
#define NX NR
#endif
	static int LD[NX * NR + 1], AA[NX * NC + 1];
	n = NX;
	F->p = spasm_malloc(NR * sizeof(int));
	hx_injective(NR, NX, F->p, "p");
	int nnz = 0;
	for (int i = 0; i < NX; i++) {
		int jd = NR;
		for (int j = 0; j < NR; j++) if (F->p[j] == i) jd = j;
		for (int j = 0; j < NR; j++) { LD[i * NR + j] = jd < NR && j > jd ? 0 : jd == j ? sx_ffnz(P, "d") : sx_entry(P, "l"); nnz += LD[i * NR + j] != 0; }
	}
	L = F->L = spasm_csr_alloc(NX, NR, nnz, P, true);
	int kk = 0;
	for (int i = 0; i < NX; i++) {
		for (int j = 0; j < NR; j++) if (LD[i * NR + j] != 0) { L->j[kk] = j; L->x[kk] = LD[i * NR + j]; kk++; }
		L->p[i + 1] = kk;
	}
	hx_shift(L);
	F->complete = true;
	for (int i = 0; i < NX; i++) for (int j = 0; j < NC; j++) { int s = 0; for (int k = 0; k < NR; k++) s = sx_ff_axpy(P, LD[i * NR + k], U_[k * NC + j], s); AA[i * NC + j] = s; }
#else
#define NX NR
	static int LD[NR * NR + 1];
	int *AA = A_;
	hx_dense(L, NR, r, LD);
#endif
#endif
#if OP == 0
	sx_assert(L != NULL, "L is returned when it is requested");
	sx_assert(L->m == r && L->n == NR, "dimensions of L");
	sx_assert(F->Ltmp == NULL || 1, "");
	unsigned pivotal = 0;
	for (int k = 0; k < r; k++) {
		int i = F->p[k];
		sx_assert(i >= 0 && i < NR, "row pivot in range");
		sx_assert(!((pivotal >> i) & 1), "one pivot per row");
		pivotal |= 1u << i;
		sx_assert(LD[i * r + k] != 0, "L has a nonzero diagonal");
		for (int l = k + 1; l < r; l++) sx_assert(LD[i * r + l] == 0, "L is triangular in pivot order");
	}
	for (int i = 0; i < NR; i++) {
		if (!((pivotal >> i) & 1) && !F->complete) continue;
		for (int j = 0; j < NC; j++) {
			int s = 0;
			for (int k = 0; k < r; k++) s = sx_ff_axpy(P, LD[i * r + k], U_[k * NC + j], s);
			sx_assert(s == A_[i * NC + j], "L.U = A on the pivotal rows, on every row when complete");
		}
	}
	if (o.complete) sx_assert(F->complete, "a complete factorization is returned when it is requested");
	for (int seed = 1; seed <= 2; seed++) sx_assert(spasm_factorization_verify(A, F, seed), "the verifier accepts the factorization");
	sx_out(r);
	sx_reach(r < NR && r < NC ? "rank deficient" : "full rank");
#elif OP == 1
	int b[NC + 1], b0[NC + 1], x[NX + 1];
#ifdef COMB         /* any combination of three rows, plus any multiple of one coordinate */
	int c[3], at = sx_choose(NC + 1, "at"), d = at < NC ? sx_ffnz(P, "d") : 0;
	for (int k = 0; k < 3; k++) c[k] = sx_ff(P, "c");
	for (int j = 0; j < NC; j++) {
		int v = j == at ? d : 0;
		for (int k = 0; k < 3; k++) v = sx_ff_axpy(P, c[k], A_[k * (NR - 1) / 2 * NC + j], v);
		b[j] = b0[j] = v;
	}
#else
	for (int j = 0; j < NC; j++) b[j] = b0[j] = sx_ff(P, "b");
#endif
	for (int i = 0; i < NX + 1; i++) x[i] = 99;
	int ok = spasm_solve(F, b, x);
	sx_assert(x[NX] == 99, "nothing written past the end of x");
	int sol = in_space(b0, F->U, r);
	sx_assert(ok == sol, "a solution is reported exactly when the right-hand side belongs to the row space");
	for (int j = 0; j < NC; j++) {
		sx_assert(b[j] == b0[j], "the right-hand side is not modified");
		if (!ok) continue;
		int s = 0;
		for (int i = 0; i < NX; i++) s = sx_ff_axpy(P, x[i], AA[i * NC + j], s);
		sx_assert(s == b0[j], "x.A = b");
	}
	if (ok) for (int i = 0; i < NX; i++) sx_out(x[i]);
	sx_reach(ok ? "solvable" : "no solution");
#elif OP == 2
	int BD[NB * NC + 1], XD[NB * NX + 1];
#ifdef COMB         /* NB - 1 multiples of rows of A around a row with one entry at any place */
	int at = sx_choose(NC, "at"), lone = sx_choose(NB, "lone");
	for (int j = 0; j < NB * NC; j++) BD[j] = 0;
	for (int k = 0; k < NB; k++) {
		int c = k == lone ? 1 : sx_ffnz(P, "c"), i = k * (NR - 1) / NB;
		for (int j = 0; j < NC; j++) {
			if (k == lone ? j != at : A_[i * NC + j] == 0) continue;
			BD[k * NC + j] = k == lone ? 1 : sx_ff_mul(P, c, A_[i * NC + j]);
		}
	}
	struct spasm_csr *B = hx_from_dense(NB, NC, BD, 0);
#else
	struct spasm_csr *B = hx_csr(NB, NC, BD, "b");
#endif
	bool ok[NB + 1];
	ok[NB] = 7;
	int want = sx_choose(2, "wantflags");
	struct spasm_csr *X = spasm_gesv(F, B, want ? ok : NULL);
	hx_dense(X, NB, NX, XD);
	unsigned flags = 0;
	for (int k = 0; k < NB; k++) {
		int sol = in_space(BD + k * NC, F->U, r);
		if (want) sx_assert(ok[k] == sol, "each flag tells whether that right-hand side belongs to the row space");
		flags |= sol << k;
		if (sol) for (int j = 0; j < NC; j++) {
			int s = 0;
			for (int i = 0; i < NX; i++) s = sx_ff_axpy(P, XD[k * NX + i], AA[i * NC + j], s);
			sx_assert(s == BD[k * NC + j], "X[k].A = B[k]");
		}
	}
	sx_reach(flags == 0 ? "none solvable" : flags == (1u << NB) - 1 ? "all solvable" : "some solvable");
	spasm_csr_free(B); spasm_csr_free(X);
#elif OP == 3
	struct spasm_csr *K = spasm_kernel(F);
	check_kernel(K, r, F->qinv);
	sx_reach(r < NC ? "kernel" : "trivial kernel");
	spasm_csr_free(K);
#elif OP == 4 || OP == 5
	int qinv[NC + 1], RD[NC * NC + 1];
	qinv[NC] = 99;
	struct spasm_csr *R = spasm_rref(F, qinv);
	sx_assert(qinv[NC] == 99, "nothing written past the end of the pivot map");
#if OP == 4
	hx_dense(R, r, NC, RD);
	for (int i = 0; i < r; i++) {
		sx_assert(R->p[i] < R->p[i + 1], "rows are not empty");
		int j = R->j[R->p[i]];
		sx_assert(R->x[R->p[i]] == 1, "the pivot is stored first and is 1");
		sx_assert(qinv[j] == i, "the pivot map locates the pivots");
		sx_assert(F->qinv[j] >= 0, "same pivotal columns");
		for (int k = 0; k < r; k++) if (k != i) sx_assert(RD[k * NC + j] == 0, "no other row has an entry on a pivotal column");
		for (i64 px = R->p[i]; px < R->p[i + 1]; px++) sx_assert(R->x[px] != 0, "no stored zero");
		int row[NC];
		for (int k = 0; k < NC; k++) row[k] = RD[i * NC + k];
		hx_reduce(row, U_, F->U, r, NC);
		for (int k = 0; k < NC; k++) sx_assert(row[k] == 0, "each row belongs to the row space");
	}
	for (int j = 0; j < NC; j++) sx_assert(qinv[j] >= -1 && qinv[j] < r && (qinv[j] >= 0) == (F->qinv[j] >= 0), "pivot map");
	for (i64 px = 0; px < R->p[r]; px++) { sx_out(R->j[px]); sx_out(R->x[px]); }
	sx_reach(r < NC ? "reduced" : "identity");
#else
	hx_shift(R);
	struct spasm_csr *K = spasm_kernel_from_rref(R, qinv);
	check_kernel(K, r, qinv);
	for (i64 px = 0; px < K->p[K->n]; px++) if (!sx_is_symbolic(K->x[px])) sx_assert(hx_balanced(K->x[px]), "reduced coefficients");
	sx_reach(r < NC ? "kernel" : "trivial kernel");
	spasm_csr_free(K);
#endif
	spasm_csr_free(R);
#endif
	/* the factorization is not modified */
	int U2[(NR + 1) * NC + 1];
	hx_dense(F->U, r, NC, U2);
	for (int i = 0; i < r * NC; i++) sx_assert(U2[i] == U_[i], "U is not modified");
	spasm_csr_free(A);
	spasm_lu_free(F);
	sx_assert(sx_heap_live() == 0, "everything allocated has been released");
}

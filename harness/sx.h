/* Interface between harnesses and the symbolic executor.  The same harness compiles natively (-DSX_REPLAY) and then
   replays the inputs of a counterexample against the real library. */
#ifndef SX_H
#define SX_H
#include "spasm.h"
#include <stdlib.h>
#include <string.h>
/* functions of the environment that a harness replaces by a model, in the engine and in the native replay */
#ifdef SX_REPLAY
#define STUB(f) f
#else
#define STUB(f) stub__##f
#endif
int  sx_int(int lo, int hi, const char *name);            /* any integer in [lo, hi] */
i64  sx_i64(i64 lo, i64 hi, const char *name);
int  sx_choose(int n, const char *name);                  /* any of 0..n-1, explored separately (structure) */
int  sx_ff(i64 p, const char *name);                      /* any element of GF(p), balanced representative */
int  sx_entry(i64 p, const char *name);                  /* any element of GF(p); zero and nonzero are explored separately (decided by the solver) */
int  sx_ffnz(i64 p, const char *name);                    /* any nonzero element of GF(p) */
void sx_assume(int c);
void sx_assert(int c, const char *msg);
void sx_fail(const char *msg);
void sx_reach(const char *what);
void sx_done(void);                                        /* the path ends here, successfully */
void sx_out(int v);                                       /* value compared between the symbolic run and its native replay */
void sx_print(const char *what, i64 v);
int  sx_is_symbolic(int v);
int  sx_live(const void *p);
i64  sx_objsize(const void *p);
void sx_far(const void *p, i64 lo);                        /* nothing is to be looked at below this offset */
int  sx_fix(int v);                                       /* v itself (the engine replaces it by a constant when its inputs are all decided on the path) */
i64  sx_heap_live(void);
int  sx_oom(int v);                                        /* 1: from now on one allocation may fail (explored for each), 0: no more; returns what it was, 2 after a failure */
int  sx_threads(void);
int sx_ff_add(i64 p, int a, int b); int sx_ff_sub(i64 p, int a, int b); int sx_ff_mul(i64 p, int a, int b); int sx_ff_neg(i64 p, int a); int sx_ff_inv(i64 p, int a); int sx_ff_axpy(i64 p, int a, int x, int y); int sx_ff_init(i64 p, i64 x);
/* with HX_OFF the entries of the input matrices lie far away in their arrays (C23); the place is chosen by the harness */
static i64 hx_off;
static struct spasm_csr *hx_shift(struct spasm_csr *A)
{
#ifdef HX_OFF
	if (!hx_off) {
		const i64 where[4] = {2147483646LL, 2147483648LL, 2147483647LL, 2147483650LL};
		hx_off = where[sx_choose(HX_OFF, "offset")];
	}
	i64 nz = A->p[A->n], room = A->nzmax;
	int *j = spasm_malloc((hx_off + room) * sizeof(int)), *x = A->x ? spasm_malloc((hx_off + room) * sizeof(int)) : NULL;
	for (i64 k = 0; k < nz; k++) { j[hx_off + k] = A->j[k]; if (x) x[hx_off + k] = A->x[k]; }
	free(A->j); free(A->x);
	sx_far(j, hx_off * (i64) sizeof(int));
	if (x) sx_far(x, hx_off * (i64) sizeof(int));
	A->j = j; A->x = x; A->nzmax = hx_off + room;
	for (int i = 0; i <= A->n; i++) A->p[i] += hx_off;
#endif
	return A;
}
#endif

/* sparse matrix times vector products and scatter (C07) */
#include "hx.h"
#ifndef NR
#define NR 2
#define NC 3
#endif
#define L (NR > NC ? NR : NC)
void harness(void)
{
	int D[NR * NC + 1];
	struct spasm_csr *A = hx_csr_ord(NR, NC, D, "a", sx_choose(3, "ord"));
	int x[L + 1], y[L + 1], z[L + 1];
	for (int i = 0; i < L + 1; i++) { x[i] = sx_ff(P, "x"); y[i] = z[i] = sx_ff(P, "y"); }
	int xs[L + 1];
	for (int i = 0; i < L + 1; i++) xs[i] = x[i];
	int op = sx_choose(2 + NR, "op");
	if (op == 0) {
		spasm_xApy(x, A, y);
		for (int j = 0; j < NC; j++) for (int i = 0; i < NR; i++) z[j] = sx_ff_axpy(P, x[i], D[i * NC + j], z[j]);
	} else if (op == 1) {
		spasm_Axpy(A, x, y);
		for (int j = 0; j < NC; j++) for (int i = 0; i < NR; i++) z[i] = sx_ff_axpy(P, x[j], D[i * NC + j], z[i]);
	} else {
		spasm_scatter(A, op - 2, x[0], y);
		for (int j = 0; j < NC; j++) z[j] = sx_ff_axpy(P, x[0], D[(op - 2) * NC + j], z[j]);
	}
	for (int i = 0; i < L + 1; i++) { sx_assert(y[i] == z[i], "the product, exactly, is added to the vector"); sx_assert(xs[i] == x[i], "the operand is not modified"); sx_out(y[i]); }
	int E[NR * NC + 1];
	hx_dense(A, NR, NC, E);
	for (int i = 0; i < NR * NC; i++) sx_assert(E[i] == D[i], "the matrix is not modified");
	sx_reach(op == 0 ? "xApy" : op == 1 ? "Axpy" : "scatter");
	spasm_csr_free(A);
	sx_assert(sx_heap_live() == 0, "no allocation");
}

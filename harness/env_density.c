/* model: the density estimate (a statistical sample driven by rand()) is an arbitrary value.  It only selects strategies and initial sizes. */
#include "sx.h"
double STUB(spasm_schur_estimate_density)(const struct spasm_csr *A, const int *p, int n, const struct spasm_csr *U, const int *qinv, int R)
{
	(void) A; (void) p; (void) U; (void) qinv; (void) R;
	if (n == 0) return 0;
#ifdef DENSK    /* the same estimate every time */
	static int fixed = -1;
	if (fixed < 0) fixed = sx_choose(3, "density");
	int c = fixed;
#else
	int c = sx_choose(3, "density");
#endif
	return c == 0 ? 0.0 : c == 1 ? 1.0 : 0.03125;
}

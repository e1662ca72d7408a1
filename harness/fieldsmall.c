/* field arithmetic with operands chosen by the solver: all of them when PP is small, boundary values otherwise */
#include "sx.h"
static i64 lo, hi, p = PP;
static i64 pick(const char *n)
{
#ifdef ALL
	return lo + sx_choose(p, n);
#else
	int c = sx_choose(11, n);
	i64 v[11] = {0, 1, -1, hi, lo, hi - 1, lo + 1, hi / 2, lo / 2, p / 3 > hi ? hi : p / 3, 46341 > hi ? hi : 46341};
	return v[c];
#endif
}
static void ck(i64 r, i64 e, const char *m) { sx_assert(r >= lo && r <= hi && (e - r) % p == 0, m); }
void harness(void)
{
	spasm_field F;
	spasm_field_init(p, F);
	lo = p / 2 - p + 1; hi = p / 2;
	int op = sx_choose(5, "op");
	i64 a = pick("a");
	if (op == 0) {
		i64 big[7] = {0, p, -p, 3 * p, -3 * p, 0x7fffffffffffffffLL / p / 2 * p, -(0x7fffffffffffffffLL / p / 2 * p)};
		i64 x = a + big[sx_choose(7, "offset")];
		ck(spasm_ZZp_init(F, x), x, "init is exact");
	} else {
		i64 b = pick("b");
		if (op == 1) ck(spasm_ZZp_add(F, a, b), a + b, "addition is exact");
		if (op == 2) ck(spasm_ZZp_sub(F, a, b), a - b, "subtraction is exact");
		if (op == 3) ck(spasm_ZZp_mul(F, a, b), a * b, "multiplication is exact");
		if (op == 4) { i64 c = pick("c"); ck(spasm_ZZp_axpy(F, a, b, c), a * b + c, "multiply-add is exact"); }
	}
	sx_reach("checked");
}

/* inversion: every unit modulo PP when PP is small, neighbourhoods of 0, p/k and random-looking values otherwise */
#include "sx.h"
void harness(void)
{
	i64 p = PP, lo = p / 2 - p + 1, hi = p / 2;
	spasm_field F;
	spasm_field_init(p, F);
	i64 a;
#ifdef ALL
	a = lo + sx_choose(p, "a");
#else
	int k = sx_choose(256, "k"), c = sx_choose(6, "class");
	if (c == 0) a = 1 + k; else if (c == 1) a = -1 - k; else if (c == 2) a = hi - k; else if (c == 3) a = lo + k;
	else if (c == 4) a = p / (k + 2) > hi ? hi : p / (k + 2); else a = (i64) (((u64) (k + 1) * 2654435761u) % (u64) p) + lo;
	if (a < lo || a > hi) a = 1;
#endif
	if (a == 0) return;
	i64 r = spasm_ZZp_inverse(F, a);
	sx_assert(r >= lo && r <= hi, "inverse is a balanced representative");
	i64 pr = a * r % p;
	sx_assert(pr == 1 || pr == 1 - p, "a * inverse(a) = 1");
	sx_reach("inverse checked");
}

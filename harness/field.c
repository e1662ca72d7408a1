/* field arithmetic, every reduced operand, prime PP (concrete).  OP: 0 init, 1 add, 2 sub, 3 mul, 4 axpy.
   Native replay: the operands of the counterexample first, then a directed search for concrete operands, because the
   solver works with an over-approximation of floating-point rounding and of the product. */
#include "sx.h"
#ifndef OP
#define OP 3
#endif
static const i64 pp = PP;
static i64 lo_, hi_;
static int bad(spasm_field F, i64 a, i64 b, i64 c)
{
	i64 r, e;
	int ra = a, rb = b, rc = c;
	switch (OP) {
	case 0: r = spasm_ZZp_init(F, a); e = a % pp; break;
	case 1: r = spasm_ZZp_add(F, ra, rb); e = a + b; break;
	case 2: r = spasm_ZZp_sub(F, ra, rb); e = a - b; break;
	case 3: r = spasm_ZZp_mul(F, ra, rb); e = a * b; break;
	default: r = spasm_ZZp_axpy(F, ra, rb, rc); e = a * b + c; break;
	}
	sx_assert(r >= lo_, "result not below the balanced interval");
	sx_assert(r <= hi_, "result not above the balanced interval");
	sx_assert((e - r) % pp == 0, "result congruent to the exact value");
	return 0;
}
void harness(void)
{
	spasm_field F;
	spasm_field_init(pp, F);
	sx_assert(F->p == pp, "the field records its prime");
	lo_ = pp / 2 - pp + 1; hi_ = pp / 2;
	i64 a, b = 0, c = 0;
	if (OP == 0) a = sx_i64(-0x7fffffffffffffffLL - 1, 0x7fffffffffffffffLL, "x");
	else { a = sx_i64(lo_, hi_, "a"); b = sx_i64(lo_, hi_, "b"); if (OP == 4) c = sx_i64(lo_, hi_, "c"); }
	bad(F, a, b, c);
	sx_reach("result checked");
#ifdef SX_REPLAY
	if (getenv("SX_SEARCH")) {
		u64 s = 88172645463325252ULL;
		i64 e[64]; int ne = 0;
		i64 big = OP ? hi_ : 0x7fffffffffffffffLL, sml = OP ? lo_ : -0x7fffffffffffffffLL - 1;
		for (int k = 0; k < 8; k++) { if (k <= hi_) { e[ne++] = k; } if (-k >= lo_) e[ne++] = -k; if (big - k >= sml) e[ne++] = big - k; if (sml + k <= big) e[ne++] = sml + k; e[ne++] = big / 2 > k ? big / 2 - k : big; }
		if (OP == 0) for (int k = -2; k <= 2; k++) { e[ne++] = pp + k; e[ne++] = -pp + k; e[ne++] = pp / 2 + k; e[ne++] = -pp / 2 + k; e[ne++] = 1000 * pp + k; }
		for (int i = 0; i < ne; i++) for (int j = 0; j < ne; j++) for (int k = 0; k < (OP == 4 ? ne : 1); k++) bad(F, e[i], e[j], e[k]);
		for (int it = 0; it < 20000000; it++) {
			i64 v[3];
			for (int t = 0; t < 3; t++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; v[t] = OP == 0 ? (i64) s : (i64) (s % (u64) pp) + lo_; }
			/* products next to a multiple of p, where the rounded quotient is most fragile */
			if (OP >= 3 && (it & 1)) { i64 a0 = v[0] ? v[0] : 1, k = v[1]; __int128 q = (__int128) k * pp / a0; if (q >= lo_ && q <= hi_) { v[0] = a0; v[1] = q; } }
			bad(F, v[0], v[1], v[2]);
		}
	}
#endif
}

/* model of the challenge generator (decided by C06): an arbitrary stream of field elements, the same each time the generator is
   seeded with the same (seed, prime, sequence number) */
#include "hx.h"
#define MAXS 6
#define MAXC 40
static u8 sd[MAXS][32]; static i64 pr[MAXS]; static u32 sq[MAXS]; static int ns, val[MAXS][MAXC], nv[MAXS];
static int find(const u8 *seed, i64 prime, u32 seq)
{
	for (int s = 0; s < ns; s++) {
		int same = pr[s] == prime && sq[s] == seq;
		for (int k = 0; k < 32 && same; k++) same = sd[s][k] == seed[k];
		if (same) return s;
	}
	sx_assert(ns < MAXS, "generator model: too many seeds");
	for (int k = 0; k < 32; k++) sd[ns][k] = seed[k];
	pr[ns] = prime; sq[ns] = seq; nv[ns] = 0;
	return ns++;
}
void STUB(spasm_prng_seed)(const u8 *seed, i64 prime, u32 seq, spasm_prng_ctx *ctx) { ctx->counter = 1000 * find(seed, prime, seq); }
int hx_challenge(const u8 *seed, i64 prime, int k)
{
	int s = find(seed, prime, 0);
	sx_assert(k < MAXC, "generator model: too many draws");
	while (nv[s] <= k) val[s][nv[s]++] = sx_ff(prime, "challenge");
	return val[s][k];
}
spasm_ZZp STUB(spasm_prng_ZZp)(spasm_prng_ctx *ctx)
{
	int s = ctx->counter / 1000, k = ctx->counter % 1000;
	sx_assert(s < ns && k < MAXC, "generator model: not seeded");
	ctx->counter++;
	while (nv[s] <= k) val[s][nv[s]++] = sx_ff(pr[s], "challenge");
	return val[s][k];
}

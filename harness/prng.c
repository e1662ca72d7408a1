/* C06: the generator is its hash function in counter mode with rejection.  The hash is an arbitrary function (C05 decides that
   it is SHA-256): the k-th digest is made of symbolic words, and what is hashed is recorded.
   JUMP: the context is put in the state it has after any number of digests (whatever the fields that hold the counter, they are those
   that the seeding set), so that the stream is decided at any distance from its origin.
   SEEDING 0: 32 bytes, 1: a number.  NDRAW elements after SKIP raw words, then the same generator is seeded again. */
#include "hx.h"
#include <arpa/inet.h>
#ifndef NDRAW
#define NDRAW 2
#endif
#ifndef MAXREJ
#define MAXREJ 2
#endif
#define MAXB 6
static u8 in[MAXB][64]; static int nin[MAXB], calls = -1; static u32 W[MAXB][8];
void STUB(spasm_SHA256_init)(spasm_sha256_ctx *c) { memset(c, 0, sizeof(*c)); calls++; sx_assume(calls < MAXB); nin[calls] = 0; }
void STUB(spasm_SHA256_update)(spasm_sha256_ctx *c, const void *d, size_t n) { (void) c; sx_assert(nin[calls] + n <= 64, "one small block is hashed"); for (size_t k = 0; k < n; k++) in[calls][nin[calls]++] = ((const u8 *) d)[k]; }
void STUB(spasm_SHA256_final)(u8 *h, spasm_sha256_ctx *c)
{
	(void) c;
	for (int k = 0; k < 8; k++) { u32 w = (u32) sx_i64(0, 0xffffffffll, "word"); W[calls][k] = w; h[4 * k] = w >> 24; h[4 * k + 1] = w >> 16; h[4 * k + 2] = w >> 8; h[4 * k + 3] = w; }
}
static void be(const u8 *b, u32 v, const char *msg) { sx_assert(b[0] == (u8) (v >> 24) && b[1] == (u8) (v >> 16) && b[2] == (u8) (v >> 8) && b[3] == (u8) v, msg); }
static u8 seed[32]; static int first;
static void check_block(int call, u32 counter, u32 seq)
{
	sx_assert(nin[call] == 44, "seed, prime, counter and sequence number are hashed");
	for (int k = 0; k < 32; k++) sx_assert(in[call][k] == seed[k], "the seed is hashed");
	be(in[call] + 32, (u32) P, "the prime is hashed");
	be(in[call] + 36, counter, "the block counter is hashed");
	be(in[call] + 40, seq, "the sequence number is hashed");
}
void harness(void)
{
	spasm_prng_ctx *c = spasm_malloc(sizeof(*c));
	i64 mask = 1;
	while (mask < P) mask *= 2;
	mask--;
	for (int round = 0; round < 2; round++) {
		u32 seq = (u32) sx_i64(0, 0xffffffffll, "sequence");
		first = calls + 1;
#if SEEDING == 0
		for (int k = 0; k < 32; k++) seed[k] = sx_int(0, 255, "seed");
		spasm_prng_seed(seed, P, seq, c);
#else
		u32 lo = (u32) sx_i64(0, 0xffffffffll, "seedlo"), hi = (u32) sx_i64(0, 0xffffffffll, "seedhi");
		for (int k = 0; k < 32; k++) seed[k] = k < 4 ? lo >> (24 - 8 * k) : k < 8 ? hi >> (56 - 8 * k) : 0;
		spasm_prng_seed_simple(P, ((u64) hi << 32) | lo, seq, c);
#endif
		sx_assert(calls == first, "seeding hashes one block");
		check_block(first, 0, seq);
		u32 base = 1;
		int pos = 0;
#ifdef JUMP
		if (round == 0) {
			if (c->counter != 1 || ntohl(c->block[9]) != 1 || c->i != 0) return;    /* another representation of the state */
			base = (u32) sx_i64(1, 0xfffffff0ll, "digests so far");
			c->counter = base; c->block[9] = htonl(base); c->i = 8; pos = 8;
		}
#endif
		int skip = round ? 0 : sx_choose(10, "skip"), rej = 0;
		int start = pos;
		for (int k = 0; k < skip; k++) {
			u32 x = spasm_prng_u32(c);
			sx_assert(x == W[first + pos / 8][pos % 8], "the words of the digests come out in order");
			pos++;
		}
		for (int k = 0; k < (round ? 1 : NDRAW); k++) {
			spasm_ZZp x = spasm_prng_ZZp(c);
			u32 w = W[first + pos / 8][pos % 8] & (u32) mask;
			while ((i64) w >= P) { rej++; sx_assume(rej <= MAXREJ); pos++; sx_assert(first + pos / 8 <= calls, "a rejected word is replaced by the next one"); w = W[first + pos / 8][pos % 8] & (u32) mask; }
			pos++;
			i64 e = (i64) w > P / 2 ? (i64) w - P : (i64) w;
			sx_assert((i64) x == e, "each accepted word yields its residue, balanced");
			sx_assert(x >= P / 2 - P + 1 && x <= P / 2, "the element is reduced");
		}
		sx_assert(calls == first + (pos > start ? (pos - 1) / 8 : 0), "a digest is computed only when the previous one is exhausted");
		for (int k = first; k <= calls; k++) check_block(k, k == first ? 0 : base + (k - first - 1), seq);
		if (rej) sx_reach("word rejected");
	}
	sx_reach("drawn");
	free(c);
}

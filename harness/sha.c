/* C05: SHA-256 against a transcription of FIPS 180-4.  Every byte of the message is symbolic.
   OP 0: message of one of the lengths LENS, fed in one, two or three pieces.  OP 1: from any intermediate state (any history of
   complete blocks, any message length so far), one piece then the final padding. */
#include "hx.h"
static u32 rotr(u32 x, int n) { return (x >> n) | (x << (32 - n)); }
static const u32 KK[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2 };
static void block(u32 *H, const u8 *b)
{
	u32 W[64];
	for (int t = 0; t < 16; t++) W[t] = ((u32) b[4 * t] << 24) | ((u32) b[4 * t + 1] << 16) | ((u32) b[4 * t + 2] << 8) | b[4 * t + 3];
	for (int t = 16; t < 64; t++) W[t] = (rotr(W[t - 2], 17) ^ rotr(W[t - 2], 19) ^ (W[t - 2] >> 10)) + W[t - 7] + (rotr(W[t - 15], 7) ^ rotr(W[t - 15], 18) ^ (W[t - 15] >> 3)) + W[t - 16];
	u32 a = H[0], bb = H[1], c = H[2], d = H[3], e = H[4], f = H[5], g = H[6], h = H[7];
	for (int t = 0; t < 64; t++) {
		u32 T1 = h + (rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25)) + ((e & f) ^ (~e & g)) + KK[t] + W[t];
		u32 T2 = (rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22)) + ((a & bb) ^ (a & c) ^ (bb & c));
		h = g; g = f; f = e; e = d + T1; d = c; c = bb; bb = a; a = T1 + T2;
	}
	H[0] += a; H[1] += bb; H[2] += c; H[3] += d; H[4] += e; H[5] += f; H[6] += g; H[7] += h;
}
/* pad and hash the n last bytes of a message whose total length is bits */
static void finish(u32 *H, const u8 *m, int n, u32 bhi, u32 blo, u8 *out)
{
	u8 b[64];
	while (n >= 64) { block(H, m); m += 64; n -= 64; }
	for (int k = 0; k < 64; k++) b[k] = k < n ? m[k] : k == n ? 0x80 : 0;
	if (n >= 56) { block(H, b); for (int k = 0; k < 64; k++) b[k] = 0; }
	for (int k = 0; k < 4; k++) { b[56 + k] = bhi >> (24 - 8 * k); b[60 + k] = blo >> (24 - 8 * k); }
	block(H, b);
	for (int k = 0; k < 32; k++) out[k] = H[k / 4] >> (24 - 8 * (k % 4));
}
static const int lens[] = { LENS };
#define NL ((int) (sizeof(lens) / sizeof(lens[0])))
void harness(void)
{
	u32 H[8] = { 0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19 };
	u8 ref[32], got[34];
	spasm_sha256_ctx *c = spasm_malloc(sizeof(*c));
	int n = lens[sx_choose(NL, "length")];
	u8 *m = spasm_malloc(n);
	for (int k = 0; k < n; k++) m[k] = sx_int(0, 255, "byte");
	got[32] = got[33] = 0xAB;
	u32 bhi = 0, blo = 8 * (u32) n;
	spasm_SHA256_init(c);
#if OP == 1
	/* the state after any number of complete blocks */
	for (int k = 0; k < 8; k++) { H[k] = sx_i64(0, 0xffffffffll, "h"); c->h[k] = H[k]; }
	u32 lo = sx_int(0, 0x3fffff, "blocks-lo"), hi = sx_int(0, 0x1ffffffe, "blocks-hi");
	lo = sx_choose(2, "carry") ? 0xfffffe00 : lo * 512;
	c->Nl = lo; c->Nh = hi;
	bhi = lo == 0xfffffe00 && blo >= 512 ? hi + 1 : hi;
	blo += lo;
#endif
	int a = 0, b = 0;
#ifdef PIECES
	a = sx_choose(n + 1, "cut");
	b = a;
	if (PIECES == 3) { static const int w[5] = { 0, 1, 7, 64, 71 }; b = a + w[sx_choose(5, "second")]; sx_assume(b <= n); }
#endif
	/* each piece from an exact-size buffer of its own: no read past its end */
	int s[4] = { 0, a, b, n };
	for (int t = 0; t < 3; t++) {
		int l = s[t + 1] - s[t];
		if (l == 0 && t != 1) continue;
		u8 *q = spasm_malloc(l);
		for (int k = 0; k < l; k++) q[k] = m[s[t] + k];
		spasm_SHA256_update(c, q, l);
		free(q);
	}
	spasm_SHA256_final(got, c);
	finish(H, m, n, bhi, blo, ref);
	for (int k = 0; k < 32; k++) { sx_assert(got[k] == ref[k], "the digest is the one of FIPS 180-4"); sx_out(got[k]); }
	sx_assert(got[32] == 0xAB && got[33] == 0xAB, "nothing written past the digest");
	sx_reach("hashed");
	free(c); free(m);
}

/* saved certificates (C18).  OP 0: save then load; 1: cut between or inside numbers, 2: a letter in place of a number */
#include "io.h"
#include "hx.h"
#ifndef RR
#define RR 2
#endif
static const int vals[6] = { 0, 7, -12, 2147483646, -2147483647, 1000000000 };
void harness(void)
{
	struct spasm_rank_certificate a, b;
	int r = RR, len;
	a.r = r;
	static const i64 primes[4] = { 3, 42013, 2147483659LL, 4294967291LL };
	a.prime = primes[sx_choose(4, "prime")];
	int hb = sx_choose(32, "byte"), hv = sx_choose(OP == 0 ? 16 : 1, "hex");
	for (int k = 0; k < 32; k++) a.hash[k] = k == hb ? 16 * hv + 15 - hv : 37 * k + 11;
	a.i = spasm_malloc(r * sizeof(int)); a.j = spasm_malloc(r * sizeof(int)); a.x = spasm_malloc(r * sizeof(int)); a.y = spasm_malloc(r * sizeof(int));
#if OP == 0
	/* every value symbolic: their decimal writing is that of the C library */
	io_tokens = 1;
	for (int k = 0; k < r; k++) { a.i[k] = sx_int(-2147483647, 2147483647, "i"); a.j[k] = sx_int(-2147483647, 2147483647, "j"); a.x[k] = sx_int(-2147483647, 2147483647, "x"); a.y[k] = sx_int(-2147483647, 2147483647, "y"); }
#else
	for (int k = 0; k < r; k++) { a.i[k] = 10 + k; a.j[k] = 1000 - k; a.x[k] = vals[k % 6]; a.y[k] = vals[(k + 3) % 6]; }
#endif
	FILE *f = io_sink();
	spasm_rank_certificate_save(&a, f);
	const char *d = io_data(f, &len);
	static char c[4096];
	for (int k = 0; k < len; k++) c[k] = d[k];
	int want = 1, anyv = 0;
#if OP == 1
	int cut = sx_choose(len, "cut"), last = len;        /* last: end of the last number */
	while (last > 0 && (c[last - 1] == ' ' || c[last - 1] == '\n')) last--;
	int lastnum = last;
	while (lastnum > 0 && c[lastnum - 1] != ' ' && c[lastnum - 1] != '\n') lastnum--;
	want = cut >= last;
	anyv = cut > lastnum && cut < last;                 /* inside the digits of the last number: another number */
	if (anyv && cut == lastnum + 1 && c[lastnum] == '-') { anyv = 0; }
	len = cut;
#elif OP == 2
	/* a letter at the start of a number (not in the hash) */
	int pos = sx_choose(len, "pos"), line = 0;
	for (int k = 0; k < pos; k++) line += c[k] == '\n';
	sx_assume(line != 2 && c[pos] != ' ' && c[pos] != '\n' && (pos == 0 || c[pos - 1] == ' ' || c[pos - 1] == '\n'));
	c[pos] = 'z';
	want = 0;
#endif
	int ok = spasm_rank_certificate_load(io_open(c, len), &b);
	if (!anyv) sx_assert(ok == want, "a complete certificate is loaded, a damaged one is refused");
	if (ok && !anyv) {
		sx_assert(b.r == a.r && b.prime == a.prime, "same rank and prime");
		for (int k = 0; k < 32; k++) sx_assert(b.hash[k] == a.hash[k], "same hash");
		for (int k = 0; k < r; k++) { sx_assert(b.i[k] == a.i[k] && b.j[k] == a.j[k], "same positions"); sx_assert(b.x[k] == a.x[k] && b.y[k] == a.y[k], "same values"); }
	}
	sx_reach(ok ? "loaded" : "refused");
}

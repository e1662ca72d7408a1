/* command-line programs (C25, C18).  TOOL: 0 rank, 1 kernel, 2 solve, 3 echelonize, 4 dm, 5 stack, 6 transpose, 7 vertical_swap, 8 check_cert
   ARGS: the arguments, e.g. "-l","-o","out".  LEFT, RREF, VERB, TRANSPOSE, OUT (name of the output file) describe what is expected */
#include <stdarg.h>
#include "io.h"
#include "hx.h"
int tool_main(int argc, char **argv);
#ifndef LEFT
#define LEFT 0
#endif
#ifndef RREF
#define RREF 0
#endif
#ifndef VERB
#define VERB 0
#endif
#ifndef NOTRANS
#define NOTRANS 0
#endif
#ifndef CERT
#define CERT 0
#endif
#ifndef OUT
#define OUT "-"
#endif
#ifndef RC      /* largest rank of an arbitrary certificate */
#define RC (NR < NC ? NR : NC)
#endif
#ifndef NB
#define NB 1
#endif
#define DIM 8
static int D[DIM * DIM], B[DIM * DIM], O[DIM * DIM], on, om, want_status;
static u8 fhash[32];
/* C05 decides that these compute SHA-256 */
#if TOOL == 0 || TOOL == 8
void STUB(spasm_SHA256_init)(spasm_sha256_ctx *c) { memset(c, 0, sizeof(*c)); }
void STUB(spasm_SHA256_update)(spasm_sha256_ctx *c, const void *d, size_t n) { (void) c; (void) d; (void) n; }
void STUB(spasm_SHA256_final)(u8 *h, spasm_sha256_ctx *c) { (void) c; for (int k = 0; k < 32; k++) h[k] = 3 * k + 1; }
#endif
static void text(struct io_text *t, int n, int m, const int *E, int rev)
{
	io_num(t, n); io_ch(t, ' '); io_num(t, m); io_str(t, " M\n");
	for (int k = 0; k < n * m; k++) {
		int e = rev ? n * m - 1 - k : k;
		if (E[e] == 0) continue;
		io_num(t, e / m + 1); io_ch(t, ' '); io_num(t, e % m + 1); io_ch(t, ' '); io_sym(t, E[e]); io_ch(t, '\n');
	}
	io_str(t, "0 0 0\n");
}
/* the matrix written by the program */
static void read_output(void)
{
	int len;
	const char *c = io_content(OUT, &len), *e;
	sx_assert(c != NULL, "the output is written where it should be");
	static char b[1 << 14];
	for (int k = 0; k < len; k++) b[k] = c[k];
	b[len] = 0;
	c = b;
	on = io_scan(&c); om = io_scan(&c);
	sx_assert(on >= 0 && on <= DIM && om >= 0 && om <= DIM, "dimensions of the output");
	while (*c == ' ') c++;
	sx_assert(*c == 'M' || *c == 'm', "header of the output"); c++;
	for (int k = 0; k < on * om; k++) O[k] = 0;
	for (;;) {
		int i = io_scan(&c), j = io_scan(&c), x = io_scan(&c);
		if (i == 0 && j == 0) break;
		sx_assert(i >= 1 && i <= on && j >= 1 && j <= om, "positions of the output");
		sx_assert(O[(i - 1) * om + j - 1] == 0, "one entry per position");
		sx_assert(x != 0, "no zero is written");
		O[(i - 1) * om + j - 1] = x;
	}
	e = c;
	while (*e == '\n' || *e == ' ') e++;
	sx_assert(*e == 0, "nothing after the end marker");
}
static int contains(const char *name, const char *what, const char **pos)
{
	int len;
	const char *c = io_content(name, &len);
	int l = strlen(what);
	for (int k = 0; c && k + l <= len; k++) { int t = 0; while (t < l && c[k + t] == what[t]) t++; if (t == l) { if (pos) *pos = c + k + l; return 1; } }
	return 0;
}
static int dot(const int *a, int sa, const int *b, int sb, int n) { int s = 0; for (int i = 0; i < n; i++) s = sx_ff_axpy(P, a[i * sa], b[i * sb], s); return s; }
/* do the rows of X belong to the row space of Y (both dense)? */
static int stacked_rank(const int *X, int n1, const int *Y, int n2, int m)
{
	int W[HXM * HXM];
	for (int i = 0; i < n1 * m; i++) W[i] = X[i];
	for (int i = 0; i < n2 * m; i++) W[n1 * m + i] = Y[i];
	return hx_rank(n1 + n2, m, W);
}
static void check(int status)
{
	sx_assert(status == want_status, "exit status");
#if TOOL == 0
	const char *c;
	sx_assert(contains("!", "rank = ", &c), "the rank is announced");
	int r = io_scan(&c);
	sx_assert(r == hx_rank(NR, NC, D), "the announced rank is the rank");
#if CERT
	sx_assert(contains("!", "CORRECT certificate", &c) && !contains("!", "INCORRECT", NULL), "the certificate is announced correct");
	int len, T = !NOTRANS && NR < NC;
	const char *b = io_content("cert", &len);
	sx_assert(b != NULL, "the certificate is written");
	FILE *f = io_open(b, len);
	struct spasm_rank_certificate pf;
	sx_assert(spasm_rank_certificate_load(f, &pf), "the certificate can be read back");
	struct spasm_triplet *Q = spasm_triplet_alloc(T ? NC : NR, T ? NR : NC, 1, P, true);
	for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) spasm_add_entry(Q, T ? j : i, T ? i : j, D[i * NC + j]);
	struct spasm_csr *A = spasm_compress(Q);
	sx_assert(pf.r == r && pf.prime == P, "the certificate states the rank and the prime");
	for (int k = 0; k < 32; k++) sx_assert(pf.hash[k] == 3 * k + 1, "the certificate contains the hash of the file");
	sx_assert(spasm_certificate_rank_verify(A, pf.hash, &pf), "the certificate verifies");
#endif
	sx_reach(r < NR && r < NC ? "rank deficient" : "full rank");
#elif TOOL == 1
	read_output();
	int dim = LEFT ? NR : NC, r = hx_rank(NR, NC, D);
	sx_assert(om == dim && on == dim - r, "dimensions of the kernel");
	for (int k = 0; k < on; k++) for (int i = 0; i < (LEFT ? NC : NR); i++) sx_assert(dot(O + k * om, 1, LEFT ? D + i : D + i * NC, LEFT ? NC : 1, dim) == 0, "the rows written are in the kernel");
	sx_assert(hx_rank(on, om, O) == on, "the rows written are independent");
	sx_reach(on ? "kernel" : "trivial kernel");
#elif TOOL == 2
	read_output();
	sx_assert(on == NB && om == NR, "dimensions of the solution");
	int none = 0;
	for (int k = 0; k < NB; k++) {
		int ok = stacked_rank(D, NR, B + k * NC, 1, NC) == hx_rank(NR, NC, D);
		if (!ok) { none = 1; continue; }
		for (int j = 0; j < NC; j++) sx_assert(dot(O + k * NR, 1, D + j, NC, NR) == B[k * NC + j], "the solution written satisfies the system");
	}
	sx_assert(contains("!", "WARNING: no solution", NULL) == none, "systems without solution are announced");
	sx_reach(none ? "no solution" : "solved");
#elif TOOL == 3
	read_output();
	int r = hx_rank(NR, NC, D);
	sx_assert(on == r && om == NC, "dimensions of the echelon form");
	sx_assert(hx_rank(r, NC, O) == r && stacked_rank(D, NR, O, r, NC) == r, "the rows written are a basis of the row space");
#if RREF
	/* each row has a pivot column on which it has 1 and the others have nothing */
	for (int i = 0; i < r; i++) {
		int found = 0;
		for (int j = 0; j < NC && !found; j++) { int others = 0; if (O[i * NC + j] != 1) continue; for (int k = 0; k < r; k++) if (k != i && O[k * NC + j] != 0) others = 1; if (!others) found = 1; }
		sx_assert(found, "each row of the reduced form has a pivot of its own");
	}
#endif
	sx_reach(r < NR && r < NC ? "rank deficient" : "full rank");
#elif TOOL == 4
	/* reference: maximum matching size by brute force on the pattern */
	int best = 0, nz = 0;
	unsigned dp[1 << NC];
	for (int s = 0; s < 1 << NC; s++) dp[s] = s == 0;
	for (int i = 0; i < NR; i++) for (int s = (1 << NC) - 1; s >= 0; s--) if (dp[s]) for (int j = 0; j < NC; j++) if (D[i * NC + j] != 0 && !((s >> j) & 1)) dp[s | 1 << j] |= 2;
	/* (each row used once: process bits row by row) */
	for (int s = 0; s < 1 << NC; s++) dp[s] = s == 0;
	for (int i = 0; i < NR; i++) { unsigned nx[1 << NC]; for (int s = 0; s < 1 << NC; s++) nx[s] = dp[s]; for (int s = 0; s < 1 << NC; s++) if (dp[s]) for (int j = 0; j < NC; j++) if (D[i * NC + j] != 0 && !((s >> j) & 1)) nx[s | 1 << j] = 1; for (int s = 0; s < 1 << NC; s++) dp[s] = nx[s]; }
	for (int s = 0; s < 1 << NC; s++) if (dp[s]) { int c = 0; for (int j = 0; j < NC; j++) c += (s >> j) & 1; if (c > best) best = c; }
	for (int k = 0; k < NR * NC; k++) nz += D[k] != 0;
#if VERB
	const char *c;
	sx_assert(contains("-", "structural rank = ", &c), "the structural rank is announced");
	sx_assert(io_scan(&c) == best, "the announced structural rank is the size of a maximum matching");
#else
	read_output();
	sx_assert(on == NR && om == NC, "dimensions");
	int onz = 0, found = 0;
	for (int k = 0; k < NR * NC; k++) onz += O[k] != 0;
	sx_assert(onz == nz, "as many entries");
	/* some row and column permutations map the input to the output */
	int rp[NR + 1], cp[NC + 1];
	for (int a = 0, na = 1; a < NR; a++) (void) na;
	int nr = 1, nc = 1;
	for (int i = 2; i <= NR; i++) nr *= i;
	for (int i = 2; i <= NC; i++) nc *= i;
	for (int a = 0; a < nr && !found; a++) {
		int x = a; unsigned used = 0;
		for (int i = 0; i < NR; i++) { int k = x % (NR - i); x /= NR - i; for (int j = 0; j < NR; j++) if (!((used >> j) & 1) && k-- == 0) { rp[i] = j; used |= 1u << j; break; } }
		for (int b = 0; b < nc && !found; b++) {
			int y = b; unsigned us = 0;
			for (int i = 0; i < NC; i++) { int k = y % (NC - i); y /= NC - i; for (int j = 0; j < NC; j++) if (!((us >> j) & 1) && k-- == 0) { cp[i] = j; us |= 1u << j; break; } }
			int ok = 1;
			for (int i = 0; i < NR && ok; i++) for (int j = 0; j < NC && ok; j++) if (D[i * NC + j] != O[rp[i] * NC + cp[j]]) ok = 0;
			found = ok;
		}
	}
	sx_assert(found, "the matrix written is the input with rows and columns permuted");
#endif
	sx_reach("decomposed");
#elif TOOL == 5
	read_output();
	int ri = 0;
	for (int i = 0; i < NR; i++) {
		int e = 1, cj = 0;
		for (int j = 0; j < NC; j++) if (D[i * NC + j] != 0) e = 0;
		if (e) continue;
		for (int j = 0; j < NC; j++) {
			int ec = 1;
			for (int k = 0; k < NR; k++) if (D[k * NC + j] != 0) ec = 0;
			if (ec) continue;
			sx_assert(ri < on && cj < om, "dimensions");
			sx_assert(O[ri * om + cj] == D[i * NC + j], "the non-empty rows and columns, in order");
			cj++;
		}
		sx_assert(om == cj, "number of non-empty columns");
		ri++;
	}
	sx_assert(on == ri, "number of non-empty rows");
	if (ri == 0) sx_assert(om == 0, "number of non-empty columns");
	sx_reach(ri < NR ? "rows removed" : "no row removed");
#elif TOOL == 6
	read_output();
	sx_assert(on == NC && om == NR, "dimensions of the transpose");
	for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) sx_assert(O[j * NR + i] == D[i * NC + j], "the transpose is written");
	sx_reach("transposed");
#elif TOOL == 7
	read_output();
	sx_assert(on == NR && om == NC, "dimensions");
	for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) sx_assert(O[i * NC + NC - 1 - j] == D[i * NC + j], "the columns are written in reverse order");
	sx_reach("flipped");
#elif TOOL == 8
	sx_assert(contains("!", "INCORRECT certificate", NULL) == (want_status != 0), "the verdict is that of the verifier");
	sx_assert(contains("!", "CORRECT certificate", NULL), "a verdict is given");
	sx_reach(want_status ? "incorrect" : "correct");
#endif
	for (int k = 0; k < on * om; k++) sx_out(O[k]);
	sx_done();
}
void STUB(exit)(int st) { check(st); }
void STUB(errx)(int st, const char *f, ...) { (void) st; (void) f; sx_fail("the program gives up on a valid input"); }
void STUB(err)(int st, const char *f, ...) { (void) st; (void) f; sx_fail("the program gives up on a valid input"); }
void harness(void)
{
	static char buf[2048], buf2[2048];
	struct io_text t = {0, buf}, t2 = {0, buf2};
	io_tokens = 1;
	io_errors = TOOL == 0 || TOOL == 2;
	for (int k = 0; k < NR * NC; k++) D[k] = TOOL == 4 ? (sx_choose(2, "a") ? k + 1 : 0) : sx_entry(P, "a");   /* (dm looks at the pattern only; distinct values show where entries go) */
	text(&t, NR, NC, D, sx_choose(2, "rev"));
	io_capture();
#ifdef FROMFILE
	io_file("A.sms", t.c, t.n);
#else
	io_file("-", t.c, t.n);
#endif
#if TOOL == 2
	for (int k = 0; k < NB * NC; k++) B[k] = sx_entry(P, "b");
	text(&t2, NB, NC, B, 0);
#ifdef FROMFILE
	io_file("-", t2.c, t2.n);
#else
	io_file("B.sms", t2.c, t2.n);
#endif
#endif
#if TOOL == 8
	/* a certificate: honest, or any content */
	for (int k = 0; k < 32; k++) fhash[k] = 3 * k + 1;
	int T = !NOTRANS && NR < NC, n = T ? NC : NR, m = T ? NR : NC;
	struct spasm_triplet *Q = spasm_triplet_alloc(n, m, 1, P, true);
	for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) spasm_add_entry(Q, T ? j : i, T ? i : j, D[i * NC + j]);
	struct spasm_csr *A = spasm_compress(Q);
	int kind = sx_choose(4, "certificate");
	struct spasm_rank_certificate *pf, any;
	if (kind == 0) {
		struct echelonize_opts o;
		spasm_echelonize_init_opts(&o);
		o.L = 1;
		struct spasm_lu *F = spasm_echelonize(A, &o);
		pf = spasm_certificate_rank_create(A, fhash, F);
		want_status = 0;
	} else {
		int r = sx_choose(RC + 1, "r");
		pf = &any;
		any.r = r; any.prime = P;
		memcpy(any.hash, fhash, 32);
		if (kind == 2) any.hash[31]++;
		any.i = spasm_malloc(r * sizeof(int)); any.j = spasm_malloc(r * sizeof(int)); any.x = spasm_malloc(r * sizeof(int)); any.y = spasm_malloc(r * sizeof(int));
		for (int k = 0; k < r; k++) { any.i[k] = kind == 1 ? sx_choose(n, "i") : k; any.j[k] = kind == 1 ? sx_choose(m, "j") : k; any.x[k] = sx_ff(P, "x"); any.y[k] = sx_ff(P, "y"); }
		want_status = !(kind < 3 && spasm_certificate_rank_verify(A, fhash, &any));
	}
	FILE *f = io_sink();
	spasm_rank_certificate_save(pf, f);
	int len;
	const char *d = io_data(f, &len);
	if (kind == 3) {                /* truncated before the last number */
		int lines = sx_choose(6, "lines"), k = 0;
		for (; k < len && lines; k++) if (d[k] == '\n') lines--;
		len = k;
		want_status = !(pf->r == 0 && sx_fix(0)) ;
		int left = 0;
		for (int q = 0; q < k; q++) left += d[q] == '\n';
		if (pf->r == 0 && left >= 3) want_status = !spasm_certificate_rank_verify(A, fhash, &any);
	}
	io_file("cert", d, len);
#endif
	char *argv[] = { "tool", ARGS NULL };
	int argc = sizeof(argv) / sizeof(argv[0]) - 1;
	check(tool_main(argc, argv));
}

/* C04: matrix files.  OP 0 SMS, 1 SMS cut anywhere, 2 SMS with a damaged field, 3 MatrixMarket, 4 damaged MatrixMarket header, 8 and 9 MatrixMarket cut or damaged,
   5 save and load (rows), 6 save and load (triplets).  K entries, ND digits per value */
#include <stdarg.h>
#include "io.h"
#include "hx.h"
#ifndef K
#define K 2
#endif
#ifndef ND
#define ND 1
#endif
static int bad;              /* the file must be refused */
static int any;              /* anything goes */
static int may;              /* may be refused, but if it is loaded then correctly */
static const char *txt; static int len;
static char rec[4096]; static int nrec, inited, finished;
static void refused(void) { if (!any && !may) sx_assert(bad, "a well-formed file is not refused"); sx_reach("refused"); sx_done(); }
void STUB(errx)(int st, const char *f, ...) { (void) f; sx_assert(st != 0, "errors are reported by a nonzero status"); refused(); }
void STUB(err)(int st, const char *f, ...) { (void) f; sx_assert(st != 0, "errors are reported by a nonzero status"); refused(); }
void STUB(exit)(int st) { sx_assert(st != 0, "errors are reported by a nonzero status"); refused(); }
void STUB(__assert_fail)(const char *a, const char *b, unsigned c, const char *d) { (void) a; (void) b; (void) c; (void) d; refused(); }
/* C05 decides that these compute SHA-256; here only what they are fed matters */
void STUB(spasm_SHA256_init)(spasm_sha256_ctx *c) { memset(c, 0, sizeof(*c)); inited++; nrec = 0; }
void STUB(spasm_SHA256_update)(spasm_sha256_ctx *c, const void *d, size_t n) { (void) c; for (size_t k = 0; k < n; k++) rec[nrec++] = ((const char *) d)[k]; }
void STUB(spasm_SHA256_final)(u8 *h, spasm_sha256_ctx *c) { (void) c; finished++; for (int k = 0; k < 32; k++) h[k] = 3 * k + 1; }
static char buf[2048]; static struct io_text T_ = {0, buf};
static i64 num(int nd, int lo) { i64 v = 0; for (int k = 0; k < nd; k++) { int d = sx_int(k ? 0 : lo, 9, "digit"); io_ch(&T_, '0' + d); v = 10 * v + d; } return v; }
static int sep_; static void sep(void) { io_str(&T_, sep_ == 0 ? " " : sep_ == 1 ? "\t" : "  "); }
static int nl_; static void nl(void) { io_str(&T_, nl_ ? "\r\n" : "\n"); }
static i64 I[K + 1], J[K + 1], X[K + 1];
static void entry(int k, int lo)
{
	I[k] = num(1, lo); sep(); J[k] = num(1, lo); sep();
	int neg = sx_choose(2, "sign"); if (neg) io_ch(&T_, '-');
#if ND == 0
	static const i64 big[6] = { 2147483647, 2147483648, 4294967296, 4294967291, 99999999999, 9223372036854775 };
	i64 v = big[sx_choose(6, "big")];
	io_num(&T_, v);
#else
	i64 v = num(ND, 0);
#endif
	X[k] = neg ? -v : v;
	nl();
}
static int residue(i64 v) { i64 r = v % P; if (r > P / 2) r -= P; if (r < P / 2 - P + 1) r += P; return (int) r; }
static void check(struct spasm_triplet *T, i64 n, i64 m, int k, int want, const u8 *hash)
{
	sx_assert(!bad, "a malformed file never yields a matrix");
	int nz = 0;
	for (int t = 0; t < k; t++) {
		int x = P < 0 ? 1 : residue(X[t]);
		if (x == 0) continue;
		sx_assert(T->nz > nz, "every entry of the file is in the matrix");
		sx_assert(T->i[nz] == I[t] - 1 && T->j[nz] == J[t] - 1, "entries are at the positions written in the file");
		if (P >= 0) sx_assert(T->x[nz] == x, "values are those of the file, modulo p");
		nz++;
		if (I[t] > n) n = I[t];
		if (J[t] > m) m = J[t];
	}
	sx_assert(T->nz == nz, "no other entry");
	sx_assert(T->n == n && T->m == m, "the dimensions are those of the file");
	sx_assert(P < 0 ? T->x == NULL : T->x != NULL, "values are loaded when there is a modulus");
	if (want) {
		sx_assert(inited >= 1 && finished == 1, "the hash is computed when requested");
		sx_assert(nrec == len, "every byte of the file is hashed, once");
		for (int t = 0; t < len; t++) sx_assert(rec[t] == txt[t], "the hashed bytes are the bytes of the file");
		for (int t = 0; t < 32; t++) sx_assert(hash[t] == 3 * t + 1, "the whole digest is returned");
	}
	sx_reach("loaded");
}
void harness(void)
{
	u8 hash[33];
	hash[32] = 77;
#if OP <= 2
	sep_ = OP == 0 ? sx_choose(3, "separator") : 0;
	nl_ = OP <= 1 ? sx_choose(2, "crlf") : 0;
	i64 n = num(1, OP ? 1 : 0); sep(); i64 m = num(1, OP ? 1 : 0); sep();
	int type = sx_int(33, 126, "type");
	io_ch(&T_, type); nl();
	if (P >= 0) bad = type != 'M';
	int f[3 * K + 6], nf = 0;
	for (int k = 0; k < K; k++) { f[nf++] = T_.n; entry(k, OP ? 1 : 0); }
	int kk = K, ended = 0;
#if OP == 0
	for (int k = 0; k < K; k++) {
		if (!ended && I[k] == 0 && J[k] == 0 && X[k] == 0) { ended = 1; kk = k; }
		if (!ended && (I[k] == 0 || J[k] == 0)) { if (P >= 0 && residue(X[k]) == 0) any = 1; else bad = 1; }
	}
	int end = sx_choose(4, "end");      /* 0: marker, 1: marker without final newline, 2: no marker, 3: marker then garbage */
	if (end != 2) { io_str(&T_, "0 0 0"); if (end != 1) nl(); } else if (!ended) bad = 1;
	if (end == 3) io_str(&T_, "1 1 1\n");
#elif OP == 1
	io_str(&T_, "0 0 0");
	int full = T_.n;
	nl();
	int cut = sx_choose(T_.n + 1, "cut");
	if (cut < full) bad = 1;
	T_.n = cut;
#else
	io_str(&T_, "0 0 0"); nl();
	int which = sx_choose(2, "where");
	int pos = which == 0 ? 2 * sx_choose(2, "field") : f[sx_choose(K, "line")] + 2 * sx_choose(3, "field");
	buf[pos] = 'a' + sx_int(0, 25, "letter");
	bad = 1;
#endif
	txt = buf; len = T_.n;
	int want = OP == 0 ? sx_choose(2, "hash") : 0;
	struct spasm_triplet *T = spasm_triplet_load(io_open(buf, len), P, want ? hash : NULL);
	if (any) sx_done();
	check(T, n, m, kk, want, hash);
	sx_assert(hash[32] == 77, "nothing written past the digest");
#elif OP == 7
	/* a comment or entry line of about the size of the line buffer */
	static const int L_[9] = { 900, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1030 };
	int where = sx_choose(3, "where"), L = L_[sx_choose(9, "length")], lo = where ? 1 : 0;
	io_str(&T_, "%%MatrixMarket matrix coordinate integer general\n");
	may = L > 1021;
	if (where == 0) {
		io_ch(&T_, '%');
		int d = sx_int(0, 9, "digit");
		for (int k = 1; k < L; k++) io_ch(&T_, k & 1 ? ' ' : '0' + d);
		nl();
	}
	i64 n = num(1, lo); sep(); i64 m = num(1, lo); sep(); io_num(&T_, K);
	if (where == 1) for (int k = 5; k < L; k++) io_ch(&T_, ' ');
	nl();
	for (int k = 0; k < K; k++) {
		int start = T_.n;
		if (where == 2 && k == 0) for (int t = 0; t < L - 5; t++) io_ch(&T_, ' ');
		entry(k, 1);
		(void) start;
	}
	txt = buf; len = T_.n;
	struct spasm_triplet *T = spasm_triplet_load(io_open(buf, len), P, hash);
	check(T, n, m, K, 1, hash);
#elif OP == 8 || OP == 9
	/* MatrixMarket: cut anywhere (8), a letter in place of a number (9) */
	io_str(&T_, "%%MatrixMarket matrix coordinate integer general"); nl();
	if (sx_choose(2, "comment")) { io_str(&T_, "% 3"); nl(); }
	int f[3 * K + 3], nf = 0;
	f[nf++] = T_.n; i64 n = num(1, 1); sep(); f[nf++] = T_.n; i64 m = num(1, 1); sep(); f[nf++] = T_.n; io_num(&T_, K); int full = T_.n; nl();
	for (int k = 0; k < K; k++) { f[nf] = T_.n; f[nf + 1] = T_.n + 2; f[nf + 2] = T_.n + 4; nf += 3; entry(k, 1); full = T_.n - (nl_ ? 2 : 1); }
#if OP == 8
	int cut = sx_choose(T_.n + 1, "cut");
	if (cut < full) bad = 1;
	T_.n = cut;
#else
	buf[f[sx_choose(nf, "field")]] = 'a' + sx_int(0, 25, "letter");
	bad = 1;
#endif
	txt = buf; len = T_.n;
	struct spasm_triplet *T = spasm_triplet_load(io_open(buf, len), P, hash);
	check(T, n, m, K, 1, hash);
#elif OP == 3 || OP == 4
	int lc = OP == 3 ? sx_choose(3, "case") : 0;
	const char *h = lc == 0 ? "%%MatrixMarket matrix coordinate integer general" : lc == 1 ? "%%MatrixMarket MATRIX Coordinate INTEGER General" : "%%MatrixMarket mAtRiX coordinatE iNTEGER GENERAL";
	io_str(&T_, h);
#if OP == 4
	int pos = sx_choose(T_.n, "pos"), b = sx_int(33, 126, "byte"), o = buf[pos];
	buf[pos] = b;
	int lb = b >= 'A' && b <= 'Z' ? b + 32 : b;
	bad = pos < 15 ? b != o : lb != o;
#endif
	nl();
	int nc = OP == 3 ? sx_choose(3, "comments") : 0;
	for (int k = 0; k < nc; k++) io_str(&T_, k ? "%\n" : "% 1 1 1\n");
	i64 n = num(1, 0); sep(); i64 m = num(1, 0); sep(); int nnz = OP == 3 ? (int) num(1, 0) : K; if (OP == 4) io_num(&T_, K);
	if (OP == 3) sx_assume(nnz <= K + 1);
	nl();
	for (int k = 0; k < K; k++) entry(k, OP == 3 ? 0 : 1);
	for (int k = 0; k < K && k < nnz; k++) if (I[k] == 0 || J[k] == 0) { if ((I[k] || J[k] || X[k]) && P >= 0 && residue(X[k]) == 0) any = 1; else bad = 1; break; }
	if (nnz > K) bad = 1;
	if (nnz < K) any = 1;
	int want = OP == 3 ? sx_choose(2, "hash") : 0;
	if (OP == 3 && sx_choose(2, "nofinalnewline")) T_.n--;
	txt = buf; len = T_.n;
	struct spasm_triplet *T = spasm_triplet_load(io_open(buf, len), P, want ? hash : NULL);
	if (any) sx_done();
	check(T, n, m, nnz, want, hash);
#else
	/* NR x NC, values from the whole field when it is small, otherwise around its boundaries */
	int D[NR * NC + 1], E[NR * NC + 1], vals = sx_choose(2, "values");
	struct spasm_csr *A;
	if (!vals) A = hx_pattern(NR, NC, D, "e");
	else if (P < 10) A = hx_csr(NR, NC, D, "a");
	else {
		A = hx_pattern(NR, NC, D, "e");
		A->x = spasm_malloc((A->p[NR] + 1) * sizeof(*A->x));
		for (int i = 0; i < NR; i++) for (i64 px = A->p[i]; px < A->p[i + 1]; px++) { int c = sx_choose(6, "v"); i64 v = c == 0 ? 1 : c == 1 ? -1 : c == 2 ? P / 2 : c == 3 ? P / 2 - P + 1 : c == 4 ? 10 : -100; A->x[px] = (int) v; D[i * NC + A->j[px]] = (int) v; }
		spasm_field_init(P, A->field);
	}
	for (int k = 0; k < NR * NC; k++) E[k] = D[k];
	FILE *o = io_sink();
#if OP == 5
	spasm_csr_save(A, o);
#else
	struct spasm_triplet *S = spasm_triplet_alloc(NR, NC, NR * NC, vals ? P : -1, vals);
	for (int i = NR - 1; i >= 0; i--) for (i64 px = A->p[i]; px < A->p[i + 1]; px++) spasm_add_entry(S, i, A->j[px], vals ? A->x[px] : 1);
	spasm_triplet_save(S, o);
#endif
	txt = io_data(o, &len);
	struct spasm_triplet *T = spasm_triplet_load(io_open(txt, len), P, NULL);
	sx_assert(T->n == NR && T->m == NC, "dimensions survive");
	int nz = 0;
	for (int k = 0; k < NR * NC; k++) nz += E[k] != 0;
	sx_assert(T->nz == nz, "number of entries survives");
	for (i64 k = 0; k < T->nz; k++) {
		int i = T->i[k], j = T->j[k];
		sx_assert(i >= 0 && i < NR && j >= 0 && j < NC, "positions in range");
		sx_assert(E[i * NC + j] != 0 && T->x[k] == E[i * NC + j], "entries survive");
		E[i * NC + j] = 0;
	}
	sx_reach("loaded");
#endif
}

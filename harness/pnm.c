/* images of a matrix (C26).  OP 0 spasm_save_pnm black and white or gray, 1 colors with a Dulmage-Mendelsohn decomposition,
   2 the bitmap program (ARGS; GRAY, WANTW / WANTH the sizes asked for, -1: none), 3 dm --image */
#include <stdarg.h>
#include "io.h"
#include "hx.h"
#ifndef GRAY
#define GRAY 0
#endif
#ifndef WANTW
#define WANTW -1
#endif
#ifndef WANTH
#define WANTH -1
#endif
int tool_main(int argc, char **argv);
#ifndef MODE
#define MODE 1
#endif
#ifdef CAP
#define BUF CAP
#else
#define BUF (1 << 14)
#endif
static int D[NR * NC + 1], W, H, px_[(NR + 2) * (NC + 2) * 3];
static char b[BUF];
/* parse a plain PNM file */
static void parse(const char *d, int len, int mode)
{
	const char *c = b;
	sx_assert(d != NULL && len < BUF - 1, "the image is written");
	for (int k = 0; k < len; k++) b[k] = d[k];
	b[len] = 0;
	sx_assert(c[0] == 'P' && c[1] == '0' + mode && (c[2] == '\n' || c[2] == ' '), "magic number");
	c += 2;
	W = io_scan(&c); H = io_scan(&c);
	if (mode > 1) sx_assert(io_scan(&c) == 255, "largest value");
	sx_assert(W >= 0 && W <= NC && H >= 0 && H <= NR, "size of the image");
	for (int k = 0; k < W * H * (mode == 3 ? 3 : 1); k++) { px_[k] = io_scan(&c); sx_assert(px_[k] >= 0 && px_[k] <= (mode == 1 ? 1 : 255), "value of a pixel"); }
	while (*c == '\n' || *c == ' ') c++;
	sx_assert(*c == 0, "nothing after the pixels");
}
/* number of entries below each pixel */
static void count(const int *E, int *cnt)
{
	for (int k = 0; k < W * H; k++) cnt[k] = 0;
	for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) if (E[i * NC + j]) cnt[(i * H / NR) * W + j * W / NC]++;
}
static void check_bw(int mode)
{
	int cnt[NR * NC + 1], max = 0;
	count(D, cnt);
	for (int k = 0; k < W * H; k++) if (cnt[k] > max) max = cnt[k];
	for (int k = 0; k < W * H; k++) {
		if (mode == 1) sx_assert(px_[k] == (cnt[k] > 0), "a pixel is black exactly when there is an entry below it");
		else {
			sx_assert((px_[k] == 255) == (cnt[k] == 0), "a pixel is white exactly when there is no entry below it");
			if (cnt[k] == max && max > 0) sx_assert(px_[k] == 0, "the densest pixels are black");
			for (int l = 0; l < k; l++) { if (cnt[k] == cnt[l]) sx_assert(px_[k] == px_[l], "same number of entries, same gray"); if (cnt[k] < cnt[l]) sx_assert(px_[k] > px_[l], "more entries, darker"); }
		}
		sx_out(px_[k]);
	}
	sx_reach(max == 0 ? "empty" : max == 1 ? "at most one entry per pixel" : "several entries per pixel");
}
/* colors: entries are black, nothing else is; a pixel without entry has the color of its block.  One pixel per entry only. */
static void check_color(const struct spasm_dm *DM, const int *E)
{
	int cnt[NR * NC + 1], col[NR * NC + 1], cls[NR * NC + 1];
	count(E, cnt);
	for (int k = 0; k < W * H; k++) {
		col[k] = px_[3 * k] << 16 | px_[3 * k + 1] << 8 | px_[3 * k + 2];
		sx_assert((col[k] == 0) == (cnt[k] > 0), "a pixel is black exactly when there is an entry below it");
		sx_out(col[k]);
		int i = k / W, j = k % W;
		cls[k] = -1;
		if (W < NC || H < NR) continue;
		int bv = i < DM->rr[1] ? 0 : i < DM->rr[2] ? 1 : 2, bh = j < DM->cc[2] ? 0 : j < DM->cc[3] ? 1 : 2;
		cls[k] = bv * 3 + bh;
		if (bv == 1 && bh == 1) {
			int s = 0;
			while (i >= DM->r[s + 1]) s++;
			cls[k] = j < DM->c[s] ? 9 : j < DM->c[s + 1] ? 10 : 11;
		}
	}
	/* same part of the decomposition: same color; the three square parts and the diagonal blocks are told apart */
	for (int k = 0; k < W * H; k++) for (int l = 0; l < k; l++) {
		if (cnt[k] || cnt[l] || cls[k] < 0) continue;
		if (cls[k] == cls[l]) sx_assert(col[k] == col[l], "same part, same color");
		int dk = cls[k] == 0 || cls[k] == 10 || cls[k] == 8, dl = cls[l] == 0 || cls[l] == 10 || cls[l] == 8;
		if (cls[k] != cls[l] && (dk || dl) ) sx_assert(col[k] != col[l], "the diagonal blocks are told apart");
	}
	sx_reach(DM->nb > 2 ? "several blocks" : "few blocks");
}
static void check(int status)
{
	int len;
	sx_assert(status == 0, "exit status");
	const char *d = io_content("-", &len);
#if OP == 2
	parse(d, len, 1 + GRAY);
	check_bw(1 + GRAY);
	/* the size asked for, at most one pixel per entry; the other side follows the proportions of the matrix */
	int w = WANTW, h = WANTH;
	if (w < 0 && h < 0) { w = NC; h = NR; }
	if (w >= 0) sx_assert(W == (w < NC ? w : NC), "width");
	if (h >= 0) sx_assert(H == (h < NR ? h : NR), "height");
	if (w < 0) { int e = W * NR - NC * h; if (h >= NR) sx_assert(W == NC, "full width"); else sx_assert(e <= NR && e >= -NR, "the proportions are kept"); }
	if (h < 0) { int e = H * NC - NR * w; if (w >= NC) sx_assert(H == NR, "full height"); else sx_assert(e <= NC && e >= -NC, "the proportions are kept"); }
#elif OP == 3
	parse(d, len, 3);
	sx_assert(W == NC && H == NR, "full size");
	int black = 0, nnz = 0;
	for (int k = 0; k < W * H; k++) { black += !px_[3 * k] && !px_[3 * k + 1] && !px_[3 * k + 2]; nnz += D[k] != 0; sx_out(px_[3 * k + 1]); }
	sx_assert(black == nnz, "one black pixel per entry");
	/* the image is that of a matrix permuted by the decomposition: same number of entries on the rows and columns, up to order */
	int ra[NR + 1], rb[NR + 1];
	for (int i = 0; i < NR; i++) { ra[i] = rb[i] = 0; for (int j = 0; j < NC; j++) { ra[i] += D[i * NC + j] != 0; int k = i * NC + j; rb[i] += !px_[3 * k] && !px_[3 * k + 1] && !px_[3 * k + 2]; } }
	for (int v = 0; v <= NC; v++) { int s = 0; for (int i = 0; i < NR; i++) s += (ra[i] == v) - (rb[i] == v); sx_assert(s == 0, "rows are permuted"); }
	sx_reach("image");
#endif
	sx_done();
}
#if OP == 2 || OP == 3
void STUB(exit)(int st) { check(st); }
void STUB(errx)(int st, const char *f, ...) { (void) st; (void) f; sx_fail("the program gives up on a valid input"); }
void STUB(err)(int st, const char *f, ...) { (void) st; (void) f; sx_fail("the program gives up on a valid input"); }
#endif
void harness(void)
{
#if OP == 4
	/* one long row or column: the products of positions and sizes exceed 31 bits */
	const int n = NR, m = NC, big = NR > NC ? NR : NC, mode = MODE;
	static const int at[4] = { 0, 1, 2, 5 };
	int e = big - 1 - at[sx_choose(4, "from the end")], len;
	struct spasm_csr *A = spasm_csr_alloc(n, m, 1, -1, false);
	A->j[0] = m > 1 ? e : 0;
	for (int i = 0; i <= n; i++) A->p[i] = m > 1 ? i : i > e;
	struct spasm_dm *DM = spasm_dm_alloc(n, m);
	DM->nb = 1; DM->r[0] = 0; DM->r[1] = n; DM->c[0] = 0; DM->c[1] = m;
	for (int k = 0; k < 5; k++) { DM->rr[k] = k == 0 ? 0 : n; DM->cc[k] = k < 2 ? 0 : k == 4 ? m : m - 3; }
	if (m == 1) for (int k = 0; k < 5; k++) { DM->rr[k] = k == 0 ? 0 : k == 1 || k == 2 ? n - 3 : n; DM->cc[k] = k == 0 || k == 1 ? 0 : 1; }
	FILE *f = io_sink();
	spasm_save_pnm(A, f, m, n, mode, mode == 3 ? DM : NULL);
	const char *d = io_data(f, &len);
	parse(d, len, mode);
	sx_assert(W == m && H == n, "full size");
	for (int k = 0; k < big; k++) {
		if (mode < 3) { sx_assert(mode == 1 ? px_[k] == (k == e) : px_[k] == (k == e ? 0 : 255), "the entry is shown at its place, alone"); continue; }
		int c = px_[3 * k] << 16 | px_[3 * k + 1] << 8 | px_[3 * k + 2], c0 = px_[0] << 16 | px_[1] << 8 | px_[2];
		sx_assert((c == 0) == (k == e), "the entry is shown at its place, alone");
		if (k != e) sx_assert((c == c0) == (k < big - 3), "the parts begin at their places");
	}
	sx_out(e);
	spasm_csr_free(A); spasm_dm_free(DM);
	sx_assert(sx_heap_live() == 0, "everything allocated has been released");
	sx_reach("shown");
#elif OP < 2
	struct spasm_csr *A = hx_pattern(NR, NC, D, "a");
	FILE *f = io_sink();
	int len, mode = OP == 1 ? 3 : 1 + sx_choose(2, "mode");
	int x = sx_choose(NC + 2, "x"), y = sx_choose(NR + 2, "y"), wx = x < 1 ? 1 : x, wy = y < 1 ? 1 : y;
#if OP == 0
	spasm_save_pnm(A, f, x, y, mode, NULL);
	const char *d = io_data(f, &len);
	parse(d, len, mode);
	sx_assert(W == (wx < NC ? wx : NC) && H == (wy < NR ? wy : NR), "size asked for, at most one pixel per entry");
	check_bw(mode);
#else
	int E[NR * NC + 1];
	struct spasm_dm *DM = spasm_dulmage_mendelsohn(A);
	int *qinv = spasm_pinv(DM->q, NC);
	struct spasm_csr *B = spasm_permute(A, DM->p, qinv, false);
	hx_dense(B, NR, NC, E);
	spasm_save_pnm(B, f, x, y, 3, DM);
	const char *d = io_data(f, &len);
	parse(d, len, 3);
	sx_assert(W == (wx < NC ? wx : NC) && H == (wy < NR ? wy : NR), "size asked for, at most one pixel per entry");
	check_color(DM, E);
	free(qinv); spasm_csr_free(B); spasm_dm_free(DM);
#endif
	spasm_csr_free(A);
	sx_assert(sx_heap_live() == 0, "everything allocated has been released");
#else
	static char buf[2048];
	struct io_text t = {0, buf};
	io_num(&t, NR); io_ch(&t, ' '); io_num(&t, NC); io_str(&t, " M\n");
	for (int k = 0; k < NR * NC; k++) { D[k] = sx_choose(2, "a"); if (D[k]) { io_num(&t, k / NC + 1); io_ch(&t, ' '); io_num(&t, k % NC + 1); io_str(&t, " 1\n"); } }
	io_str(&t, "0 0 0\n");
	io_capture();
	io_file("-", t.c, t.n);
	char *argv[] = { "tool", ARGS NULL };
	int argc = sizeof(argv) / sizeof(argv[0]) - 1;
	check(tool_main(argc, argv));
#endif
}

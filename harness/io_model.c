/* engine side: the standard streams, formatted input/output and command-line parsing as memory operations.
   The native replay uses the real C library, so agreement of the two on every replayed path validates this model. */
#include <stdarg.h>
#include <argp.h>
#include <getopt.h>
#include "io.h"
#undef stdin
#undef stdout
#undef stderr
extern FILE *stdin, *stdout, *stderr;
#ifndef CAP
#define CAP 4096
#endif
#define CAPE 20000
/* tokens: a symbolic number travels through a file as one byte >= 0x80 that stands for its decimal writing */
int io_tokens, io_errors; static i64 tokv[124]; static int ntok;
static int tok(i64 v) { sx_assert(ntok < 120, "io model: too many symbolic numbers"); tokv[ntok] = v; return 0x80 + ntok++; }
void io_sym(struct io_text *t, i64 v) { if (io_tokens && sx_is_symbolic((int) v)) io_ch(t, tok(v)); else io_num(t, v); }
i64 io_scan(const char **s)
{
	const char *c = *s; int neg = 0; i64 v = 0;
	while (*c == ' ' || *c == '\n') c++;
	if ((unsigned char) *c >= 0x80) { v = tokv[(unsigned char) *c - 0x80]; *s = c + 1; return v; }
	if (*c == '-') { neg = 1; c++; }
	sx_assert(*c >= '0' && *c <= '9', "a number is written");
	while (*c >= '0' && *c <= '9') v = 10 * v + (*c++ - '0');
	*s = c;
	return neg ? -v : v;
}
struct mf { const char *name; const char *d; char *w; int n, pos, eof; };
static struct mf tab[24]; static int ntab; static struct mf *in_, *out_, *err_;
static struct mf *newf(void) { sx_assert(ntab < 24, "io model: too many streams"); struct mf *f = &tab[ntab++]; f->name = ""; f->d = NULL; f->w = NULL; f->n = f->pos = f->eof = 0; return f; }
static int same(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static struct mf *get(FILE *f) { if (f == stdin) return in_; if (f == stdout) return out_; if (f == stderr) return err_; return (struct mf *) f; }
FILE *io_open(const char *data, int len) { struct mf *f = newf(); f->d = data; f->n = len; return (FILE *) f; }
FILE *io_sink(void) { static char buf[8][CAP], ebuf[CAPE]; static int k; struct mf *f = newf(); f->w = k == 1 ? ebuf : buf[k]; k++; return (FILE *) f; }
const char *io_data(FILE *g, int *len) { struct mf *f = (struct mf *) g; *len = f->n; return f->w; }
void io_file(const char *name, const char *data, int len) { struct mf *f = (struct mf *) io_open(data, len); f->name = name; if (same(name, "-")) in_ = f; }
void io_capture(void) { out_ = (struct mf *) io_sink(); err_ = (struct mf *) io_sink(); }
const char *io_content(const char *name, int *len) {
	if (same(name, "-")) return io_data((FILE *) out_, len);
	if (same(name, "!")) return io_data((FILE *) err_, len);
	for (int k = ntab - 1; k >= 0; k--) if (tab[k].w && tab[k].name && same(tab[k].name, name)) { *len = tab[k].n; return tab[k].w; }
	return NULL; }
FILE *stub__fopen(const char *name, const char *mode)
{
	if (mode[0] == 'r') { for (int k = ntab - 1; k >= 0; k--) if (tab[k].name && same(tab[k].name, name)) { struct mf *f = newf(); f->d = tab[k].w ? tab[k].w : tab[k].d; f->n = tab[k].n; return (FILE *) f; } return NULL; }
	struct mf *f = (struct mf *) io_sink(); f->name = name; return (FILE *) f;
}
int stub__fclose(FILE *g) { struct mf *f = get(g); if (f) f->pos = f->n; return 0; }
static int getch_(struct mf *f) { if (f->pos >= f->n) { f->eof = 1; return -1; } return (unsigned char) f->d[f->pos++]; }
static void unget_(struct mf *f, int c) { if (c >= 0) { f->pos--; } }
char *stub__fgets(char *b, int size, FILE *g)
{
	struct mf *f = get(g); int k = 0;
	while (k < size - 1) { int c = getch_(f); if (c < 0) break; b[k++] = (char) c; if (c == '\n') break; }
	if (!k) return NULL;
	b[k] = 0; return b;
}
int stub__feof(FILE *g) { return get(g)->eof; }
int stub__fgetc(FILE *g) { return getch_(get(g)); }
static int ws(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int scan_(struct mf *f, const char *t, va_list ap)
{
	int got = 0, c;
	for (; *t; t++) {
		if (ws(*t)) { do c = getch_(f); while (c >= 0 && ws(c)); unget_(f, c); continue; }
		if (*t != '%' || t[1] == '%') { if (*t == '%') { t++; do c = getch_(f); while (c >= 0 && ws(c)); } else c = getch_(f); if (c != *t) { unget_(f, c); return got || c >= 0 ? got : -1; } continue; }
		int lng = 0; t++;
		while (*t == 'l') { lng = 1; t++; }
		if (*t == 'c') { c = getch_(f); if (c < 0) return got ? got : -1; *va_arg(ap, char *) = (char) c; got++; continue; }
		do c = getch_(f); while (c >= 0 && ws(c));
		if (c < 0) return got ? got : -1;
		if (*t == 's') { char *o = va_arg(ap, char *); while (c >= 0 && !ws(c)) { *o++ = (char) c; c = getch_(f); } unget_(f, c); *o = 0; got++; continue; }
		sx_assert(*t == 'd', "io model: input conversion");
		if (c >= 0x80) { i64 v = tokv[c - 0x80]; if (lng) *va_arg(ap, i64 *) = v; else *va_arg(ap, int *) = (int) v; got++; continue; }
		int neg = 0, nd = 0; i64 v = 0;
		if (c == '-' || c == '+') { neg = c == '-'; c = getch_(f); }
		while (c >= '0' && c <= '9') { v = v * 10 + (c - '0'); nd++; sx_assert(nd < 19, "io model: long number"); c = getch_(f); }
		unget_(f, c);
		if (!nd) return got;
		if (neg) v = -v;
		if (lng) *va_arg(ap, i64 *) = v; else *va_arg(ap, int *) = (int) v;
		got++;
	}
	return got;
}
int stub____isoc99_sscanf(const char *s, const char *t, ...) { struct mf f; f.name = NULL; f.d = s; f.w = NULL; f.n = 0; f.pos = f.eof = 0; while (s[f.n]) f.n++; va_list ap; va_start(ap, t); int r = scan_(&f, t, ap); va_end(ap); return r; }
int stub__sscanf(const char *s, const char *t, ...) { struct mf f; f.name = NULL; f.d = s; f.w = NULL; f.n = 0; f.pos = f.eof = 0; while (s[f.n]) f.n++; va_list ap; va_start(ap, t); int r = scan_(&f, t, ap); va_end(ap); return r; }
int stub____isoc99_fscanf(FILE *g, const char *t, ...) { va_list ap; va_start(ap, t); int r = scan_(get(g), t, ap); va_end(ap); return r; }
int stub__fscanf(FILE *g, const char *t, ...) { va_list ap; va_start(ap, t); int r = scan_(get(g), t, ap); va_end(ap); return r; }
static void put(struct mf *f, int c) { if (!f || !f->w) return; sx_assert(f->n < (f == err_ ? CAPE : CAP), "io model: output too long"); f->w[f->n++] = (char) c; }
static void num(struct mf *f, i64 v, int base, int width, int zero)
{
	char b[24]; int k = 0, neg = 0;
	if (io_tokens && sx_is_symbolic((int) v)) { put(f, tok(v)); return; }
	if (sx_is_symbolic((int) v)) { i64 q = 0; for (;;) { if (v == q) { v = q; break; } if (v == -q) { v = -q; break; } q++; } }    /* one path per value */
	if (v < 0) { neg = 1; v = -v; }
	do { int d = (int) (v % base); b[k++] = (char) (d < 10 ? '0' + d : 'a' + d - 10); v /= base; } while (v);
	if (neg) put(f, '-');
	for (int i = k + neg; i < width; i++) put(f, zero ? '0' : ' ');
	while (k) put(f, b[--k]);
}
static int print_(struct mf *f, const char *t, va_list ap)
{
	for (; *t; t++) {
		if (*t != '%') { put(f, *t); continue; }
		t++;
		if (*t == '%') { put(f, '%'); continue; }
		int zero = 0, width = 0, lng = 0;
		if (*t == '0') { zero = 1; t++; }
		while (*t >= '0' && *t <= '9') width = width * 10 + (*t++ - '0');
		int prec = 6;
		if (*t == '.') { t++; prec = 0; while (*t >= '0' && *t <= '9') prec = prec * 10 + *t++ - '0'; }
		while (*t == 'l' || *t == 'z') { lng = 1; t++; }
		switch (*t) {
		case 'f': { double d = va_arg(ap, double); if (f == err_ || prec) put(f, '0'); else { sx_assert(d >= 0 && d < 1e15, "io model: real number"); num(f, (i64) (d + 0.5), 10, width, zero); } break; }
		case 'd': num(f, lng ? va_arg(ap, i64) : (i64) va_arg(ap, int), 10, width, zero); break;
		case 'x': num(f, (i64) va_arg(ap, unsigned), 16, width, zero); break;
		case 's': { const char *s = va_arg(ap, const char *); while (*s) put(f, *s++); break; }
		case 'c': put(f, va_arg(ap, int)); break;
		default: sx_fail("io model: output conversion");
		}
	}
	return 1;
}
static int plain(const char *t) { for (; *t; t++) if (*t == '%') { t++; if (*t != 's' && *t != 'c' && *t != '%') return 0; } return 1; }    /* progress messages with numbers are not kept */
int stub__fprintf(FILE *g, const char *t, ...) { struct mf *f = get(g); if (!f || (g == stderr && !io_errors && !plain(t))) return 1; va_list ap; va_start(ap, t); int r = print_(f, t, ap); va_end(ap); return r; }
int stub__printf(const char *t, ...) { if (!out_) return 1; va_list ap; va_start(ap, t); int r = print_(out_, t, ap); va_end(ap); return r; }
int stub__vfprintf(FILE *g, const char *t, va_list ap) { struct mf *f = get(g); if (!f || (g == stderr && !io_errors && !plain(t))) return 1; return print_(f, t, ap); }
int stub__vprintf(const char *t, va_list ap) { if (!out_) return 1; return print_(out_, t, ap); }
int stub__puts(const char *t) { if (out_) { while (*t) put(out_, *t++); put(out_, '\n'); } return 1; }
int stub__fputs(const char *t, FILE *g) { struct mf *f = get(g); if (f) while (*t) put(f, *t++); return 1; }
int stub__putchar(int c) { put(out_, c); return c; }
int stub__fputc(int c, FILE *g) { struct mf *f = get(g); if (f) put(f, c); return c; }
u64 stub__fwrite(const void *p, u64 a, u64 b, FILE *g) { struct mf *f = get(g); if (f) for (u64 k = 0; k < a * b; k++) put(f, ((const char *) p)[k]); return b; }
static i64 atoll_(const char *s) { i64 v = 0; int neg = 0; while (ws(*s)) s++; if (*s == '-' || *s == '+') neg = *s++ == '-'; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); return neg ? -v : v; }
i64 stub__atoll(const char *s) { return atoll_(s); }
i64 stub__atol(const char *s) { return atoll_(s); }
int stub__atoi(const char *s) { return (int) atoll_(s); }
static void endp(const char *s, char **e) { const char *o = s; if (!e) return; while (ws(*s)) s++; if (*s == '-' || *s == '+') s++; if (*s < '0' || *s > '9') s = o; while (*s >= '0' && *s <= '9') s++; *e = (char *) s; }
i64 stub__strtoll(const char *s, char **e, int b) { sx_assert(b == 10 || b == 0, "io model: strtoll"); endp(s, e); return atoll_(s); }
i64 stub__strtol(const char *s, char **e, int b) { sx_assert(b == 10 || b == 0, "io model: strtol"); endp(s, e); return atoll_(s); }
double stub__atof(const char *s) { int neg = 0; double v = 0, q = 1; if (*s == '-') { neg = 1; s++; } while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); if (*s == '.') { s++; while (*s >= '0' && *s <= '9') { q = q / 10; v = v + q * (*s++ - '0'); } } return neg ? -v : v; }
u64 stub__strtoul(const char *s, char **e, int base)
{
	u64 v = 0;
	for (; *s; s++) { int c = *s, d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (c >= 'A' && c <= 'F') d = c - 'A' + 10; else break; if (d >= base) break; v = v * base + d; }
	if (e) *e = (char *) s;
	return v;
}
/* argp: initialise the parser tree, then dispatch each option to the parser which declares it */
struct pn { const struct argp *a; struct argp_state st; void *ci[4]; }; static struct pn pt[6]; static int npt;
static void pinit(const struct argp *a, void *input)
{
	struct pn *p = &pt[npt++]; int k = 0;
	p->a = a; p->st.input = input; p->st.child_inputs = p->ci;
	for (k = 0; k < 4; k++) p->ci[k] = NULL;
	a->parser(ARGP_KEY_INIT, NULL, &p->st);
	if (a->children) for (k = 0; a->children[k].argp; k++) pinit(a->children[k].argp, p->ci[k]);
}
error_t stub__argp_parse(const struct argp *a, int argc, char **argv, unsigned flags, int *idx, void *input)
{
	(void) flags; (void) idx;
	npt = 0; pinit(a, input);
	for (int i = 1; i < argc; i++) {
		const char *s = argv[i], *val = NULL; int found = 0;
		if (s[0] != '-') { for (int k = 0; k < npt; k++) if (pt[k].a->parser(ARGP_KEY_ARG, argv[i], &pt[k].st) == 0) break; continue; }
		for (int k = 0; k < npt && !found; k++) for (const struct argp_option *o = pt[k].a->options; o && (o->name || o->key || o->doc || o->group) && !found; o++) {
			int m = 0;
			if (s[1] == '-') { if (!o->name) continue; const char *x = s + 2, *y = o->name; while (*y && *x == *y) { x++; y++; } m = !*y && (*x == 0 || *x == '='); if (m && *x == '=') val = x + 1; }
			else { m = o->key == s[1] && o->key; if (m && s[2]) val = s + 2; }
			if (!m) continue;
			found = 1;
			if (o->arg && !val) val = argv[++i];
			pt[k].a->parser(o->key, (char *) val, &pt[k].st);
		}
		sx_assert(found, "io model: unknown option");
	}
	return 0;
}
static int gopt = 1;
int stub__getopt_long(int argc, char *const *argv, const char *so, const struct option *lo, int *ix)
{
	(void) so; (void) ix;
	if (gopt >= argc) return -1;
	const char *s = argv[gopt++]; if (s[0] != '-' || s[1] != '-') return -1;
	for (; lo->name; lo++) { const char *x = s + 2, *y = lo->name; while (*y && *x == *y) { x++; y++; } if (*y || (*x && *x != '=')) continue; optarg = NULL; if (lo->has_arg) optarg = *x == '=' ? (char *) x + 1 : argv[gopt++]; return lo->val; }
	return '?';
}

#include "io.h"
static char *so, *se; static size_t ln, le; static struct { FILE *f; char *d; size_t n; } sk[16]; static int nsk;
void io_file(const char *name, const char *data, int len) {
	if (!strcmp(name, "-")) { stdin = io_open(data, len); return; }
	FILE *f = fopen(name, "w"); if (len) fwrite(data, 1, len, f); fclose(f); }
FILE *io_open(const char *data, int len) { FILE *f = tmpfile(); if (len) fwrite(data, 1, len, f); rewind(f); return f; }
FILE *io_sink(void) { sk[nsk].f = open_memstream(&sk[nsk].d, &sk[nsk].n); return sk[nsk++].f; }
const char *io_data(FILE *f, int *len) { fflush(f); for (int k = 0; k < nsk; k++) if (sk[k].f == f) { *len = sk[k].n; return sk[k].d; } return NULL; }
void io_capture(void) { stdout = open_memstream(&so, &ln); stderr = open_memstream(&se, &le); }
const char *io_content(const char *name, int *len) {
	fflush(stdout); fflush(stderr); fflush(NULL);
	if (!strcmp(name, "-")) { *len = ln; return so; }
	if (!strcmp(name, "!")) { *len = le; return se; }
	FILE *f = fopen(name, "r"); if (!f) return NULL;
	char *b = malloc(1 << 20); *len = fread(b, 1, 1 << 20, f); fclose(f); return b; }
int io_tokens, io_errors;
void io_sym(struct io_text *t, i64 v) { io_num(t, v); }
i64 io_scan(const char **s)
{
	char *e;
	i64 v = strtoll(*s, &e, 10);
	sx_assert(e != *s, "a number is written");
	*s = e;
	return v;
}

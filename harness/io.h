/* files of a harness: memory files in the engine (model in io_model.c), real files and streams in the native replay (io_native.c) */
#ifndef IO_H
#define IO_H
#include <stdio.h>
#include "sx.h"
void io_file(const char *name, const char *data, int len);    /* a file that fopen() will find; "-" is the standard input */
FILE *io_open(const char *data, int len);                     /* a stream reading these bytes */
FILE *io_sink(void);                                          /* a stream to write to */
const char *io_data(FILE *f, int *len);                       /* what was written to it */
void io_capture(void);                                        /* record the standard output and error streams */
const char *io_content(const char *name, int *len);           /* what was written to a file; "-" standard output, "!" standard error; NULL: no such file */
/* text construction */
struct io_text { int n; char *c; };
static void io_ch(struct io_text *t, int c) { t->c[t->n++] = (char) c; }
static void io_str(struct io_text *t, const char *s) { while (*s) io_ch(t, *s++); }
static void io_num(struct io_text *t, i64 v) { char b[24]; int k = 0; if (v < 0) { io_ch(t, '-'); v = -v; } do { b[k++] = '0' + v % 10; v /= 10; } while (v); while (k) io_ch(t, b[--k]); }
extern int io_tokens;       /* symbolic numbers are kept symbolic across files (their decimal writing is not explored) */
extern int io_errors;       /* record formatted messages of the error stream, not only constant ones */
void io_sym(struct io_text *t, i64 v);
i64 io_scan(const char **s);                                  /* read a number */
#endif

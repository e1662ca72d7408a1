/* C library functions written out for the executor (weak: a harness or io_model.c may have its own).  Nothing in the current sources needs
   most of them; they keep the checks able to follow a rewriting of the code that uses them.  Only the engine links this file. */
#include <stddef.h>
#define W(f) __attribute__((weak)) stub__##f
typedef unsigned char uc;
static void swap_(uc *a, uc *b, size_t w) { for (size_t i = 0; i < w; i++) { uc t = a[i]; a[i] = b[i]; b[i] = t; } }
void W(qsort)(void *base, size_t n, size_t w, int (*cmp)(const void *, const void *))
{
	uc *b = base;
	for (size_t i = 1; i < n; i++)
		for (size_t j = i; j > 0 && cmp(b + (j - 1) * w, b + j * w) > 0; j--) swap_(b + (j - 1) * w, b + j * w, w);
}
void *W(bsearch)(const void *key, const void *base, size_t n, size_t w, int (*cmp)(const void *, const void *))
{
	const uc *b = base;
	size_t lo = 0, hi = n;
	while (lo < hi) {
		size_t m = (lo + hi) / 2;
		int c = cmp(key, b + m * w);
		if (c == 0) return (void *) (b + m * w);
		if (c < 0) hi = m; else lo = m + 1;
	}
	return NULL;
}
char *W(strchr)(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return NULL; } }
char *W(strrchr)(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char) c) r = s; if (!*s) return (char *) r; } }
void *W(memchr)(const void *s, int c, size_t n) { const uc *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (uc) c) return (void *) (p + i); return NULL; }
char *W(strcpy)(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *W(strncpy)(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *W(strcat)(char *d, const char *s) { size_t k = 0, i = 0; while (d[k]) k++; do d[k + i] = s[i]; while (s[i++]); return d; }
size_t W(strnlen)(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *W(strstr)(const char *a, const char *b)
{
	for (;; a++) {
		size_t i = 0;
		while (b[i] && a[i] == b[i]) i++;
		if (!b[i]) return (char *) a;
		if (!*a) return NULL;
	}
}
size_t W(strspn)(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) { size_t k = 0; while (a[k] && a[k] != s[i]) k++; if (!a[k]) break; } return i; }
size_t W(strcspn)(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) { size_t k = 0; while (a[k] && a[k] != s[i]) k++; if (a[k]) break; } return i; }
int W(strcasecmp)(const char *a, const char *b)
{
	for (;; a++, b++) {
		int x = *a, y = *b;
		if (x >= 'A' && x <= 'Z') x += 32;
		if (y >= 'A' && y <= 'Z') y += 32;
		if (x != y) return x - y;
		if (!x) return 0;
	}
}
int W(strncasecmp)(const char *a, const char *b, size_t n)
{
	for (size_t i = 0; i < n; i++) {
		int x = a[i], y = b[i];
		if (x >= 'A' && x <= 'Z') x += 32;
		if (y >= 'A' && y <= 'Z') y += 32;
		if (x != y) return x - y;
		if (!x) return 0;
	}
	return 0;
}
int W(isupper)(int c) { return c >= 'A' && c <= 'Z'; }
int W(islower)(int c) { return c >= 'a' && c <= 'z'; }
int W(isalpha)(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int W(isalnum)(int c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int W(isxdigit)(int c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int W(isprint)(int c) { return c >= 32 && c < 127; }
int W(isblank)(int c) { return c == ' ' || c == '\t'; }
unsigned short W(htons)(unsigned short x) { return (unsigned short) ((x << 8) | (x >> 8)); }
unsigned short W(ntohs)(unsigned short x) { return (unsigned short) ((x << 8) | (x >> 8)); }
long long W(llabs)(long long x) { return x < 0 ? -x : x; }
double W(fmin)(double a, double b) { return a < b ? a : b; }
double W(fmax)(double a, double b) { return a > b ? a : b; }

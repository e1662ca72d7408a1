/* native side of sx.h: inputs come from the file named by SX_INPUTS, in order */
#include "sx.h"
#include <stdio.h>
#include <unistd.h>
static long long *in_; static int nin, pos, loaded;
static void load(void) { if (loaded) return; loaded = 1; FILE *f = fopen(getenv("SX_INPUTS"), "r"); long long v; int cap = 0; char nm[256]; if (!f) return; while (fscanf(f, "%255s %lld", nm, &v) == 2) { if (nin == cap) { cap = 2 * cap + 64; in_ = realloc(in_, cap * sizeof(*in_)); } in_[nin++] = v; } fclose(f); }
static long long nxt(long long d) { load(); return pos < nin ? in_[pos++] : d; }
int sx_int(int lo, int hi, const char *n) { (void) n; long long v = nxt(lo <= 0 && hi >= 0 ? 0 : lo); if (v < lo || v > hi) { fprintf(stderr, "SX: input out of range\n"); exit(77); } return v; }
i64 sx_i64(i64 lo, i64 hi, const char *n) { (void) n; i64 v = nxt(lo <= 0 && hi >= 0 ? 0 : lo); if (v < lo || v > hi) exit(77); return v; }
int sx_choose(int k, const char *n) { (void) n; long long v = nxt(0); if (v < 0 || v >= k) exit(77); return v; }
int sx_ff(i64 p, const char *n) { (void) p; (void) n; return nxt(0); }
int sx_ffnz(i64 p, const char *n) { (void) p; (void) n; return nxt(1); }
int sx_entry(i64 p, const char *n) { (void) p; (void) n; return nxt(0); }
void sx_out(int v) { dprintf(1, "SX-OUT %d\n", v); }
void sx_done(void) { dprintf(1, "SX-OK\n"); _Exit(0); }
__attribute__((weak)) int rand(void) { return nxt(0); }
void sx_assume(int c) { if (!c) { fprintf(stderr, "SX: assumption does not hold in the replay\n"); exit(77); } }
void sx_assert(int c, const char *m) { if (!c) { dprintf(1, "SX-FAIL: %s\n", m); _Exit(66); } }
void sx_fail(const char *m) { dprintf(1, "SX-FAIL: %s\n", m); _Exit(66); }
int sx_is_symbolic(int v) { (void) v; return 0; }
int sx_fix(int v) { return v; }
void sx_reach(const char *m) { (void) m; }
void sx_print(const char *m, i64 v) { fprintf(stderr, "SX %s %lld\n", m, (long long) v); }
void sx_far(const void *p, i64 lo) { (void) p; (void) lo; }
int sx_live(const void *p) { return p != NULL; } i64 sx_objsize(const void *p) { (void) p; return -1; }  int sx_threads(void) { return 1; }
static int bal(i64 p, __int128 v) { i64 r = v % p; if (r < 0) r += p; if (r > p / 2) r -= p; return r; }
int sx_ff_add(i64 p, int a, int b) { return bal(p, (i64) a + b); } int sx_ff_sub(i64 p, int a, int b) { return bal(p, (i64) a - b); } int sx_ff_mul(i64 p, int a, int b) { return bal(p, (__int128) a * b); } int sx_ff_neg(i64 p, int a) { return bal(p, -(i64) a); }
int sx_ff_init(i64 p, i64 x) { return bal(p, x); } int sx_ff_axpy(i64 p, int a, int x, int y) { return bal(p, (__int128) a * x + y); }
int sx_ff_inv(i64 p, int a) { i64 b = a % p; if (b < 0) b += p; __int128 r = 1, x = b; i64 e = p - 2; if (p == 2) return bal(p, b); while (e) { if (e & 1) r = r * x % p; x = x * x % p; e >>= 1; } return b ? bal(p, r) : 0; }
static i64 live_; static int oom_;
int sx_oom(int v) { int o = oom_; if (v >= 0) oom_ = v; return o; }
static int failing(void) { if (oom_ != 1 || nxt(0) == 0) return 0; oom_ = 2; return 1; }
void *sx_native_malloc(size_t n) { if (failing()) return NULL; void *p = malloc(n); if (p) __atomic_add_fetch(&live_, 1, __ATOMIC_SEQ_CST); return p; }
void *sx_native_calloc(size_t a, size_t b) { if (failing()) return NULL; void *p = calloc(a, b); if (p) __atomic_add_fetch(&live_, 1, __ATOMIC_SEQ_CST); return p; }
void *sx_native_realloc(void *q, size_t n) { if (failing()) return NULL; void *p = realloc(q, n); if (!q && p) __atomic_add_fetch(&live_, 1, __ATOMIC_SEQ_CST); if (q && !n && !p) __atomic_add_fetch(&live_, -1, __ATOMIC_SEQ_CST); return p; }
void sx_native_free(void *p) { if (p) __atomic_add_fetch(&live_, -1, __ATOMIC_SEQ_CST); free(p); }
i64 sx_heap_live(void) { return live_; }
void harness(void);
int main(void) { harness(); dprintf(1, "SX-OK\n"); return 0; }

#pragma once
#include <stddef.h>
#include <stdlib.h>
extern "C" int sx_oom(int v);
static inline void *ff_malloc(size_t n) { int o = sx_oom(0); void *p = malloc(n); sx_oom(o); return p; }      /* the library of FFLAS reports its own failures */
namespace FFLAS { enum FFLAS_DIAG { FflasNonUnit = 131, FflasUnit = 132 };
 template<typename T> T *fflas_new(size_t n) { return (T *) ff_malloc(n * sizeof(T)); }
 template<typename T> void fflas_delete(T *p) { free(p); } }

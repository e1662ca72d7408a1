/* engine-side model of the Givaro field type used by spasm_ffpack.cpp */
#pragma once
#include <stddef.h>
#include <stdlib.h>
#include <assert.h>
namespace Givaro { template<typename T> struct ModularBalanced { long p; ModularBalanced(long prime) : p(prime) {} }; }

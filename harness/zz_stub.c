/* Field arithmetic as an exact algebraic operation (assume-guarantee: property field-arithmetic decides that the real
   spasm_ZZp.c implements exactly this on normalised operands).  Only the symbolic executor links this file. */
#include "sx.h"
void stub__spasm_field_init(i64 p, spasm_field F) { F->p = p; if (p < 0) return; F->halfp = p / 2; F->mhalfp = p / 2 - p + 1; F->dinvp = 1. / ((double) p); }
#define OK(F, a) if (!sx_is_symbolic(a)) sx_assert((i64) (a) >= -(F)->p && (i64) (a) <= (F)->p, "field operation applied to an operand outside [-p, p]")
spasm_ZZp stub__spasm_ZZp_init(const spasm_field F, i64 x) { return sx_ff_init(F->p, x); }
spasm_ZZp stub__spasm_ZZp_add(const spasm_field F, spasm_ZZp a, spasm_ZZp b) { OK(F, a); OK(F, b); return sx_ff_add(F->p, a, b); }
spasm_ZZp stub__spasm_ZZp_sub(const spasm_field F, spasm_ZZp a, spasm_ZZp b) { OK(F, a); OK(F, b); return sx_ff_sub(F->p, a, b); }
spasm_ZZp stub__spasm_ZZp_mul(const spasm_field F, spasm_ZZp a, spasm_ZZp b) { OK(F, a); OK(F, b); return sx_ff_mul(F->p, a, b); }
spasm_ZZp stub__spasm_ZZp_inverse(const spasm_field F, spasm_ZZp a) { OK(F, a); return sx_ff_inv(F->p, a); }
spasm_ZZp stub__spasm_ZZp_axpy(const spasm_field F, spasm_ZZp a, spasm_ZZp x, spasm_ZZp y) { OK(F, a); OK(F, x); OK(F, y); return sx_ff_axpy(F->p, a, x, y); }

/* Instantiates every function of the arithmetic headers of the tree under analysis. */
#include "picotm/picotm-arithmetic.h"
#include "picotm/picotm-arithmetic-ctypes.h"

/* an application-specific range, as the documentation of the macros describes them */
#define OP(name, type, expr) static inline type name(type lhs, type rhs) { return expr; }
OP(v_add, int, lhs + rhs)
OP(v_sub, int, lhs - rhs)
OP(v_mul, int, lhs * rhs)
OP(v_div, int, lhs / rhs)
PICOTM_ARITHMETIC_ADD_S_TX(vrange, int, -1000, 999, 0, v_add, v_sub)
PICOTM_ARITHMETIC_SUB_S_TX(vrange, int, -1000, 999, 0, v_add, v_sub)
PICOTM_ARITHMETIC_MUL_S_TX(vrange, int, -1000, 999, 1, 0, v_mul, v_div)
PICOTM_ARITHMETIC_DIV_S_TX(vrange, int, -1000, 999, 1, 0, v_mul, v_div)
OP(vu_add, unsigned, lhs + rhs)
OP(vu_sub, unsigned, lhs - rhs)
OP(vu_mul, unsigned, lhs * rhs)
OP(vu_div, unsigned, lhs / rhs)
PICOTM_ARITHMETIC_ADD_U_TX(vurange, unsigned, 0, 999, 0, vu_add, vu_sub)
PICOTM_ARITHMETIC_SUB_U_TX(vurange, unsigned, 0, 999, 0, vu_add, vu_sub)
PICOTM_ARITHMETIC_MUL_U_TX(vurange, unsigned, 0, 999, 1, 0, vu_mul, vu_div)
PICOTM_ARITHMETIC_DIV_U_TX(vurange, unsigned, 0, 999, 1, 0, vu_mul, vu_div)

#pragma once
// Operation codes shared by the instrumentation pass and the runtime
enum SymOp {
  OP_CONST = 1, OP_VAR, OP_ADD, OP_SUB, OP_MUL, OP_DIV, OP_NEG, OP_SQRT, OP_ABS, OP_SIN, OP_COS, OP_TAN,
  OP_ASIN, OP_ACOS, OP_ATAN, OP_ATAN2, OP_EXP, OP_LOG, OP_POW, OP_FMOD, OP_FLOOR, OP_CEIL, OP_TRUNC, OP_ROUND,
  OP_MIN, OP_MAX, OP_HYPOT, OP_COPYSIGN, OP_CBRT, OP_CONCAT, OP_TOREAL, OP_HI, OP_UF
};

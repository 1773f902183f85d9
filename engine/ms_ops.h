#pragma once
// operation codes shared by the pass, the runtime and the explorer
enum : unsigned {
    OP_NONE = 0, OP_VAR, OP_CONST,
    OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR,
    OP_EQ, OP_NE, OP_UGT, OP_UGE, OP_ULT, OP_ULE, OP_SGT, OP_SGE, OP_SLT, OP_SLE,
    OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM, OP_FCMP, OP_FUN,
    OP_ZEXT, OP_SEXT, OP_TRUNC, OP_FPTOSI, OP_FPTOUI, OP_SITOFP, OP_UITOFP, OP_FPEXT, OP_FPTRUNC, OP_BITS, OP_FBITS,
    OP_EXTRACT, OP_CONCAT, OP_ITE, OP_OVF, OP_FPCLASS
};
enum : unsigned { FN_NEG = 1, FN_ABS, FN_SQRT, FN_FLOOR, FN_CEIL, FN_TRUNC, FN_ROUND, FN_RINT, FN_SIN, FN_COS, FN_TAN, FN_ASIN, FN_ACOS, FN_ATAN, FN_ATAN2, FN_EXP, FN_LOG, FN_POW, FN_HYPOT, FN_FMOD, FN_MIN, FN_MAX, FN_COPYSIGN, FN_SINH, FN_COSH, FN_TANH, FN_LOG10, FN_LOG2, FN_ASINH, FN_EXP2, FN_CBRT };
enum : unsigned { IN_SMIN = 1, IN_SMAX, IN_UMIN, IN_UMAX, IN_ABS, IN_USUBSAT, IN_UADDSAT, IN_UADDO, IN_USUBO, IN_UMULO, IN_SADDO, IN_SSUBO, IN_SMULO, IN_FPCLASS };
enum : unsigned { EV_BRANCH = 1, EV_PIN, EV_CONC, EV_ASSUME, EV_ASSERT, EV_REACH };

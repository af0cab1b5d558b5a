#pragma once
#include "expr.h"
enum FpKind : u8 { FP_SI2F, FP_UI2F, FP_EXT, FP_TRUNC, FP_F2SI, FP_F2UI, FP_CMP, FP_NEG, FP_ABS };
ExprId fpOp(unsigned kind, unsigned sub, ExprId a, ExprId b, unsigned w);

#pragma once
// operation codes shared by the pass and the runtime
enum SymOp {
    OP_CONST = 1, OP_VAR, OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR,
    OP_CONCAT, OP_EXTRACT, OP_TRUNC, OP_ZEXT, OP_SEXT, OP_ITE, OP_NOT,
    OP_EQ = 40, OP_NE, OP_ULT, OP_ULE, OP_UGT, OP_UGE, OP_SLT, OP_SLE, OP_SGT, OP_SGE,
    OP_UADDO, OP_USUBO, OP_SADDO, OP_SSUBO, OP_UMULO, OP_SMULO
};

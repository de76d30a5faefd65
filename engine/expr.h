// Hash-consed expression DAG over bit-vectors and IEEE floats, with constant
// folding, value-range analysis and exact lowering of dyadic float arithmetic
// to integers.
#pragma once
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>
#include <memory>

namespace sx {
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_NOT, O_SHL, O_LSHR, O_ASHR,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  // floats
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FSQRT, O_FNEG, O_FABS, O_FMA, O_FRINT,
  O_FEQ, O_FLT, O_FLE, O_FISNAN,
  O_FPEXT, O_FPTRUNC, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI,
  O_FBITS,   // fp -> bv (bit pattern)
  O_BITSF,   // bv -> fp
  O_DYAD,    // exact int * 2^-imm0 ; k[0] int, k[1] bool "zero is negative"
  O_UF,      // uninterpreted libm call; imm0 = name index
};
extern const char* kOpName[];
enum SortK : uint8_t { S_BV, S_F32, S_F64 };
// rounding modes for O_FRINT
enum { RM_NE, RM_NA, RM_DN, RM_UP, RM_TZ };

struct Expr {
  Op op; SortK sk; uint16_t w; uint8_t nk;
  uint32_t id; int32_t imm0 = 0, imm1 = 0;
  u128 c = 0;                // constant bits
  const Expr* k[3] = {nullptr, nullptr, nullptr};
  // ranges (BV w<=64 only)
  int64_t smin = 0, smax = 0; uint64_t umin = 0, umax = 0;
  // fp ranges
  double flo = 0, fhi = 0; bool fnan = true;
  mutable const std::vector<uint32_t>* vars = nullptr;
  bool isConst() const { return op == O_CONST; }
  bool isFP() const { return sk != S_BV; }
  bool isBool() const { return sk == S_BV && w == 1; }
  bool isTrue() const { return op == O_CONST && isBool() && c == 1; }
  bool isFalse() const { return op == O_CONST && isBool() && c == 0; }
};
typedef const Expr* E;

struct VarInfo {
  std::string name; uint16_t w; int kind;  // 0 nondet input, 1 undef, 2 aux
  E e;
};
extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> g_uf;
extern uint64_t g_nexprs;

u128 maskw(unsigned w);
E mkConst(unsigned w, u128 v);
E mkBool(bool b);
E mkF32(float f);
E mkF64(double d);
E mkFBitsConst(SortK sk, uint64_t bits);
E mkVar(unsigned w, const std::string& name, int kind);
E mkVarRange(unsigned w, const std::string& name, int kind, int64_t lo, int64_t hi);

E mkBin(Op op, E a, E b);
E mkNot(E a);                  // bitwise / boolean not
E mkAnd(E a, E b);             // boolean
E mkOr(E a, E b);
E mkIte(E c, E a, E b);
E mkEq(E a, E b);              // BV or bool
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);

E mkFBin(Op op, E a, E b);
E mkFUn(Op op, E a);
E mkFma(E a, E b, E c);
E mkFRint(E a, int rm);
E mkFEq(E a, E b); E mkFLt(E a, E b); E mkFLe(E a, E b); E mkFIsNan(E a);
E mkFConv(Op op, E a, SortK sk);          // FPEXT FPTRUNC SITOFP UITOFP
E mkFToI(Op op, E a, unsigned w);         // FPTOSI FPTOUI
E mkFBits(E f);
E mkBitsF(E b, SortK sk);
// a float variable with finite range [lo,hi]; the caller must add the range
// constraint to the path condition.
E mkRangedFloat(E bvvar, SortK sk, double lo, double hi);
E mkUF(const std::string& name, SortK sk, E a, E b);
bool isDyad(E e);

// Comparison of two floats by identity of value (NaN==NaN, +0 != -0).
E mkFIdent(E a, E b);

const std::vector<uint32_t>& varsOf(E e);

// axioms attached to an expression (UF contracts)
extern std::unordered_map<E, std::vector<E>> g_axioms;

struct Model {
  std::unordered_map<uint32_t, u128> var;            // var index -> value
  std::unordered_map<E, u128> uf;                    // UF app overrides
  bool nativeUF = true;
  mutable std::unordered_map<uint32_t, u128> memo;
};
u128 evalExpr(E e, const Model& m);
inline bool evalBool(E e, const Model& m) { return evalExpr(e, m) & 1; }
double nativeUF(const std::string& n, SortK sk, double a, double b);
std::string show(E e, int depth = 6);
bool polyTerms(E e, std::vector<std::pair<std::vector<E>, __int128>>& out);
float asF32(u128 b); double asF64(u128 b);
uint32_t bitsF32(float f); uint64_t bitsF64(double d);
}  // namespace sx

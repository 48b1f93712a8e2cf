// Hash-consed bit-vector expression DAG with local simplification.
#pragma once
#include <llvm/ADT/APInt.h>
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>
#include <z3.h>

using llvm::APInt;

enum Op : uint8_t {
  OConst, OVar, OConcat, OExtract, OZExt, OSExt,
  OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem,
  OAnd, OOr, OXor, OShl, OLShr, OAShr,
  OEq, OUlt, OUle, OSlt, OSle, OIte
};

struct Expr {
  Op op;
  uint32_t width;
  uint32_t id;
  uint32_t aux;            // OExtract: low bit; OVar: variable index
  const Expr *a, *b, *c;
  APInt val;               // OConst
  size_t hash;
  mutable const std::vector<uint32_t> *vars = nullptr;  // sorted free variables (interned)
  mutable Z3_ast zbv = nullptr, zbool = nullptr;
  mutable uint64_t evalEpoch = 0;
  mutable APInt evalVal;
  bool isConst() const { return op == OConst; }
};
using E = const Expr *;

struct VarInfo { std::string name; uint32_t width; E e; };
extern std::vector<VarInfo> gVars;

using Assignment = std::unordered_map<uint32_t, APInt>;

E mkConst(const APInt &v);
E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string &name, unsigned w);
E mkConcat(E hi, E lo);
E mkExtract(E x, unsigned lo, unsigned w);
E mkZExt(E x, unsigned w);
E mkSExt(E x, unsigned w);
E mkBin(Op op, E a, E b);
E mkIte(E c, E t, E e);
E mkNot(E x);       // 1-bit
inline E mkEq(E a, E b) { return mkBin(OEq, a, b); }
const std::vector<uint32_t> &freeVars(E e);
APInt evalExpr(E e, const Assignment &asg);
void newEvalEpoch();
size_t exprCount();
std::string exprStr(E e, int depth = 6);

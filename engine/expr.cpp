#include "expr.h"
#include <unordered_set>
#include <set>
#include <cassert>
#include <deque>
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>

std::vector<VarInfo> gVars;

namespace {
std::deque<Expr> gArena;
struct H { size_t operator()(E e) const { return e->hash; } };
struct EqF { bool operator()(E x, E y) const {
  if (x->op != y->op || x->width != y->width || x->aux != y->aux || x->a != y->a || x->b != y->b || x->c != y->c) return false;
  if (x->op == OConst) return x->val == y->val;
  return true; } };
std::unordered_set<E, H, EqF> gTab;

E intern(Expr &&t) {
  size_t h = llvm::hash_combine((unsigned)t.op, t.width, t.aux, t.a, t.b, t.c);
  if (t.op == OConst) h = llvm::hash_combine(h, llvm::hash_value(t.val));
  t.hash = h;
  auto it = gTab.find(&t);
  if (it != gTab.end()) return *it;
  t.id = gArena.size();
  gArena.push_back(std::move(t));
  E r = &gArena.back();
  gTab.insert(r);
  return r;
}
E raw(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, uint32_t aux = 0) {
  Expr t; t.op = op; t.width = w; t.a = a; t.b = b; t.c = c; t.aux = aux;
  return intern(std::move(t));
}
bool isZero(E e) { return e->isConst() && e->val.isZero(); }
bool isOnes(E e) { return e->isConst() && e->val.isAllOnes(); }
// number of known leading zero bits (cheap)
unsigned knownLZ(E e) {
  if (e->op == OConst) return e->val.countl_zero();
  if (e->op == OZExt) return e->width - e->a->width + knownLZ(e->a);
  if (e->op == OConcat && isZero(e->a)) return e->a->width + knownLZ(e->b);
  if (e->op == OIte) return std::min(knownLZ(e->b), knownLZ(e->c));
  if (e->op == OAnd) return std::max(knownLZ(e->a), knownLZ(e->b));
  if ((e->op == OXor || e->op == OOr) && (e->a->isConst() || e->b->isConst())) return std::min(knownLZ(e->a), knownLZ(e->b));
  if (e->op == OUDiv && e->b->isConst() && !e->b->val.isZero()) {
    unsigned k = knownLZ(e->a) + e->b->val.logBase2(); return std::min(k, e->width); }
  if (e->op == OURem && e->b->isConst() && !e->b->val.isZero()) return e->b->val.countl_zero();
  return 0;
}
}

size_t exprCount() { return gArena.size(); }

E mkConst(const APInt &v) { Expr t; t.op = OConst; t.width = v.getBitWidth(); t.a = t.b = t.c = nullptr; t.aux = 0; t.val = v; return intern(std::move(t)); }
E mkConst(uint64_t v, unsigned w) { return mkConst(APInt(w, v, false)); }
E mkVar(const std::string &name, unsigned w) {
  uint32_t i = gVars.size();
  E e = raw(OVar, w, nullptr, nullptr, nullptr, i);
  gVars.push_back({name, w, e});
  return e;
}

static E tryMerge(E hi, E lo) {
  // hi = Extract(y, l..): if lo is exactly the bits of y just below, merge.
  if (hi->op == OExtract) {
    E y = hi->a; unsigned l = hi->aux;
    if (l >= lo->width) {
      E cand = mkExtract(y, l - lo->width, lo->width);
      if (cand == lo) return mkExtract(y, l - lo->width, lo->width + hi->width);
    }
  }
  return nullptr;
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (hi->isConst() && lo->isConst()) {
    APInt v = hi->val.zext(w).shl(lo->width) | lo->val.zext(w);
    return mkConst(v);
  }
  if (isZero(hi)) return mkZExt(lo, w);
  if (E m = tryMerge(hi, lo)) return m;
  if (lo->op == OConcat) {
    if (E m = tryMerge(hi, lo->a)) return mkConcat(m, lo->b);
    if (hi->isConst() && lo->a->isConst()) return mkConcat(mkConcat(hi, lo->a), lo->b);
  }
  if (hi->op == OConcat) return mkConcat(hi->a, mkConcat(hi->b, lo));  // right-assoc
  if (hi->op == OZExt) return mkZExt(mkConcat(hi->a, lo), w);
  // hi Ite/const with the same condition
  if (hi->op == OIte && lo->op == OIte && hi->a == lo->a && hi->b->isConst() && hi->c->isConst() && lo->b->isConst() && lo->c->isConst())
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return raw(OConcat, w, hi, lo);
}

E mkExtract(E x, unsigned lo, unsigned w) {
  assert(lo + w <= x->width);
  if (w == x->width) return x;
  switch (x->op) {
  case OConst: return mkConst(x->val.extractBits(w, lo));
  case OExtract: return mkExtract(x->a, x->aux + lo, w);
  case OConcat: {
    unsigned lw = x->b->width;
    if (lo >= lw) return mkExtract(x->a, lo - lw, w);
    if (lo + w <= lw) return mkExtract(x->b, lo, w);
    return mkConcat(mkExtract(x->a, 0, lo + w - lw), mkExtract(x->b, lo, lw - lo));
  }
  case OZExt: {
    unsigned iw = x->a->width;
    if (lo >= iw) return mkConst(0, w);
    if (lo + w <= iw) return mkExtract(x->a, lo, w);
    return mkZExt(mkExtract(x->a, lo, iw - lo), w);
  }
  case OSExt: {
    unsigned iw = x->a->width;
    if (lo + w <= iw) return mkExtract(x->a, lo, w);
    if (lo == 0) return mkSExt(x->a, w);
    break;
  }
  case OAnd: case OOr: case OXor:
    return mkBin(x->op, mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
  case OIte:
    if (x->b->isConst() || x->c->isConst()) return mkIte(x->a, mkExtract(x->b, lo, w), mkExtract(x->c, lo, w));
    { auto split = [](E y) { return y->op == OConcat || y->op == OZExt; }; if (split(x->b) && split(x->c)) return mkIte(x->a, mkExtract(x->b, lo, w), mkExtract(x->c, lo, w)); }
    break;
  case OAdd: case OSub: case OMul:
    if (lo == 0) return mkBin(x->op, mkExtract(x->a, 0, w), mkExtract(x->b, 0, w));
    if (x->op == OMul && x->a->isConst() && lo + w < x->width) return mkExtract(mkBin(OMul, mkExtract(x->a, 0, lo + w), mkExtract(x->b, 0, lo + w)), lo, w);   // one form for merging
    if (x->op == OAdd && x->a->isConst() && x->a->val.countr_zero() >= lo) return mkBin(OAdd, mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
    break;
  default: break;
  }
  return raw(OExtract, w, x, nullptr, nullptr, lo);
}

E mkZExt(E x, unsigned w) {
  if (w == x->width) return x;
  assert(w > x->width);
  if (x->isConst()) return mkConst(x->val.zext(w));
  if (x->op == OZExt) return mkZExt(x->a, w);
  if (x->op == OIte && x->b->isConst() && x->c->isConst() ) return mkIte(x->a, mkZExt(x->b, w), mkZExt(x->c, w));
  return raw(OZExt, w, x);
}
E mkSExt(E x, unsigned w) {
  if (w == x->width) return x;
  if (x->isConst()) return mkConst(x->val.sext(w));
  if (x->op == OSExt) return mkSExt(x->a, w);
  if (x->op == OZExt) return mkZExt(x->a, w);
  if (x->op == OIte && x->b->isConst() && x->c->isConst()) return mkIte(x->a, mkSExt(x->b, w), mkSExt(x->c, w));
  if (x->width == 1) return mkIte(x, mkConst(APInt::getAllOnes(w)), mkConst(0, w));
  return raw(OSExt, w, x);
}

E mkNot(E x) {
  assert(x->width == 1);
  switch (x->op) {
  case OConst: return mkConst(x->val.isZero() ? 1 : 0, 1);
  case OUlt: return mkBin(OUle, x->b, x->a);
  case OUle: return mkBin(OUlt, x->b, x->a);
  case OSlt: return mkBin(OSle, x->b, x->a);
  case OSle: return mkBin(OSlt, x->b, x->a);
  case OXor: if (isOnes(x->a)) return x->b; break;
  default: break;
  }
  return raw(OXor, 1, mkConst(1, 1), x);
}

static bool isNotOf(E x, E y) { // x == ~y (1 bit)
  return x->op == OXor && isOnes(x->a) && x->b == y;
}

static APInt foldBin(Op op, const APInt &a, const APInt &b) {
  unsigned w = a.getBitWidth();
  auto B = [](bool v) { return APInt(1, v ? 1 : 0); };
  switch (op) {
  case OAdd: return a + b;
  case OSub: return a - b;
  case OMul: return a * b;
  case OUDiv: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
  case OSDiv: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
  case OURem: return b.isZero() ? a : a.urem(b);
  case OSRem: return b.isZero() ? a : a.srem(b);
  case OAnd: return a & b;
  case OOr: return a | b;
  case OXor: return a ^ b;
  case OShl: return b.uge(w) ? APInt(w, 0) : a.shl((unsigned)b.getZExtValue());
  case OLShr: return b.uge(w) ? APInt(w, 0) : a.lshr((unsigned)b.getZExtValue());
  case OAShr: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr((unsigned)b.getZExtValue());
  case OEq: return B(a == b);
  case OUlt: return B(a.ult(b));
  case OUle: return B(a.ule(b));
  case OSlt: return B(a.slt(b));
  case OSle: return B(a.sle(b));
  default: assert(0); return a;
  }
}

static bool commutes(Op op) { return op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq; }

static E disjointOr(E a, E b) {
  // Concat(x, 0_k) | ZExt(y), width(y) <= k  ->  Concat(x, zext_k(y))
  if (a->op == OConcat && b->op == OZExt) {
    // find the low zero block of a
    E lo = a->b;
    if (isZero(lo) && b->a->width <= lo->width) return mkConcat(a->a, mkZExt(b->a, lo->width));
    if (lo->op == OConcat || lo->op == OConst) {
      if (b->a->width <= lo->width) {
        E sub = nullptr;
        E bl = mkZExt(b->a, lo->width);
        if (lo->op == OConcat && bl->op == OZExt) sub = disjointOr(lo, bl);
        if (sub) return mkConcat(a->a, sub);
      }
    }
  }
  // ZExt(Concat(x,0)) | ZExt(y)
  if (a->op == OZExt && b->op == OZExt && a->a->op == OConcat && b->a->width < a->a->width) {
    E s = disjointOr(a->a, mkZExt(b->a, a->a->width));
    if (s) return mkZExt(s, a->width);
  }
  if (a->op == OConcat && b->op == OConcat && a->b->width == b->b->width && isZero(a->a) ) return nullptr;
  return nullptr;
}

// Wide division by a constant of a term that depends on one small variable only: rewritten to the equivalent decision tree
// over that variable (a full 128-bit divider circuit is what bit-blasting cannot handle).
static E tabulate(E var, const std::vector<APInt> &r, size_t lo, size_t hi) {
  bool same = true; for (size_t i = lo + 1; i < hi && same; ++i) same = r[i] == r[lo];
  if (same) return mkConst(r[lo]);
  size_t mid = (lo + hi) / 2;
  return mkIte(mkBin(OUlt, var, mkConst(mid, var->width)), tabulate(var, r, lo, mid), tabulate(var, r, mid, hi));
}
static E wideDiv(Op op, E a, E b) {
  if (a->width <= 64 || !b->isConst()) return nullptr;
  auto &fv = freeVars(a); if (fv.size() != 1 || gVars[fv[0]].width > 8) return nullptr;
  E var = gVars[fv[0]].e; size_t n = size_t(1) << var->width; std::vector<APInt> r; r.reserve(n);
  for (size_t i = 0; i < n; ++i) { Assignment m; m[fv[0]] = APInt(var->width, i); newEvalEpoch(); r.push_back(foldBin(op, evalExpr(a, m), b->val)); }
  newEvalEpoch();
  return tabulate(var, r, 0, n);
}

// the lowest piece of a value assembled by concatenation and zero extension
static E lowPiece(E e) { while (e->op == OConcat || e->op == OZExt) e = e->op == OConcat ? e->b : e->a; return e; }
// the widest low piece of a concatenation that a division by c does not touch
static unsigned cutAt(E a, const APInt &c) {
  if ((a->op != OConcat && a->op != OZExt) || c.isZero()) return 0; unsigned tz = c.countr_zero();
  for (E p = a; p->op == OConcat || p->op == OZExt;) { E q = p->op == OConcat ? p->b : p->a; if (q->width <= tz) return q->width; p = q; } return 0;
}

// x - k * (x / k) -> x % k, on the lowest bits as well; sign: +1 for x - b, -1 for x + b
static E asRemainder(E x, E b, bool negated) {
  unsigned w = b->width, tz = 0; if (b->op == OConcat && isZero(b->b)) { tz = b->b->width; b = b->a; }
  APInt c(w, 1); if (b->op == OMul && b->a->isConst()) { c = b->a->val.zext(w); b = b->b; } c = c.shl(tz);
  if (b->op == OExtract && b->aux == 0) b = b->a; while (b->op == OZExt) b = b->a; if (b->op != OUDiv || !b->b->isConst() || b->b->val.isZero()) return nullptr;
  E X = b->a; APInt k = b->b->val.zextOrTrunc(w); if (k != (negated ? -c : c) || b->b->val.getActiveBits() > w) return nullptr;
  if ((X->width >= w ? mkExtract(X, 0, w) : mkZExt(X, w)) != x) return nullptr;
  E r = mkBin(OURem, X, b->b); return X->width >= w ? mkExtract(r, 0, w) : mkZExt(r, w);
}
E mkBin(Op op, E a, E b) {
  unsigned w = a->width;
  assert(a->width == b->width);
  if (a->isConst() && b->isConst()) return mkConst(foldBin(op, a->val, b->val));
  if (w > 64 && (op == OUDiv || op == OURem || op == OSDiv || op == OSRem)) if (E r = wideDiv(op, a, b)) return r;
  if (commutes(op)) {
    if (b->isConst() || (!a->isConst() && b->id < a->id)) std::swap(a, b);
  }
  switch (op) {
  case OAdd:
    if (isZero(a)) return b;
    if (a->isConst() && b->op == OAdd && b->a->isConst()) return mkBin(OAdd, mkConst(a->val + b->a->val), b->b);
    if (a->isConst() && b->op == OSub && b->b->isConst()) return mkBin(OAdd, mkConst(a->val - b->b->val), b->a);
    if (w == 1) return mkBin(OXor, a, b);
    if (E r = disjointOr(a, b)) return r;
    if (E r = disjointOr(b, a)) return r;
    if (E r = asRemainder(a, b, true)) return r;
    if (E r = asRemainder(b, a, true)) return r;
    // x + (y - x) -> y
    if (b->op == OSub && b->b == a) return b->a;
    if (a->op == OSub && a->b == b) return a->a;
    if (a->isConst() && b->op == OIte && b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkBin(OAdd, a, b->b), mkBin(OAdd, a, b->c));
    if (a->isConst() && lowPiece(b)->width < w) { // the lowest piece is constant or not affected
      E p = lowPiece(b); unsigned lw = p->width; APInt hi = a->val.lshr(lw).trunc(w - lw);
      if (p->isConst()) { APInt s = p->val.zext(lw + 1) + a->val.trunc(lw).zext(lw + 1); if (s[lw]) ++hi; return mkConcat(mkBin(OAdd, mkConst(hi), mkExtract(b, lw, w - lw)), mkConst(s.trunc(lw))); }
      if (a->val.countr_zero() >= lw) return mkConcat(mkBin(OAdd, mkConst(hi), mkExtract(b, lw, w - lw)), p);
    }
    break;
  case OSub:
    if (a == b) return mkConst(0, w);
    if (isZero(b)) return a;
    if (b->isConst()) return mkBin(OAdd, mkConst(-b->val), a);
    if (w == 1) return mkBin(OXor, a, b);
    if (E r = asRemainder(a, b, false)) return r;
    if (a->op == OAdd) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (a->op == OAdd && b->op == OAdd && a->a->isConst() && b->a->isConst()) return mkBin(OAdd, mkConst(a->a->val - b->a->val), mkBin(OSub, a->b, b->b));
    if (a->isConst() && b->op == OAdd && b->a->isConst()) return mkBin(OSub, mkConst(a->val - b->a->val), b->b);
    break;
  case OMul:
    if (isZero(a)) return a;
    if (a->isConst()) {
      if (a->val.isOne()) return b;
      if (a->val.isPowerOf2()) return mkBin(OShl, b, mkConst(a->val.logBase2(), w));
      if (unsigned tz = a->val.countr_zero()) return mkConcat(mkBin(OMul, mkConst(a->val.lshr(tz).trunc(w - tz)), mkExtract(b, 0, w - tz)), mkConst(0, tz));
      if (b->op == OConcat && isZero(b->b)) { unsigned tz = b->b->width; return mkConcat(mkBin(OMul, mkConst(a->val.trunc(w - tz)), b->a), b->b); }
      if (b->op == OMul && b->a->isConst()) return mkBin(OMul, mkConst(a->val * b->a->val), b->b);
      if (b->op == OIte && b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkBin(OMul, a, b->b), mkBin(OMul, a, b->c));
    }
    if (w == 1) return mkBin(OAnd, a, b);
    break;
  case OUDiv:
    if (b->isConst()) {
      if (b->val.isOne()) return a;
      if (b->val.isPowerOf2()) return mkBin(OLShr, a, mkConst(b->val.logBase2(), w));
      if (unsigned tz = cutAt(a, b->val)) return mkZExt(mkBin(OUDiv, mkExtract(a, tz, w - tz), mkConst(b->val.lshr(tz).trunc(w - tz))), w);
      if (!b->val.isZero() && knownLZ(a) > b->val.countl_zero()) return mkConst(0, w);
      // narrow division
      if (!b->val.isZero()) { unsigned lz = std::min<unsigned>(knownLZ(a), b->val.countl_zero()); if (lz && w - lz >= 1) return mkZExt(mkBin(OUDiv, mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz)), w); }
    }
    break;
  case OURem:
    if (b->isConst()) {
      if (b->val.isOne()) return mkConst(0, w);
      if (b->val.isPowerOf2()) { unsigned k = b->val.logBase2(); return mkZExt(mkExtract(a, 0, k), w); }
      if (unsigned tz = cutAt(a, b->val)) return mkConcat(mkBin(OURem, mkExtract(a, tz, w - tz), mkConst(b->val.lshr(tz).trunc(w - tz))), mkExtract(a, 0, tz));
      if (!b->val.isZero() && knownLZ(a) > b->val.countl_zero()) return a;
      if (!b->val.isZero()) { unsigned lz = std::min<unsigned>(knownLZ(a), b->val.countl_zero()); if (lz && w - lz >= 1) return mkZExt(mkBin(OURem, mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz)), w); }
    }
    break;
  case OSDiv: case OSRem:
    if (knownLZ(a) > 0 && knownLZ(b) > 0) return mkBin(op == OSDiv ? OUDiv : OURem, a, b);
    break;
  case OAnd:
    if (a == b) return a;
    if (isZero(a)) return a;
    if (isOnes(a)) return b;
    if (w == 1) { if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(0, 1);
      // (a & b) & a
      if (b->op == OAnd && (b->a == a || b->b == a)) return b;
      if (a->op == OAnd && (a->a == b || a->b == b)) return a;
    }
    if (a->isConst()) {
      if (b->op == OAnd && b->a->isConst()) return mkBin(OAnd, mkConst(a->val & b->a->val), b->b);
      unsigned k = a->val.countr_one();
      if (k && a->val.getActiveBits() == k) return mkZExt(mkExtract(b, 0, k), w);
      // mask with contiguous high/low zero blocks: narrow
      unsigned tz = a->val.countr_zero();
      if (tz) return mkConcat(mkBin(OAnd, mkExtract(a, tz, w - tz), mkExtract(b, tz, w - tz)), mkConst(0, tz));
      unsigned lz = a->val.countl_zero();
      if (lz) return mkZExt(mkBin(OAnd, mkExtract(a, 0, w - lz), mkExtract(b, 0, w - lz)), w);
      if (b->op == OIte && b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkBin(OAnd, a, b->b), mkBin(OAnd, a, b->c));
    }
    if (a->op == OZExt && b->op == OZExt && a->a->width == b->a->width) return mkZExt(mkBin(OAnd, a->a, b->a), w);
    break;
  case OOr:
    if (a == b) return a;
    if (isZero(a)) return b;
    if (isOnes(a)) return a;
    if (w == 1) {
      if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(1, 1);
      return mkNot(mkBin(OAnd, mkNot(a), mkNot(b)));
    }
    if (E r = disjointOr(a, b)) return r;
    if (E r = disjointOr(b, a)) return r;
    if (a->op == OZExt && b->op == OZExt && a->a->width == b->a->width) return mkZExt(mkBin(OOr, a->a, b->a), w);
    if (a->isConst() && b->op == OIte && b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkBin(OOr, a, b->b), mkBin(OOr, a, b->c));
    // or of concats with the same split
    if (a->op == OConcat && b->op == OConcat && a->b->width == b->b->width) return mkConcat(mkBin(OOr, a->a, b->a), mkBin(OOr, a->b, b->b));
    if (a->op == OConcat && b->op == OZExt) { unsigned lw = a->b->width; return mkConcat(mkBin(OOr, a->a, mkExtract(b, lw, w - lw)), mkBin(OOr, a->b, mkExtract(b, 0, lw))); }
    if (b->op == OConcat && a->op == OZExt) { unsigned lw = b->b->width; return mkConcat(mkBin(OOr, b->a, mkExtract(a, lw, w - lw)), mkBin(OOr, b->b, mkExtract(a, 0, lw))); }
    if (a->isConst() && b->op == OConcat) { unsigned lw = b->b->width; return mkConcat(mkBin(OOr, mkExtract(a, lw, w - lw), b->a), mkBin(OOr, mkExtract(a, 0, lw), b->b)); }
    if (a->isConst() && b->op == OZExt) { unsigned lw = b->a->width; return mkConcat(mkExtract(a, lw, w - lw), mkBin(OOr, mkExtract(a, 0, lw), b->a)); }
    if ((a->op == OConcat || a->op == OZExt) && (b->op == OConcat || b->op == OZExt)) { unsigned lw = std::min(lowPiece(a)->width, lowPiece(b)->width); if (lw < w) return mkConcat(mkBin(OOr, mkExtract(a, lw, w - lw), mkExtract(b, lw, w - lw)), mkBin(OOr, mkExtract(a, 0, lw), mkExtract(b, 0, lw))); }
    break;
  case OXor:
    if (a == b) return mkConst(0, w);
    if (isZero(a)) return b;
    if (w == 1 && isOnes(a)) return mkNot(b);
    if (a->isConst() && b->op == OXor && b->a->isConst()) return mkBin(OXor, mkConst(a->val ^ b->a->val), b->b);
    if (w == 1 && b->op == OXor && isOnes(b->a)) return mkNot(mkBin(OXor, a, b->b));
    if (w == 1 && a->op == OXor && isOnes(a->a)) return mkNot(mkBin(OXor, a->b, b));
    if (a->op == OXor) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (b->op == OXor) { if (b->a == a) return b->b; if (b->b == a) return b->a; }
    if (a->op == OZExt && b->op == OZExt && a->a->width == b->a->width) return mkZExt(mkBin(OXor, a->a, b->a), w);
    break;
  case OShl:
    if (isZero(a)) return a;
    if (b->isConst()) {
      if (b->val.uge(w)) return mkConst(0, w);
      unsigned k = b->val.getZExtValue();
      if (k == 0) return a;
      return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k));
    }
    break;
  case OLShr:
    if (isZero(a)) return a;
    if (b->isConst()) {
      if (b->val.uge(w)) return mkConst(0, w);
      unsigned k = b->val.getZExtValue();
      if (k == 0) return a;
      return mkZExt(mkExtract(a, k, w - k), w);
    }
    break;
  case OAShr:
    if (isZero(a)) return a;
    if (b->isConst()) {
      unsigned k = b->val.uge(w) ? w - 1 : b->val.getZExtValue();
      if (k == 0) return a;
      return mkSExt(mkExtract(a, k, w - k), w);
    }
    break;
  case OEq:
    if (a == b) return mkConst(1, 1);
    if (w == 1) {
      if (a->isConst()) return a->val.isZero() ? mkNot(b) : b;
      return mkNot(mkBin(OXor, a, b));
    }
    if (a->isConst()) {
      switch (b->op) {
      case OZExt: {
        unsigned iw = b->a->width;
        if (a->val.getActiveBits() > iw) return mkConst(0, 1);
        return mkEq(mkConst(a->val.trunc(iw)), b->a);
      }
      case OSExt: {
        unsigned iw = b->a->width;
        if (a->val.trunc(iw).sext(w) != a->val) return mkConst(0, 1);
        return mkEq(mkConst(a->val.trunc(iw)), b->a);
      }
      case OConcat: {
        unsigned lw = b->b->width;
        return mkBin(OAnd, mkEq(mkExtract(a, lw, w - lw), b->a), mkEq(mkExtract(a, 0, lw), b->b));
      }
      case OAdd: if (b->a->isConst()) return mkEq(mkConst(a->val - b->a->val), b->b); break;
      case OXor: if (b->a->isConst()) return mkEq(mkConst(a->val ^ b->a->val), b->b);
                 if (a->val.isZero()) return mkEq(b->a, b->b); break;
      case OSub: if (a->val.isZero()) return mkEq(b->a, b->b);
                 if (b->a->isConst()) return mkEq(mkConst(b->a->val - a->val), b->b); break;
      case OIte:
        if (b->b->isConst()) {
          if (b->b->val == a->val) return mkBin(OOr, b->a, mkEq(a, b->c));
          return mkBin(OAnd, mkNot(b->a), mkEq(a, b->c));
        }
        if (b->c->isConst()) {
          if (b->c->val == a->val) return mkBin(OOr, mkNot(b->a), mkEq(a, b->b));
          return mkBin(OAnd, b->a, mkEq(a, b->b));
        }
        break;
      case OOr: if (a->val.isZero()) return mkBin(OAnd, mkEq(a, b->a), mkEq(a, b->b)); break;
      default: break;
      }
    } else {
      if (a->op == OZExt && b->op == OZExt) {
        if (a->a->width == b->a->width) return mkEq(a->a, b->a);
        unsigned iw = std::max(a->a->width, b->a->width);
        return mkEq(mkZExt(a->a, iw), mkZExt(b->a, iw));
      }
      if (a->op == OConcat && b->op == OConcat && a->a->width == b->a->width)
        return mkBin(OAnd, mkEq(a->a, b->a), mkEq(a->b, b->b));
      if (a->op == OSExt && b->op == OSExt && a->a->width == b->a->width) return mkEq(a->a, b->a);
      if (a->op == OAdd && b->op == OAdd) {
        if (a->a == b->a) return mkEq(a->b, b->b);
        if (a->b == b->b) return mkEq(a->a, b->a);
        if (a->a == b->b) return mkEq(a->b, b->a);
        if (a->b == b->a) return mkEq(a->a, b->b);
      }
      if (b->op == OAdd) { if (b->a == a) return mkEq(mkConst(0, w), b->b); if (b->b == a) return mkEq(mkConst(0, w), b->a); }
      if (a->op == OAdd) { if (a->a == b) return mkEq(mkConst(0, w), a->b); if (a->b == b) return mkEq(mkConst(0, w), a->a); }
    }
    return raw(OEq, 1, a, b);
  case OUlt: {
    if (a == b) return mkConst(0, 1);
    if (isZero(b)) return mkConst(0, 1);
    if (isZero(a)) return mkNot(mkEq(a, b));
    if (isOnes(a)) return mkConst(0, 1);
    if (b->isConst() && b->val.isOne()) return mkEq(mkConst(0, w), a);
    unsigned la = knownLZ(a), lb = knownLZ(b);
    if (b->isConst() && la > lb) return mkConst(1, 1);
    if (a->isConst() && lb > la) return mkConst(0, 1);
    unsigned l = std::min(la, lb);
    if (l && l < w) return mkBin(OUlt, mkExtract(a, 0, w - l), mkExtract(b, 0, w - l));
    if (b->isConst() && a->op == OIte && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    if (a->isConst() && b->op == OIte && b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    if (a->isConst() && b->op == OConcat && b->b->isConst()) { // constant low part: compare the high parts
      unsigned lw = b->b->width; E ah = mkConst(a->val.lshr(lw).trunc(w - lw)); return mkBin(a->val.trunc(lw).ult(b->b->val) ? OUle : OUlt, ah, b->a);
    }
    if (a->isConst() && b->op == OConcat && a->val.countr_one() >= b->b->width) return mkBin(OUlt, mkConst(a->val.lshr(b->b->width).trunc(w - b->b->width)), b->a);
    if (b->isConst() && a->op == OConcat && b->val.countr_zero() >= a->b->width) return mkBin(OUlt, a->a, mkConst(b->val.lshr(a->b->width).trunc(w - a->b->width)));
    if (b->isConst() && a->op == OXor && b->val.isPowerOf2() && !a->a->isConst()) { unsigned k = b->val.logBase2(); if (k && k < w) return mkEq(mkExtract(a->a, k, w - k), mkExtract(a->b, k, w - k)); }
    if (b->isConst() && a->op == OConcat && a->b->isConst()) {
      unsigned lw = a->b->width; E bh = mkConst(b->val.lshr(lw).trunc(w - lw)); return mkBin(a->b->val.ult(b->val.trunc(lw)) ? OUle : OUlt, a->a, bh);
    }
    return raw(OUlt, 1, a, b);
  }
  case OUle: {
    if (a == b) return mkConst(1, 1);
    if (isZero(a)) return mkConst(1, 1);
    if (isOnes(b)) return mkConst(1, 1);
    if (isZero(b)) return mkEq(b, a);
    unsigned la = knownLZ(a), lb = knownLZ(b);
    if (b->isConst() && la > lb) return mkConst(1, 1);
    if (a->isConst() && lb > la) return mkConst(0, 1);
    unsigned l = std::min(la, lb);
    if (l && l < w) return mkBin(OUle, mkExtract(a, 0, w - l), mkExtract(b, 0, w - l));
    if (b->isConst() && a->op == OIte && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    if (a->isConst() && b->op == OIte && b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    if ((a->isConst() && b->op == OConcat && a->val.countr_zero() >= b->b->width) || (b->isConst() && a->op == OConcat && b->val.countr_one() >= a->b->width)) return mkNot(mkBin(OUlt, b, a));
    if ((a->isConst() && b->op == OConcat && b->b->isConst()) || (b->isConst() && a->op == OConcat && a->b->isConst())) return mkNot(mkBin(OUlt, b, a));
    return raw(OUle, 1, a, b);
  }
  case OSlt: case OSle: {
    if (a == b) return mkConst(op == OSle, 1);
    if (knownLZ(a) > 0 && knownLZ(b) > 0) return mkBin(op == OSlt ? OUlt : OUle, a, b);
    if (w == 1) { // signed 1 bit: 1 is -1
      if (op == OSlt) return mkBin(OAnd, a, mkNot(b));
      return mkBin(OOr, a, mkNot(b));
    }
    if (a->op == OSExt && b->op == OSExt && a->a->width == b->a->width) return mkBin(op, a->a, b->a);
    if (a->op == OSExt && b->isConst() && b->val.trunc(a->a->width).sext(w) == b->val) return mkBin(op, a->a, mkConst(b->val.trunc(a->a->width)));
    if (b->op == OSExt && a->isConst() && a->val.trunc(b->a->width).sext(w) == a->val) return mkBin(op, mkConst(a->val.trunc(b->a->width)), b->a);
    if (op == OSlt && isZero(b)) return mkExtract(a, w - 1, 1);            // a < 0
    if (op == OSle && isZero(a)) return mkNot(mkExtract(b, w - 1, 1));     // 0 <= b
    if (op == OSlt && isOnes(a)) return mkNot(mkExtract(b, w - 1, 1));     // -1 < b
    if (op == OSle && isOnes(b)) return mkExtract(a, w - 1, 1);            // a <= -1
    if (b->isConst() && a->op == OIte && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    if (a->isConst() && b->op == OIte && b->b->isConst() && b->c->isConst()) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    return raw(op, 1, a, b);
  }
  default: break;
  }
  return raw(op, w, a, b);
}

E mkIte(E c, E t, E e) {
  assert(c->width == 1 && t->width == e->width);
  if (c->isConst()) return c->val.isZero() ? e : t;
  if (t == e) return t;
  if (c->op == OXor && isOnes(c->a)) return mkIte(c->b, e, t);
  if (t->width == 1) {
    if (t->isConst() && e->isConst()) return t->val.isZero() ? mkNot(c) : c;
    if (t->isConst()) return t->val.isZero() ? mkBin(OAnd, mkNot(c), e) : mkBin(OOr, c, e);
    if (e->isConst()) return e->val.isZero() ? mkBin(OAnd, c, t) : mkBin(OOr, mkNot(c), t);
  }
  if (t->op == OIte && t->a == c) t = t->b;
  if (e->op == OIte && e->a == c) e = e->c;
  if (t == e) return t;
  return raw(OIte, t->width, c, t, e);
}

// ---- free variables
static std::set<std::vector<uint32_t>> gVarSets;
static const std::vector<uint32_t> gEmpty;
const std::vector<uint32_t> &freeVars(E e) {
  if (e->vars) return *e->vars;
  if (e->op == OConst) { e->vars = &gEmpty; return gEmpty; }
  std::vector<uint32_t> r;
  if (e->op == OVar) r.push_back(e->aux);
  else {
    const std::vector<uint32_t> *last = nullptr;
    for (E k : {e->a, e->b, e->c}) if (k) {
      auto &v = freeVars(k);
      if (v.empty() || &v == last) continue;
      last = &v;
      std::vector<uint32_t> m; m.reserve(r.size() + v.size());
      std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(m));
      r.swap(m);
    }
  }
  e->vars = &*gVarSets.insert(std::move(r)).first;
  return *e->vars;
}

// ---- evaluation
static uint64_t gEpoch = 1;
void newEvalEpoch() { ++gEpoch; }
static const APInt &ev(E e, const Assignment &asg) {
  if (e->op == OConst) return e->val;
  if (e->evalEpoch == gEpoch) return e->evalVal;
  APInt r;
  switch (e->op) {
  case OVar: { auto it = asg.find(e->aux); r = it == asg.end() ? APInt(e->width, 0) : it->second; break; }
  case OConcat: { const APInt &h = ev(e->a, asg); const APInt &l = ev(e->b, asg); r = h.zext(e->width).shl(e->b->width) | l.zext(e->width); break; }
  case OExtract: r = ev(e->a, asg).extractBits(e->width, e->aux); break;
  case OZExt: r = ev(e->a, asg).zext(e->width); break;
  case OSExt: r = ev(e->a, asg).sext(e->width); break;
  case OIte: r = ev(e->a, asg).isZero() ? ev(e->c, asg) : ev(e->b, asg); break;
  default: { APInt x = ev(e->a, asg); r = foldBin(e->op, x, ev(e->b, asg)); }
  }
  e->evalVal = r;
  e->evalEpoch = gEpoch;
  return e->evalVal;
}
APInt evalExpr(E e, const Assignment &asg) { return ev(e, asg); }

std::string exprStr(E e, int d) {
  static const char *n[] = {"const","var","concat","extract","zext","sext","+","-","*","udiv","sdiv","urem","srem","&","|","^","shl","lshr","ashr","==","ult","ule","slt","sle","ite"};
  if (e->op == OConst) { llvm::SmallString<32> s; e->val.toString(s, 16, false); return "0x" + std::string(s.str()); }
  if (e->op == OVar) return gVars[e->aux].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + n[e->op];
  if (e->op == OExtract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
  if (e->op == OZExt || e->op == OSExt) s += std::to_string(e->width);
  for (E k : {e->a, e->b, e->c}) if (k) s += " " + exprStr(k, d - 1);
  return s + ")";
}

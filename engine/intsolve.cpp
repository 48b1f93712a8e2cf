// Integer arithmetic back end: bit-vector queries with wide multiplications, divisions and remainders are translated exactly to
// (mostly linear) integer arithmetic - every bit-vector value is an integer in [0, 2^w), an operation that can leave the range is
// followed by a reduction modulo 2^w - and given to Z3's arithmetic solver. Terms that have no such form make it answer Unknown.
#include "solver.h"
#include <llvm/ADT/SmallString.h>
#include <unordered_map>
#include <map>
#include <chrono>
#include <cstring>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <errno.h>
#include <sys/wait.h>

namespace {
const unsigned W = 640;   // widths of interval bounds
struct T { Z3_ast t; APInt lo, hi; APInt ones; };   // term, interval, bits that can be set
struct Fail {};
struct Int {
  Z3_context c; Z3_sort is; std::unordered_map<E, T> tm; std::unordered_map<E, Z3_ast> bm; std::vector<Z3_ast> side; std::map<uint32_t, Z3_ast> vars; bool nonlinear = false; size_t budget = 40000;
  std::map<uint32_t, APInt> vhi;
  Int() { Z3_config cfg = Z3_mk_config(); c = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c, [](Z3_context, Z3_error_code) {}); is = Z3_mk_int_sort(c); }
  ~Int() { Z3_del_context(c); }
  static APInt P2(unsigned k) { return APInt::getOneBitSet(W, k); }
  Z3_ast num(const APInt &v) { llvm::SmallString<200> s; v.toString(s, 10, true); return Z3_mk_numeral(c, s.c_str(), is); }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast k[2] = {a, b}; return Z3_mk_add(c, 2, k); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast k[2] = {a, b}; return Z3_mk_sub(c, 2, k); }
  Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast k[2] = {a, b}; return Z3_mk_mul(c, 2, k); }
  static APInt maskFor(const APInt &hi) { unsigned n = hi.getActiveBits(); return APInt::getLowBitsSet(W, n); }
  T mk(Z3_ast t, APInt lo, APInt hi) { return {t, lo, hi, maskFor(hi)}; }
  T K(const APInt &v) { return {num(v), v, v, v}; }
  // reduce a term with interval [lo,hi] (possibly negative lo) into [0,2^w)
  T wrap(Z3_ast t, APInt lo, APInt hi, unsigned w) {
    APInt m = P2(w); if (!lo.isNegative() && hi.slt(m)) return mk(t, lo, hi);
    if (lo.sge(-m) && hi.slt(m)) { return mk(Z3_mk_ite(c, Z3_mk_lt(c, t, num(APInt(W, 0))), add(t, num(m)), t), APInt(W, 0), m - 1); }
    if (!lo.isNegative() && hi.slt(m + m)) { return mk(Z3_mk_ite(c, Z3_mk_ge(c, t, num(m)), sub(t, num(m)), t), APInt(W, 0), m - 1); }
    return mk(Z3_mk_mod(c, t, num(m)), APInt(W, 0), m - 1);
  }
  T divc(const T &a, const APInt &k) { if (k == 1) return a; return mk(Z3_mk_div(c, a.t, num(k)), a.lo.udiv(k), a.hi.udiv(k)); }
  T modc(const T &a, const APInt &k) { if (a.hi.ult(k)) return a; T r = mk(Z3_mk_mod(c, a.t, num(k)), APInt(W, 0), k - 1); if (k.isPowerOf2()) r.ones = a.ones & (k - 1); return r; }
  T low(const T &a, unsigned k) { if (a.hi.ult(P2(k))) return a; T r = modc(a, P2(k)); return r; }
  T hiPart(const T &a, unsigned k) { if (!k) return a; T r = divc(a, P2(k)); r.ones = a.ones.lshr(k); return r; }
  T andc(const T &a, const APInt &m0, unsigned w) { // runs of ones
    APInt m = m0 & a.ones; if (m.isZero()) return K(APInt(W, 0)); if (m == a.ones) return a;
    Z3_ast sum = nullptr; unsigned runs = 0; for (unsigned i = 0; i < w;) { if (!m[i]) { ++i; continue; } unsigned j = i; while (j < w && m[j]) ++j; if (++runs > 4) throw Fail(); T p = hiPart(a, i); p = low(p, j - i); Z3_ast t = i ? mul(p.t, num(P2(i))) : p.t; sum = sum ? add(sum, t) : t; i = j; }
    T r = mk(sum, APInt(W, 0), m.ult(a.hi) ? m : a.hi); r.ones = m; return r;
  }
  Z3_ast signedOf(const T &a, unsigned w, APInt *lo = nullptr, APInt *hi = nullptr) {
    APInt h = P2(w - 1), m = P2(w);
    if (a.hi.ult(h)) { if (lo) *lo = a.lo, *hi = a.hi; return a.t; }
    if (a.lo.uge(h)) { if (lo) *lo = a.lo - m, *hi = a.hi - m; return sub(a.t, num(m)); }
    if (lo) *lo = -h, *hi = h - 1; return Z3_mk_ite(c, Z3_mk_ge(c, a.t, num(h)), sub(a.t, num(m)), a.t);
  }
  T fromBool(Z3_ast b) { return mk(Z3_mk_ite(c, b, num(APInt(W, 1)), num(APInt(W, 0))), APInt(W, 0), APInt(W, 1)); }
  T bv(E e) {
    auto it = tm.find(e); if (it != tm.end()) return it->second; if (!budget) throw Fail(); --budget;
    T r = calc(e); if (r.lo == r.hi) r = K(r.lo); tm.emplace(e, r); return r;
  }
  T calc(E e) {
    unsigned w = e->width; if (w > 256) throw Fail(); APInt Z(W, 0), m = P2(w);
    switch (e->op) {
    case OConst: return K(e->val.zext(W));
    case OVar: { Z3_ast &v = vars[e->aux]; if (!v) { v = Z3_mk_const(c, Z3_mk_string_symbol(c, ("v" + std::to_string(e->aux)).c_str()), is); side.push_back(Z3_mk_ge(c, v, num(Z))); side.push_back(Z3_mk_lt(c, v, num(m))); } APInt hi = m - 1; auto it = vhi.find(e->aux); if (it != vhi.end() && it->second.ult(hi)) hi = it->second; return mk(v, Z, hi); }
    case OConcat: { T h = bv(e->a), l = bv(e->b); unsigned k = e->b->width; if (h.hi.isZero()) return l; T r = mk(l.hi.isZero() ? mul(h.t, num(P2(k))) : add(mul(h.t, num(P2(k))), l.t), h.lo.shl(k) + l.lo, h.hi.shl(k) + l.hi); r.ones = h.ones.shl(k) | l.ones; return r; }
    case OExtract: return low(hiPart(bv(e->a), e->aux), w);
    case OZExt: return bv(e->a);
    case OSExt: { T a = bv(e->a); unsigned k = e->a->width; if (a.hi.ult(P2(k - 1))) return a; APInt d = m - P2(k); return mk(Z3_mk_ite(c, Z3_mk_ge(c, a.t, num(P2(k - 1))), add(a.t, num(d)), a.t), Z, m - 1); }
    case OAdd: { T a = bv(e->a), b = bv(e->b);
      // adding a constant with the top bit set is a subtraction
      for (int i = 0; i < 2; ++i) { const T &x = i ? b : a, &y = i ? a : b; if (x.lo == x.hi && x.lo.uge(P2(w - 1))) { APInt k = m - x.lo; return wrap(sub(y.t, num(k)), y.lo - k, y.hi - k, w); } }
      return wrap(add(a.t, b.t), a.lo + b.lo, a.hi + b.hi, w); }
    case OSub: { T a = bv(e->a), b = bv(e->b); return wrap(sub(a.t, b.t), a.lo - b.hi, a.hi - b.lo, w); }
    case OMul: { T a = bv(e->a), b = bv(e->b); bool ca = a.lo == a.hi, cb = b.lo == b.hi;
      if (!ca && !cb) nonlinear = true; else { const T &k = ca ? a : b, &x = ca ? b : a; if (k.lo.uge(P2(w - 1))) { APInt n = m - k.lo; return wrap(mul(x.t, num(-n)), -(x.hi * n), -(x.lo * n), w); } }
      return wrap(mul(a.t, b.t), a.lo * b.lo, a.hi * b.hi, w); }
    case OUDiv: case OURem: { T a = bv(e->a), b = bv(e->b); if (b.lo == b.hi) { if (b.lo.isZero()) throw Fail(); return e->op == OUDiv ? divc(a, b.lo) : modc(a, b.lo); }
      nonlinear = true; Z3_ast z = Z3_mk_eq(c, b.t, num(Z)); APInt hi = m - 1;
      if (e->op == OUDiv) return mk(Z3_mk_ite(c, z, num(hi), Z3_mk_div(c, a.t, b.t)), Z, b.lo.isZero() ? hi : a.hi); return mk(Z3_mk_ite(c, z, a.t, Z3_mk_mod(c, a.t, b.t)), Z, a.hi); }
    case OSDiv: case OSRem: { T a = bv(e->a), b = bv(e->b); if (b.lo != b.hi || b.lo.isZero()) throw Fail(); bool neg = b.lo.uge(P2(w - 1)); APInt k = neg ? m - b.lo : b.lo; APInt lo, hi; Z3_ast s = signedOf(a, w, &lo, &hi);
      Z3_ast isneg = Z3_mk_lt(c, s, num(Z)), abs = Z3_mk_ite(c, isneg, sub(num(Z), s), s); if (!lo.isNegative()) abs = s;
      Z3_ast q = e->op == OSDiv ? Z3_mk_div(c, abs, num(k)) : Z3_mk_mod(c, abs, num(k)); APInt mx = lo.abs().ugt(hi.abs()) ? lo.abs() : hi.abs(); APInt qm = e->op == OSDiv ? mx.udiv(k) : k - 1;
      if (!lo.isNegative() && !(neg && e->op == OSDiv)) return wrap(q, Z, qm, w);
      bool flip = neg && e->op == OSDiv; Z3_ast r = Z3_mk_ite(c, isneg, flip ? q : sub(num(Z), q), flip ? sub(num(Z), q) : q); return wrap(r, -qm, qm, w); }
    case OAnd: case OOr: case OXor: {
      if (w == 1) return fromBool(bl(e));
      T a = bv(e->a), b = bv(e->b); if ((a.ones & b.ones).isZero()) { if (e->op == OAnd) return K(Z); T r = mk(add(a.t, b.t), a.lo + b.lo, a.hi + b.hi); r.ones = a.ones | b.ones; return r; }
      bool ca = a.lo == a.hi, cb = b.lo == b.hi; if (!ca && !cb) throw Fail(); const T &k = ca ? a : b, &x = ca ? b : a;
      if (e->op == OXor && k.lo == m - 1) return mk(sub(num(m - 1), x.t), m - 1 - x.hi, m - 1 - x.lo);
      T y = andc(x, k.lo, w); if (e->op == OAnd) return y;
      if (e->op == OOr) { T r = mk(sub(add(x.t, k.t), y.t), k.lo, m - 1); r.ones = x.ones | k.lo; return r; }
      T r = mk(sub(add(x.t, k.t), mul(y.t, num(APInt(W, 2)))), Z, m - 1); return r; }
    case OShl: { T a = bv(e->a), b = bv(e->b); if (b.lo != b.hi) throw Fail(); if (b.lo.uge(w)) return K(Z); unsigned k = b.lo.getZExtValue(); a = low(a, w - k); T r = mk(mul(a.t, num(P2(k))), a.lo.shl(k), a.hi.shl(k)); r.ones = a.ones.shl(k); return r; }
    case OLShr: { T a = bv(e->a), b = bv(e->b); if (b.lo != b.hi) throw Fail(); if (b.lo.uge(w)) return K(Z); return hiPart(a, b.lo.getZExtValue()); }
    case OAShr: { T a = bv(e->a), b = bv(e->b); if (b.lo != b.hi) throw Fail(); unsigned k = b.lo.getLimitedValue(w - 1); if (a.hi.ult(P2(w - 1))) return hiPart(a, k); APInt lo, hi; Z3_ast s = signedOf(a, w, &lo, &hi); return wrap(Z3_mk_div(c, s, num(P2(k))), lo.ashr(k), hi.ashr(k), w); }
    case OIte: { if (w == 1) return fromBool(bl(e)); Z3_ast k = bl(e->a); T t = bv(e->b), f = bv(e->c); T r = mk(Z3_mk_ite(c, k, t.t, f.t), t.lo.ult(f.lo) ? t.lo : f.lo, t.hi.ugt(f.hi) ? t.hi : f.hi); r.ones = t.ones | f.ones; return r; }
    default: return fromBool(bl(e));
    }
  }
  Z3_ast bl(E e) { auto it = bm.find(e); if (it != bm.end()) return it->second; if (!budget) throw Fail(); --budget; Z3_ast r = calcb(e); bm.emplace(e, r); return r; }
  Z3_ast calcb(E e) {
    switch (e->op) {
    case OConst: return e->val.isZero() ? Z3_mk_false(c) : Z3_mk_true(c);
    case OEq: if (e->a->width == 1) return Z3_mk_iff(c, bl(e->a), bl(e->b)); { T a = bv(e->a), b = bv(e->b); if (a.hi.ult(b.lo) || b.hi.ult(a.lo)) return Z3_mk_false(c); return Z3_mk_eq(c, a.t, b.t); }
    case OUlt: case OUle: {
      // q <= n / d  <=>  d = 0 or q * d <= n ;  n / d <= q  <=>  not q + 1 <= n / d
      E x = e->a, y = e->b; bool neg = false, plus = e->op == OUlt; while (x->op == OZExt) x = x->a; while (y->op == OZExt) y = y->a;
      if (y->op == OUDiv && !y->b->isConst()) x = e->a; else if (x->op == OUDiv && !x->b->isConst()) { E t = e->b; y = x; x = t; neg = true; plus = e->op == OUle; } else y = nullptr;
      if (y) {   // x + plus <= y
        T q = bv(x), n = bv(y->a), d = bv(y->b); Z3_ast qt = plus ? add(q.t, num(APInt(W, 1))) : q.t; if (q.lo != q.hi) nonlinear = true;
        Z3_ast inf = Z3_mk_le(c, qt, num(P2(y->width) - 1)); // the quotient by zero is all ones
        Z3_ast k[2] = {Z3_mk_eq(c, d.t, num(APInt(W, 0))), nullptr}, zq[2] = {k[0], inf}, nz[2] = {Z3_mk_not(c, k[0]), Z3_mk_le(c, mul(qt, d.t), n.t)}; Z3_ast alt[2] = {Z3_mk_and(c, 2, zq), Z3_mk_and(c, 2, nz)}; Z3_ast r = Z3_mk_or(c, 2, alt); return neg ? Z3_mk_not(c, r) : r;
      }
      T a = bv(e->a), b = bv(e->b); return e->op == OUlt ? Z3_mk_lt(c, a.t, b.t) : Z3_mk_le(c, a.t, b.t); }
    case OSlt: case OSle: { T a = bv(e->a), b = bv(e->b); unsigned w = e->a->width; Z3_ast x = signedOf(a, w), y = signedOf(b, w); return e->op == OSlt ? Z3_mk_lt(c, x, y) : Z3_mk_le(c, x, y); }
    case OAnd: case OOr: { Z3_ast k[2] = {bl(e->a), bl(e->b)}; return e->op == OAnd ? Z3_mk_and(c, 2, k) : Z3_mk_or(c, 2, k); }
    case OXor: return Z3_mk_xor(c, bl(e->a), bl(e->b));
    case OIte: return Z3_mk_ite(c, bl(e->a), bl(e->b), bl(e->c));
    case OVar: case OExtract: case OZExt: case OSExt: case OConcat: case OUDiv: case OURem: case OSDiv: case OSRem: case OShl: case OLShr: case OAShr: { if (e->op == OVar) { T v = calc(e); return Z3_mk_eq(c, v.t, num(APInt(W, 1))); } T v = calc(e); return Z3_mk_eq(c, v.t, num(APInt(W, 1))); }
    case OAdd: case OSub: return Z3_mk_xor(c, bl(e->a), bl(e->b));
    case OMul: { Z3_ast k[2] = {bl(e->a), bl(e->b)}; return Z3_mk_and(c, 2, k); }
    default: throw Fail();
    }
  }
};
// how many low bits of a term can be nonzero
unsigned effective(E e) {
  if (e->isConst()) return e->val.getActiveBits();
  if (e->op == OZExt) return effective(e->a);
  if (e->op == OConcat) { unsigned h = effective(e->a); return h ? h + e->b->width : effective(e->b); }
  return e->width;
}
bool hasArith(E e, std::unordered_map<E, bool> &m, int &budget) {
  if (!e) return false; auto it = m.find(e); if (it != m.end()) return it->second; if (--budget < 0) return false;
  bool r = (e->op == OUDiv || e->op == OURem || e->op == OSDiv || e->op == OSRem || e->op == OMul) && e->width >= 16 && effective(e->a) + (e->op == OMul ? effective(e->b) : 0) > 16; m[e] = false;
  if (!r) r = hasArith(e->a, m, budget) || hasArith(e->b, m, budget) || hasArith(e->c, m, budget);
  return m[e] = r;
}
}

// the query as SMT-LIB text; false when it has no integer form
static bool translate(const std::vector<E> &cs, std::string &text) {
  try {
    Int I; std::vector<Z3_ast> as;
    std::vector<E> todo(cs.begin(), cs.end()), lits; while (!todo.empty()) { E e = todo.back(); todo.pop_back(); if (e->op == OAnd && e->width == 1) { todo.push_back(e->a); todo.push_back(e->b); } else lits.push_back(e); }
    for (int pass = 0; pass < 2; ++pass) for (E e : lits) { // upper bounds of variables sharpen the intervals
      bool neg = false; E x = e; if (x->op == OXor && x->width == 1 && x->a->isConst() && !x->a->val.isZero()) { neg = true; x = x->b; }
      if (x->op != OUlt && x->op != OUle) continue; E v = neg ? x->b : x->a, k = neg ? x->a : x->b;
      { // q <= n / v with constants q and n bounds v by n / q
        E d = k; while (d->op == OZExt) d = d->a; E u = d->op == OUDiv ? d->b : nullptr; while (u && u->op == OZExt) u = u->a;
        if (u && u->op == OExtract && !u->aux && u->a->op == OVar) { auto it = I.vhi.find(u->a->aux); if (it != I.vhi.end() && it->second.getActiveBits() <= u->width) u = u->a; }
        if (u && u->op == OVar && d->a->isConst() && v->isConst()) { APInt q = v->val.zext(W); if ((x->op == OUlt) != neg) q += 1; if (!q.isZero()) { APInt b = d->a->val.zext(W).udiv(q); auto it = I.vhi.find(u->aux); if (it == I.vhi.end() || b.ult(it->second)) I.vhi[u->aux] = b; } continue; }
      }
      while (v->op == OZExt) v = v->a; if (v->op != OVar || !k->isConst()) continue;
      APInt b = k->val.zext(W); bool strict = (x->op == OUlt) != neg; if (strict) { if (b.isZero()) continue; b -= 1; } auto it = I.vhi.find(v->aux); if (it == I.vhi.end() || b.ult(it->second)) I.vhi[v->aux] = b;
    }
    if (getenv("INT_STR")) for (E e : lits) fprintf(stderr, "LIT %s\n", exprStr(e, 12).c_str());
    for (E e : lits) as.push_back(I.bl(e));
    Z3_solver s = Z3_mk_simple_solver(I.c); Z3_solver_inc_ref(I.c, s);
    for (auto a : I.side) Z3_solver_assert(I.c, s, a); for (auto a : as) Z3_solver_assert(I.c, s, a);
    text = I.nonlinear ? "(set-logic QF_NIA)\n" : "(set-logic QF_LIA)\n"; text += Z3_solver_to_string(I.c, s); text += "(check-sat)\n"; Z3_solver_dec_ref(I.c, s); return true;
  } catch (const Fail &) { return false; }
}
static bool put(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = write(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= k; } return true; }
static bool get(int fd, void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t k = read(fd, c, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; c += k; n -= k; } return true; }
// A worker process answers the queries: Z3 does not always honour its timeout, so that it has to be possible to kill it.
static std::string answer(const std::string &text) {
  Z3_config cfg = Z3_mk_config(); Z3_context c = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(c, [](Z3_context, Z3_error_code) {});
  Z3_solver s = Z3_mk_simple_solver(c); Z3_solver_inc_ref(c, s); Z3_solver_from_string(c, s, text.c_str()); std::string o = "?";
  if (Z3_get_error_code(c) == Z3_OK) {
    Z3_lbool r = Z3_solver_check(c, s); if (r == Z3_L_FALSE) o = "U";
    if (r == Z3_L_TRUE) { Z3_model m = Z3_solver_get_model(c, s); if (m) { Z3_model_inc_ref(c, m); o = "S"; for (unsigned i = 0, n = Z3_model_get_num_consts(c, m); i < n; ++i) { Z3_func_decl d = Z3_model_get_const_decl(c, m, i); Z3_ast v = Z3_model_get_const_interp(c, m, d); if (!v || Z3_get_ast_kind(c, v) != Z3_NUMERAL_AST) continue; std::string name = Z3_get_symbol_string(c, Z3_get_decl_name(c, d)), val = Z3_get_numeral_string(c, v); if (name[0] == 'v' && !val.empty() && val[0] != '-') o += " " + name.substr(1) + " " + val; } } }
  }
  Z3_del_context(c); return o;
}
static pid_t worker = -1; static int wIn = -1, wOut = -1;
static void stopWorker() { if (worker > 0) { kill(worker, SIGKILL); int st; while (waitpid(worker, &st, 0) < 0 && errno == EINTR); close(wIn); close(wOut); worker = -1; } }
void intStart() {
  if (worker > 0) return; int a[2], b[2]; if (pipe(a)) return; if (pipe(b)) { close(a[0]); close(a[1]); return; }
  fflush(nullptr); signal(SIGPIPE, SIG_IGN); worker = fork(); if (worker < 0) { close(a[0]); close(a[1]); close(b[0]); close(b[1]); return; }
  if (!worker) { close(a[1]); close(b[0]); for (;;) { uint32_t n; if (!get(a[0], &n, 4)) _exit(0); std::string t(n, 0); if (!get(a[0], &t[0], n)) _exit(0); std::string o = answer(t); n = o.size(); if (!put(b[1], &n, 4) || !put(b[1], o.data(), n)) _exit(0); } }
  close(a[0]); close(b[1]); wIn = a[1]; wOut = b[0]; fcntl(wIn, F_SETFD, FD_CLOEXEC); fcntl(wOut, F_SETFD, FD_CLOEXEC);
}
// false on a timeout
static bool ask(const std::string &text, std::string &out, unsigned ms) {
  intStart(); if (worker <= 0) return false; uint32_t n = text.size(); if (!put(wIn, &n, 4) || !put(wIn, text.data(), n)) { stopWorker(); return false; }
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  for (;;) { auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - std::chrono::steady_clock::now()).count(); if (left < 0) left = 0; struct pollfd p{wOut, POLLIN, 0}; int r = poll(&p, 1, (int)left); if (r < 0 && errno == EINTR) continue; if (r <= 0) { stopWorker(); return false; } break; }
  if (!get(wOut, &n, 4)) { stopWorker(); return false; } out.resize(n); if (!get(wOut, &out[0], n)) { stopWorker(); return false; } return true;
}
// waits for the child's answer; kills it after the timeout. Returns false on a timeout.
static bool await(pid_t pid, int fd, std::string &out, unsigned ms) {
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms); bool ok = false; char buf[4096];
  for (;;) {
    auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - std::chrono::steady_clock::now()).count(); if (left < 0) left = 0;
    struct pollfd p{fd, POLLIN, 0}; int r = poll(&p, 1, (int)left); if (r < 0 && errno == EINTR) continue; if (r <= 0) break;
    ssize_t n = read(fd, buf, sizeof buf); if (n > 0) { out.append(buf, n); continue; } if (n < 0 && errno == EINTR) continue; ok = n == 0; break;
  }
  close(fd); if (!ok) kill(pid, SIGKILL); int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR); return ok;
}
SatRes intSolve(const std::vector<E> &cs, Assignment &model, unsigned timeoutMs, bool force, int *streak) {
  static std::unordered_map<E, bool> ha; int budget = 400000; bool any = false; for (E c : cs) if (hasArith(c, ha, budget)) { any = true; break; }
  if (any == force) return SatRes::Unknown;   // force: a second attempt, without wide arithmetic
  static unsigned serial = 0; std::string text, out; if (!translate(cs, text)) return SatRes::Unknown;
  if (getenv("INT_DUMP")) if (FILE *f = fopen((std::string(getenv("INT_DUMP")) + "/i" + std::to_string(serial++) + ".smt2").c_str(), "w")) { fputs(text.c_str(), f); fclose(f); }
  auto t0 = std::chrono::steady_clock::now(); bool ok = ask(text, out, timeoutMs); SatRes r = SatRes::Unknown; if (streak) *streak = ok ? 0 : *streak + 1; if (getenv("INT_DUMP")) fprintf(stderr, "INT %u %c %.3f\n", serial - 1, ok ? out[0] : 0x54, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
  if (ok && !out.empty()) {
    if (out[0] == 'U') r = SatRes::Unsat;
    if (out[0] == 'S') {
      r = SatRes::Sat; model.clear(); std::istringstream in(out.substr(1)); uint32_t v; std::string h; while (in >> v >> h) model[v] = APInt(std::max<unsigned>(gVars[v].width + 8, h.size() * 4), h, 10).trunc(gVars[v].width);
      for (E e : cs) for (uint32_t u : freeVars(e)) if (!model.count(u)) model[u] = APInt(gVars[u].width, 0);
    }
  } else if (!force && !(streak && *streak > 2) && !access("/usr/bin/cvc5", X_OK)) {
    // a second opinion on the same integer problem; only its refutations are used
    std::string file = "/tmp/.symex_int_" + std::to_string(getpid()) + ".smt2"; FILE *f = fopen(file.c_str(), "w"); if (!f) return r; fputs(text.c_str(), f); fclose(f);
    int fd[2]; if (pipe(fd)) { unlink(file.c_str()); return r; } fflush(nullptr); pid_t pid = fork();
    if (!pid) { dup2(fd[1], 1); close(fd[0]); close(fd[1]); int n = open("/dev/null", O_WRONLY); if (n >= 0) dup2(n, 2); execl("/usr/bin/cvc5", "cvc5", "--tlimit=20000", file.c_str(), (char *)nullptr); _exit(1); }
    close(fd[1]); out.clear(); if (pid > 0) { if (await(pid, fd[0], out, timeoutMs * 3) && out.rfind("unsat", 0) == 0) r = SatRes::Unsat; } else close(fd[0]); unlink(file.c_str());
  }
  return r;
}

// GF(2)-linear reasoning: queries whose terms are XOR-linear in the variable bits (CRC computations) are refuted by Gaussian
// elimination. Sound and exact for what it accepts; everything else goes to the SAT back end.
#include "solver.h"
#include <map>
#include <unordered_map>
#include <optional>

namespace {
struct Row { std::vector<uint64_t> w; bool c = false;   // XOR of variable bits, plus a constant
  void flip(unsigned i) { if (w.size() <= i / 64) w.resize(i / 64 + 1, 0); w[i / 64] ^= uint64_t(1) << (i % 64); trim(); }
  void trim() { while (!w.empty() && !w.back()) w.pop_back(); }
  void add(const Row &o) { if (w.size() < o.w.size()) w.resize(o.w.size(), 0); for (size_t i = 0; i < o.w.size(); ++i) w[i] ^= o.w[i]; c ^= o.c; trim(); }
  bool isC() const { return w.empty(); }
};
typedef std::vector<Row> Rows;
struct Lin {
  std::unordered_map<E, std::optional<Rows>> memo; std::map<uint32_t, unsigned> base; unsigned nbits = 0; size_t budget = 400000;
  static Row K(bool b) { Row r; r.c = b; return r; }
  const std::optional<Rows> &get(E e) {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    std::optional<Rows> r; if (budget) { --budget; r = calc(e); }
    return memo[e] = std::move(r);
  }
  std::optional<Rows> calc(E e) {
    unsigned w = e->width; Rows r;
    switch (e->op) {
    case OConst: for (unsigned i = 0; i < w; ++i) r.push_back(K(e->val[i])); return r;
    case OVar: { auto it = base.find(e->aux); unsigned b; if (it == base.end()) { b = nbits; nbits += w; base[e->aux] = b; } else b = it->second; for (unsigned i = 0; i < w; ++i) { Row x; x.flip(b + i); r.push_back(x); } return r; }
    case OConcat: { auto l = get(e->b), h = get(e->a); if (!l || !h) return {}; r = *l; r.insert(r.end(), h->begin(), h->end()); return r; }
    case OExtract: { auto x = get(e->a); if (!x) return {}; r.assign(x->begin() + e->aux, x->begin() + e->aux + w); return r; }
    case OZExt: { auto x = get(e->a); if (!x) return {}; r = *x; r.resize(w); return r; }
    case OSExt: { auto x = get(e->a); if (!x) return {}; r = *x; Row s = r.back(); r.resize(w, s); return r; }
    case OXor: { auto a = get(e->a), b = get(e->b); if (!a || !b) return {}; r = *a; for (unsigned i = 0; i < w; ++i) r[i].add((*b)[i]); return r; }
    case OEq: if (e->a->width == 1) { auto a = get(e->a), b = get(e->b); if (!a || !b) return {}; r = *a; r[0].add((*b)[0]); r[0].c ^= true; return r; } return {};
    case OAnd: case OOr: { auto a = get(e->a), b = get(e->b); if (!a || !b) return {};
      for (unsigned i = 0; i < w; ++i) { const Row &x = (*a)[i], &y = (*b)[i]; const Row *k = x.isC() ? &x : y.isC() ? &y : nullptr; if (!k) return {}; const Row &o = k == &x ? y : x; bool neutral = e->op == OAnd; r.push_back(k->c == neutral ? o : *k); } return r; }
    case OShl: case OLShr: { if (!e->b->isConst()) return {}; auto a = get(e->a); if (!a) return {}; uint64_t k = e->b->val.getLimitedValue(w); for (unsigned i = 0; i < w; ++i) { if (e->op == OShl) r.push_back(i >= k ? (*a)[i - k] : Row()); else r.push_back(i + k < w ? (*a)[i + k] : Row()); } return r; }
    case OAdd: { // no carries: at most one operand can be set in every position
      auto a = get(e->a), b = get(e->b); if (!a || !b) return {}; for (unsigned i = 0; i < w; ++i) { const Row &x = (*a)[i], &y = (*b)[i]; if (x.isC() && !x.c) r.push_back(y); else if (y.isC() && !y.c) r.push_back(x); else return {}; } return r; }
    case OSub: { // 0 - (single bit)
      auto a = get(e->a), b = get(e->b); if (!a || !b) return {}; for (auto &x : *a) if (!x.isC() || x.c) return {}; for (unsigned i = 1; i < w; ++i) if (!(*b)[i].isC() || (*b)[i].c) return {}; r.assign(w, (*b)[0]); return r; }
    case OIte: { auto c = get(e->a), t = get(e->b), f = get(e->c); if (!c || !t || !f) return {};
      for (unsigned i = 0; i < w; ++i) { Row d = (*t)[i]; d.add((*f)[i]); Row o = (*f)[i]; if ((*c)[0].isC()) { if ((*c)[0].c) o = (*t)[i]; } else if (d.isC()) { if (d.c) o.add((*c)[0]); } else return {}; r.push_back(o); } return r; }
    default: return {};
    }
  }
};
bool hasXor(E e, std::unordered_map<E, bool> &m, int &budget) {
  if (!e) return false; auto it = m.find(e); if (it != m.end()) return it->second; if (--budget < 0) return false;
  bool r = (e->op == OXor && e->width >= 8 && !e->a->isConst() && !e->b->isConst()); m[e] = false;
  if (!r) r = hasXor(e->a, m, budget) || hasXor(e->b, m, budget) || hasXor(e->c, m, budget);
  return m[e] = r;
}
}

// Unsat: refuted. Sat: a candidate model (it satisfies the linear literals that were understood; the caller evaluates all of them).
SatRes linearSolve(const std::vector<E> &cs, Assignment &model, unsigned attempt) {
  static std::unordered_map<E, bool> hx; int budget = 400000; bool any = false; for (E c : cs) if (hasXor(c, hx, budget)) { any = true; break; }
  if (!any) return SatRes::Unknown;
  Lin L; std::vector<Row> basis; std::vector<unsigned> piv;
  auto reduce = [&](Row r) { for (size_t i = 0; i < basis.size(); ++i) if (r.w.size() > piv[i] / 64 && (r.w[piv[i] / 64] >> (piv[i] % 64) & 1)) r.add(basis[i]); return r; };
  std::vector<E> todo(cs.begin(), cs.end()), lits; while (!todo.empty()) { E e = todo.back(); todo.pop_back(); if (e->op == OAnd && e->width == 1) { todo.push_back(e->a); todo.push_back(e->b); } else lits.push_back(e); }
  std::vector<std::vector<Row>> neq;
  for (E e : lits) {
    bool neg = false; E x = e; if (x->op == OXor && x->width == 1 && x->a->isConst() && !x->a->val.isZero()) { neg = true; x = x->b; }
    Rows d;
    if (neg && x->op == OAnd && x->width == 1) { // not all of several equations hold
      std::vector<E> st{x}; bool all = true; while (all && !st.empty()) { E y = st.back(); st.pop_back(); if (y->op == OAnd && y->width == 1) { st.push_back(y->a); st.push_back(y->b); continue; }
        if (y->op == OEq) { auto &a = L.get(y->a); if (!a) { all = false; break; } Rows aa = *a; auto &b = L.get(y->b); if (!b) { all = false; break; } for (size_t i = 0; i < aa.size(); ++i) { aa[i].add((*b)[i]); d.push_back(aa[i]); } }
        else { auto &a = L.get(y); if (!a) { all = false; break; } Row r = (*a)[0]; r.c ^= true; d.push_back(r); } }
      if (all) neq.push_back(d); continue;
    }
    if (x->op == OEq) { auto &a = L.get(x->a); if (!a) continue; Rows aa = *a; auto &b = L.get(x->b); if (!b) continue; d = aa; for (size_t i = 0; i < d.size(); ++i) d[i].add((*b)[i]); }
    else { auto &a = L.get(x); if (!a) continue; d = *a; d[0].c ^= true; }
    if (neg) { neq.push_back(d); continue; }
    for (Row r : d) { r = reduce(r); if (r.isC()) { if (r.c) return SatRes::Unsat; continue; } unsigned p = 0; while (!(r.w[p / 64] >> (p % 64) & 1)) ++p; for (auto &b : basis) if (b.w.size() > p / 64 && (b.w[p / 64] >> (p % 64) & 1)) b.add(r); basis.push_back(r); piv.push_back(p); }
  }
  for (auto &d : neq) { bool zero = true; for (auto &r : d) { Row x = reduce(r); if (!x.isC() || x.c) { zero = false; break; } } if (zero) return SatRes::Unsat; }
  // a solution: free bits at will, pivot bits from their rows
  std::vector<char> bit(L.nbits, 0), isPiv(L.nbits, 0); for (unsigned p : piv) isPiv[p] = 1;
  uint64_t rnd = 0x9e3779b97f4a7c15ull * (attempt + 1); for (unsigned i = 0; i < L.nbits; ++i) if (!isPiv[i]) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; bit[i] = attempt == 0 ? 0 : (char)(rnd >> 33 & 1); }
  for (size_t k = 0; k < basis.size(); ++k) { bool v = basis[k].c; for (size_t w = 0; w < basis[k].w.size(); ++w) for (uint64_t m = basis[k].w[w]; m; m &= m - 1) { unsigned b = (unsigned)(w * 64 + __builtin_ctzll(m)); if (b != piv[k]) v ^= bit[b] != 0; } bit[piv[k]] = v; }
  model.clear(); for (auto &kv : L.base) { unsigned w = gVars[kv.first].width; APInt x(w, 0); for (unsigned i = 0; i < w; ++i) if (bit[kv.second + i]) x.setBit(i); model[kv.first] = x; }
  for (E c : cs) for (uint32_t v : freeVars(c)) if (!model.count(v)) model[v] = APInt(gVars[v].width, 0);
  return SatRes::Sat;
}

// Calls: intrinsics, the environment model of the C/C++ runtime, and the harness primitives.
typedef std::vector<V> Args;
typedef std::function<void(State *, KInst &, Args &)> ExtFn;
static std::map<std::string, ExtFn> gExt;

static void step(State *s);

static u64 cu(State *s, const V &v) { return concretize(s, v).getZExtValue(); }
static V fresh(State *s, const std::string &n, unsigned w) { if (gFixed) { V c(fixedNext(s, n, w)); newInput(s, n, c); return c; } V v = V::ofE(mkVar(n, w)); newInput(s, n, v); return v; }

static void assertCond(State *s, const V &c, const std::string &msg) {
  gAsserts++;
  if (c.isC()) { if (c.c.isZero()) violation(s, "assert", msg); return; }
  newEvalEpoch();
  if (evalExpr(c.e, *s->asg).isZero()) {
    // a concrete counterexample is at hand; keep exploring the satisfying side unless we stop
    Assignment m;
    SatRes r = solveSlice(s->pc, c.e, m);
    if (r == SatRes::Sat) { State *o = cloneState(s); mergeAsg(o, m); addPC(o, c.e); gWork.push_back(o); }
    addPC(s, mkNot(c.e));
    violation(s, "assert", msg);
  }
  Assignment m;
  SatRes r = solveSlice(s->pc, mkNot(c.e), m);
  if (r == SatRes::Unknown) { inconcl("solver gave no answer for assertion '" + msg + "'"); }
  if (r == SatRes::Sat) {
    State *o = cloneState(s); mergeAsg(o, m); addPC(o, mkNot(c.e));
    gCex.push_back({"assert", msg, whereOf(o), mkTrace(o)});
    delete o;
    if (gCex.size() >= gMaxCex) throw Stop();
  }
  addPC(s, c.e);
}

static u64 doMalloc(State *s, KInst &k, const V &sz, const char *name, bool &failed) {
  failed = false;
  if (!sz.isC()) {
    E big = mkBin(OUlt, mkConst(s->allocCap, 64), sz.e);
    State *o; bool v = forkCond(s, big, &o);
    if (o) gWork.push_back(o);
    if (v) { failed = true; return 0; }
  }
  u64 n = cu(s, sz);
  if (n > s->allocCap) { failed = true; return 0; }
  // optional fault injection: the k-th allocation fails
  auto it = s->kv.find("alloc_fail_in");
  if (it != s->kv.end() && it->second) { if (--it->second == 0) { failed = true; return 0; } }
  return allocObj(s, n, KHeap, name);
}
static void callFn(State *s, const char *name, const Args &a) { Function *F = fn(name); if (!F) unsupported(s, std::string("missing model function ") + name); pushFrame(s, F, a); }

static E memcmpE(State *s, u64 a, u64 b, u64 n) {
  V o1, o2; MemObj *x = resolve(s, V(a, 64), n, false, o1), *y = resolve(s, V(b, 64), n, false, o2);
  E r = mkConst(0, 32);
  for (u64 i = n; i-- > 0;) {
    E p = byteAt(s, x, o1.u() + i); x = findObj(s, a);
    y = findObj(s, b);
    E q = byteAt(s, y, o2.u() + i); x = findObj(s, a);
    r = mkIte(mkEq(p, q), r, mkIte(mkBin(OUlt, p, q), mkConst(APInt(32, -1, true)), mkConst(1, 32)));
  }
  return r;
}

static void initExternals() {
  auto nop0 = [](State *s, KInst &, Args &) { callDone(s, V(0, 64)); };
  // ---- harness primitives
  gExt["__sym_int"] = [](State *s, KInst &, Args &a) { std::string n = cstr(s, cu(s, a[0])); unsigned w = cu(s, a[1]); V v = fresh(s, n, w); callDone(s, v.isC() ? V(v.c.zextOrTrunc(std::max(w, 64u))) : w < 64 ? V::ofE(mkZExt(v.e, 64)) : v); };
  gExt["__sym_range"] = [](State *s, KInst &, Args &a) {
    u64 lo = cu(s, a[0]), hi = cu(s, a[1]); std::string n = cstr(s, cu(s, a[2]));
    if (lo > hi) unsupported(s, "empty range of " + n);
    if (lo == hi) { newInput(s, n, V(lo, 64)); callDone(s, V(lo, 64)); return; }
    V v = fresh(s, n, 64);
    if (v.isC()) { callDone(s, v); return; }
    auto na = std::make_shared<Assignment>(*s->asg); (*na)[v.e->aux] = APInt(64, lo); s->asg = na;
    addPC(s, mkBin(OUle, mkConst(lo, 64), v.e)); addPC(s, mkBin(OUle, v.e, mkConst(hi, 64)));
    callDone(s, v);
  };
  gExt["__sym_choice"] = [](State *s, KInst &, Args &a) {
    u64 n = cu(s, a[0]); std::string nm = cstr(s, cu(s, a[1]));
    if (n == 0) throw PathEnd();
    if (n == 1) { newInput(s, nm, V(0, 64)); callDone(s, V(0, 64)); return; }
    if (gFixed) { callDone(s, fresh(s, nm, 64)); return; }
    V v = V::ofE(mkVar(nm, 64));
    std::vector<u64> vals;
    u64 acc0 = s->shAcc * n;
    bool filter = gShards > 1 && !s->shDone && (s->shProd *= n) >= 4 * gShards;
    auto shardOf = [&](u64 v) { u64 r = 0; for (; v; v /= gShards) r += v % gShards; return r % gShards; };   // digit sum: balanced over all the choices
    for (u64 i = 0; i < n; ++i) if (!filter || shardOf(acc0 + i) == gShard) vals.push_back(i);
    if (filter) s->shDone = true;
    if (vals.empty()) { gAssumeDead++; throw PathEnd(); }
    std::vector<State *> rest;
    auto take = [&](State *o, u64 i) {
      if (!s->shDone || filter) o->shAcc = acc0 + i;
      auto na = std::make_shared<Assignment>(*o->asg); (*na)[v.e->aux] = APInt(64, i); o->asg = na;
      o->pc.push_back(mkEq(v.e, mkConst(i, 64)));
      newInput(o, nm, v);
      callDone(o, V(i, 64));
    };
    for (size_t j = 1; j < vals.size(); ++j) { State *o = cloneState(s); take(o, vals[j]); rest.push_back(o); }
    for (size_t i = rest.size(); i-- > 0;) gWork.push_back(rest[i]);
    take(s, vals[0]);
  };
  gExt["__sym_bytes"] = [](State *s, KInst &, Args &a) {
    u64 p = cu(s, a[0]), n = cu(s, a[1]); std::string nm = cstr(s, cu(s, a[2]));
    for (u64 i = 0; i < n; ++i) { V v = fresh(s, nm, 8); storeTy(s, V(p + i, 64), Type::getInt8Ty(gCtx), v); }
    callDone(s, V());
  };
  gExt["__sym_assume"] = [](State *s, KInst &, Args &a) {
    V c = a[0]; if (c.width() != 1) c = notV(bin(OEq, c, V(0, c.width())));
    if (c.isC()) { if (c.c.isZero()) { gAssumeDead++; throw PathEnd(); } callDone(s, V()); return; }
    Assignment m; SatRes r = feasible(s, c.e, m);
    if (r == SatRes::Unknown) { inconcl("solver gave no answer at assume"); throw PathEnd(); }
    if (r == SatRes::Unsat) { gAssumeDead++; throw PathEnd(); }
    mergeAsg(s, m); addPC(s, c.e); callDone(s, V());
  };
  gExt["__sym_assert"] = [](State *s, KInst &, Args &a) {
    V c = a[0]; if (c.width() != 1) c = notV(bin(OEq, c, V(0, c.width())));
    assertCond(s, c, cstr(s, cu(s, a[1]))); callDone(s, V());
  };
  gExt["__sym_observe"] = [](State *s, KInst &, Args &a) { s->obs.push_back({cstr(s, cu(s, a[0])), a[1]}); callDone(s, V()); };
  gExt["__sym_reach"] = [](State *s, KInst &, Args &a) { gReached.insert(cstr(s, cu(s, a[0]))); callDone(s, V()); };
  gExt["__sym_concretize"] = [](State *s, KInst &, Args &a) { callDone(s, V(concretize(s, a[0]))); };
  gExt["__sym_malloc"] = [](State *s, KInst &k, Args &a) { bool f; u64 p = doMalloc(s, k, a[0], "heap", f); callDone(s, V(p, 64)); };
  gExt["__sym_new"] = [](State *s, KInst &k, Args &a) { u64 kind = cu(s, a[1]); bool f; u64 p = doMalloc(s, k, a[0], "new", f); if (!f) s->mem[p]->allocFn = kind; callDone(s, V(p, 64)); };
  gExt["__sym_delete"] = [](State *s, KInst &, Args &a) {
    u64 p = cu(s, a[0]); u64 kind = cu(s, a[1]); u64 sz = cu(s, a[2]);
    auto it = s->mem.find(p);
    if (p && it != s->mem.end() && it->second->kind == KHeap && !it->second->freed) {
      if (it->second->allocFn != kind) violation(s, "memory", "mismatched allocation/deallocation functions at " + objDesc(s, p));
      if (sz != ~0ull && sz != it->second->size) violation(s, "memory", "sized deallocation with a wrong size (" + std::to_string(sz) + ") at " + objDesc(s, p));
    }
    freeObj(s, p, "delete"); callDone(s, V());
  };
  gExt["__sym_free"] = [](State *s, KInst &, Args &a) { freeObj(s, cu(s, a[0]), "free"); callDone(s, V()); };
  gExt["__sym_alloc_cap"] = [](State *s, KInst &, Args &a) { s->allocCap = cu(s, a[0]); callDone(s, V()); };
  gExt["__sym_live_heap"] = [](State *s, KInst &, Args &) { callDone(s, V(s->liveHeap, 64)); };
  gExt["__sym_kv_set"] = [](State *s, KInst &, Args &a) { s->kv[cstr(s, cu(s, a[0]))] = cu(s, a[1]); callDone(s, V()); };
  gExt["__sym_kv_get"] = [](State *s, KInst &, Args &a) { callDone(s, V(s->kv[cstr(s, cu(s, a[0]))], 64)); };
  gExt["__sym_preempt_max"] = [](State *s, KInst &, Args &a) { s->preemptMax = cu(s, a[0]); callDone(s, V()); };
  gExt["__sym_native"] = [](State *s, KInst &, Args &) { callDone(s, V(0, 32)); };
  gExt["__sym_end"] = [](State *s, KInst &, Args &) { s->th[0].status = TDone; throw PathEnd(); };
  gExt["__sym_readable"] = [](State *s, KInst &, Args &a) { u64 p = cu(s, a[0]), n = cu(s, a[1]); MemObj *o = findObj(s, p); callDone(s, V(o && !o->freed && p + n <= o->base + o->size, 32)); };
  gExt["__sym_print"] = [](State *s, KInst &, Args &a) { if (gVerbose) { V v = a[1]; fprintf(stderr, "[sym] %s: %s\n", cstr(s, cu(s, a[0])).c_str(), v.e ? exprStr(v.e).c_str() : hexOf(v.c).c_str()); } callDone(s, V()); };

  // ---- C runtime
  gExt["malloc"] = gExt["__sym_malloc"];
  gExt["free"] = gExt["__sym_free"];
  auto mcmp = [](State *s, KInst &, Args &a) {
    u64 n = cu(s, a[2]); u64 x = cu(s, a[0]), y = cu(s, a[1]);
    if (n == 0) { callDone(s, V(0, 32)); return; }
    callDone(s, V::ofE(memcmpE(s, x, y, n)));
  };
  gExt["memcmp"] = mcmp; gExt["bcmp"] = mcmp;
  gExt["memcpy"] = gExt["memmove"] = [](State *s, KInst &, Args &a) { u64 n = cu(s, a[2]), d = cu(s, a[0]), q = cu(s, a[1]); copyBytes(s, d, q, n); callDone(s, V(d, 64)); };
  gExt["memset"] = [](State *s, KInst &, Args &a) {
    u64 n = cu(s, a[2]), d = cu(s, a[0]); V b = a[1].isC() ? V(a[1].c.trunc(8)) : V::ofE(mkExtract(a[1].e, 0, 8));
    for (u64 i = 0; i < n; ++i) storeTy(s, V(d + i, 64), Type::getInt8Ty(gCtx), b);
    callDone(s, V(d, 64)); };
  gExt["abort"] = [](State *s, KInst &, Args &) { violation(s, "abort", "abort() called"); };
  gExt["__assert_fail"] = [](State *s, KInst &, Args &a) { violation(s, "assertion", "assertion in the code failed: " + cstr(s, cu(s, a[0])) + " (" + cstr(s, cu(s, a[1])) + ":" + std::to_string(cu(s, a[2])) + ")"); };
  gExt["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [](State *s, KInst &, Args &a) { violation(s, "assertion", "libstdc++ assertion failed: " + cstr(s, cu(s, a[3]))); };
  for (const char *n : {"__cxa_atexit", "__cxa_thread_atexit", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "puts", "printf", "fprintf", "fputs", "putchar", "fflush", "fwrite", "perror", "atexit"})
    gExt[n] = [](State *s, KInst &k, Args &) { Type *t = k.I->getType(); callDone(s, t->isVoidTy() ? V() : V(0, widthOf(t))); };

  // ---- C++ ABI
  gExt["__cxa_guard_acquire"] = [](State *s, KInst &, Args &a) { V b = loadTy(s, a[0], Type::getInt8Ty(gCtx)); callDone(s, V(b.isC() && b.c.isZero() ? 1 : 0, 32)); };
  gExt["__cxa_guard_release"] = [](State *s, KInst &, Args &a) { storeTy(s, a[0], Type::getInt8Ty(gCtx), V(1, 8)); callDone(s, V()); };
  gExt["__cxa_guard_abort"] = nop0;
  gExt["__cxa_pure_virtual"] = [](State *s, KInst &, Args &) { violation(s, "abort", "pure virtual call"); };
  gExt["_ZSt9terminatev"] = [](State *s, KInst &, Args &) { Thread &t = s->th[s->cur]; std::string m = "std::terminate called"; if (!t.caught.empty()) m += " while handling " + exnName(s, t.caught.back()); violation(s, "terminate", m); };
  gExt["__cxa_call_unexpected"] = gExt["_ZSt9terminatev"];
  gExt["__cxa_allocate_exception"] = [](State *s, KInst &, Args &a) { u64 p = allocObj(s, cu(s, a[0]), KExn, "exception"); callDone(s, V(p, 64)); };
  gExt["__cxa_free_exception"] = [](State *s, KInst &, Args &a) { u64 p = cu(s, a[0]); s->mem.erase(p); callDone(s, V()); };
  gExt["__cxa_throw"] = [](State *s, KInst &, Args &a) {
    u64 p = cu(s, a[0]); ExnInfo xi; xi.tinfo = cu(s, a[1]); xi.dtor = cu(s, a[2]); xi.refs = 1; s->exns[p] = xi; s->th[s->cur].uncaught++; unwind(s, p); };
  gExt["__cxa_init_primary_exception"] = [](State *s, KInst &, Args &a) { u64 p = cu(s, a[0]); ExnInfo xi; xi.tinfo = cu(s, a[1]); xi.dtor = cu(s, a[2]); s->exns[p] = xi; callDone(s, V(p, 64)); };
  gExt["__cxa_get_exception_ptr"] = [](State *s, KInst &, Args &a) { u64 p = cu(s, a[0]); callDone(s, V(s->exns[p].adjusted ? s->exns[p].adjusted : p, 64)); };
  gExt["__cxa_begin_catch"] = [](State *s, KInst &, Args &a) {
    u64 p = cu(s, a[0]); auto &xi = s->exns[p]; Thread &t = s->th[s->cur];
    xi.handlers = xi.handlers < 0 ? -xi.handlers + 1 : xi.handlers + 1;
    t.uncaught--;
    if (t.caught.empty() || t.caught.back() != p) t.caught.push_back(p);
    callDone(s, V(xi.adjusted ? xi.adjusted : p, 64)); };
  gExt["__cxa_end_catch"] = [](State *s, KInst &, Args &) {
    Thread &t = s->th[s->cur]; if (t.caught.empty()) { callDone(s, V()); return; }
    u64 p = t.caught.back(); auto &xi = s->exns[p];
    if (xi.handlers < 0) { if (++xi.handlers == 0) t.caught.pop_back(); callDone(s, V()); return; }
    if (--xi.handlers == 0) { t.caught.pop_back(); if (--xi.refs == 0) { releaseExn(s, p, true); return; } }
    callDone(s, V()); };
  gExt["__cxa_rethrow"] = [](State *s, KInst &, Args &) {
    Thread &t = s->th[s->cur]; if (t.caught.empty()) violation(s, "terminate", "rethrow with no exception");
    u64 p = t.caught.back(); s->exns[p].handlers = -s->exns[p].handlers; t.uncaught++; unwind(s, p); };
  gExt["_ZSt17current_exceptionv"] = [](State *s, KInst &, Args &a) {
    Thread &t = s->th[s->cur]; u64 p = t.caught.empty() ? 0 : t.caught.back(); if (p) s->exns[p].refs++;
    storeTy(s, a[0], PointerType::get(gCtx, 0), V(p, 64)); callDone(s, V()); };
  gExt["_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"] = [](State *s, KInst &, Args &a) { u64 p = rdPtr(s, cu(s, a[0])); if (p) s->exns[p].refs++; callDone(s, V()); };
  gExt["_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"] = [](State *s, KInst &, Args &a) {
    u64 q = cu(s, a[0]); u64 p = rdPtr(s, q); if (!p) { callDone(s, V()); return; }
    storeTy(s, V(q, 64), PointerType::get(gCtx, 0), V(0, 64));
    if (--s->exns[p].refs == 0) { releaseExn(s, p, true); return; } callDone(s, V()); };
  gExt["_ZNSt15__exception_ptr13exception_ptrC1EPv"] = gExt["_ZNSt15__exception_ptr13exception_ptrC2EPv"] = [](State *s, KInst &, Args &a) { u64 p = cu(s, a[1]); if (p) s->exns[p].refs++; storeTy(s, a[0], PointerType::get(gCtx, 0), V(p, 64)); callDone(s, V()); };
  gExt["_ZNSt15__exception_ptr13exception_ptrC1ERKS0_"] = gExt["_ZNSt15__exception_ptr13exception_ptrC2ERKS0_"] = [](State *s, KInst &, Args &a) { u64 p = rdPtr(s, cu(s, a[1])); if (p) s->exns[p].refs++; storeTy(s, a[0], PointerType::get(gCtx, 0), V(p, 64)); callDone(s, V()); };
  gExt["_ZNSt15__exception_ptr13exception_ptrD1Ev"] = gExt["_ZNSt15__exception_ptr13exception_ptrD2Ev"] = gExt["_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"];
  gExt["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = [](State *s, KInst &, Args &a) {
    u64 p = rdPtr(s, cu(s, a[0])); if (!p) violation(s, "terminate", "rethrow_exception(null)"); s->exns[p].refs++; s->th[s->cur].uncaught++; unwind(s, p); };
  gExt["_ZSt18uncaught_exceptionv"] = [](State *s, KInst &, Args &) { callDone(s, V(s->th[s->cur].uncaught > 0, 1)); };
  gExt["_ZSt19uncaught_exceptionsv"] = [](State *s, KInst &, Args &) { callDone(s, V(s->th[s->cur].uncaught, 32)); };
  gExt["__dynamic_cast"] = [](State *s, KInst &, Args &a) {
    u64 src = cu(s, a[0]); u64 dti = cu(s, a[2]); u64 vt = rdPtr(s, src); int64_t off = (int64_t)rdPtr(s, vt - 16); u64 ti = rdPtr(s, vt - 8);
    std::vector<std::pair<u64, u64>> v; tiBases(s, ti, src + off, v); u64 r = 0; for (auto &p : v) if (tiSame(s, p.first, dti)) { r = p.second; break; }
    callDone(s, V(r, 64)); };

  // ---- threads
  gExt["__sym_thread_create"] = [](State *s, KInst &, Args &a) {
    if (s->lastWasSched) s->lastWasSched = false;
    Function *F = gFuncAt[cu(s, a[0])]; int id = s->th.size(); int cur = s->cur;
    s->th.emplace_back();
    for (auto &t : s->th) t.vc.resize(s->th.size(), 0);
    vcJoin(s->th[id].vc, s->th[cur].vc); s->th[id].vc[id] = 1; vcTick(s);
    callDone(s, V(id, 32));
    s->cur = id; pushFrame(s, F, {a[1]}); s->cur = cur; };
  gExt["__sym_thread_join"] = [](State *s, KInst &, Args &a) {
    int id = cu(s, a[0]);
    if (s->th[id].status != TDone) { s->th[s->cur].status = TJoin; s->th[s->cur].waitOn = id; schedule(s, true); return; }
    s->th[s->cur].status = TRun; s->lastWasSched = false;
    vcJoin(s->th[s->cur].vc, s->th[id].vc); callDone(s, V()); };
  gExt["__sym_thread_self"] = [](State *s, KInst &, Args &) { callDone(s, V(s->cur, 32)); };
  gExt["__sym_yield"] = [](State *s, KInst &, Args &) { if (schedPoint(s)) return; callDone(s, V(0, 32)); };
  gExt["__sym_yield_to_others"] = [](State *s, KInst &, Args &) { callDone(s, V(0, 32)); if (s->th.size() > 1) { int saved = s->preempt; s->preempt = std::min(saved, s->preemptMax - 1); schedule(s, false); } };
  gExt["pthread_mutex_lock"] = [](State *s, KInst &, Args &a) {
    u64 m = cu(s, a[0]);
    Thread &t0 = s->th[s->cur];
    if (t0.status != TMutex) { if (schedPoint(s)) return; }
    Thread &t = s->th[s->cur]; auto &mx = s->mutexes[m];
    bool rec = loadTy(s, V(m + 16, 64), Type::getInt32Ty(gCtx)).u() == 1;
    if (mx.owner >= 0 && !(rec && mx.owner == s->cur)) {
      if (mx.owner == s->cur) violation(s, "deadlock", "self-deadlock: a non-recursive mutex is locked twice by one thread");
      t.status = TMutex; t.waitOn = m; s->lastWasSched = false; schedule(s, true); return; }
    t.status = TRun; s->lastWasSched = false; mx.owner = s->cur; mx.depth++; vcJoin(t.vc, mx.vc); callDone(s, V(0, 32)); };
  gExt["pthread_mutex_trylock"] = [](State *s, KInst &, Args &a) {
    if (schedPoint(s)) return;
    u64 m = cu(s, a[0]); auto &mx = s->mutexes[m]; if (mx.owner >= 0) { callDone(s, V(16, 32)); return; }
    mx.owner = s->cur; mx.depth = 1; vcJoin(s->th[s->cur].vc, mx.vc); callDone(s, V(0, 32)); };
  gExt["pthread_mutex_unlock"] = [](State *s, KInst &, Args &a) {
    u64 m = cu(s, a[0]); auto &mx = s->mutexes[m];
    if (mx.owner != s->cur) violation(s, "mutex", "unlock of a mutex that the thread does not own");
    if (--mx.depth == 0) { mx.owner = -1; mx.vc = s->th[s->cur].vc; vcTick(s); }
    callDone(s, V(0, 32));
    if (s->th.size() > 1) { s->lastWasSched = false; schedule(s, false); } };
  auto condWait = [](State *s, u64 c, u64 m, bool timed, V rv) {
    Thread &t = s->th[s->cur];
    if (t.status == TMutex && t.waitMutex == m && t.waitOn == m) { // woken: reacquire
      auto &mx = s->mutexes[m];
      if (mx.owner >= 0) { s->lastWasSched = false; schedule(s, true); return; }
      mx.owner = s->cur; mx.depth = 1; vcJoin(t.vc, mx.vc); t.status = TRun; bool to = t.timedOut; t.timedOut = false; if (to && ++t.timeouts > 24) violation(s, "livelock", "a timed wait is repeated again and again"); t.waitMutex = 0; s->lastWasSched = false;
      callDone(s, V(to ? 110 : 0, 32)); return;
    }
    if (schedPoint(s)) return;   // a notification may come just before the wait
    auto &mx = s->mutexes[m];
    if (mx.owner != s->cur) violation(s, "mutex", "condition wait without the mutex");
    mx.owner = -1; mx.depth = 0; mx.vc = t.vc; vcTick(s);
    t.status = TCond; t.waitOn = c; t.waitMutex = m; t.timed = timed; t.timedOut = false;
    s->lastWasSched = false;
    schedule(s, true); };
  gExt["pthread_cond_wait"] = [condWait](State *s, KInst &, Args &a) { condWait(s, cu(s, a[0]), cu(s, a[1]), false, V()); };
  gExt["__sym_cond_timedwait"] = [condWait](State *s, KInst &, Args &a) { condWait(s, cu(s, a[0]), cu(s, a[1]), true, V()); };
  auto wake = [](State *s, u64 c) { for (auto &t : s->th) if (t.status == TCond && t.waitOn == c) { t.status = TMutex; t.waitOn = t.waitMutex; t.timedOut = false; } };
  gExt["pthread_cond_broadcast"] = [wake](State *s, KInst &, Args &a) { if (schedPoint(s)) return; wake(s, cu(s, a[0])); callDone(s, V(0, 32)); };
  gExt["pthread_cond_signal"] = gExt["pthread_cond_broadcast"];  // spurious wake-ups of the others are allowed
  auto spin = [](State *s, V r) { callDone(s, r); if (s->th.size() < 2) return; s->th[s->cur].status = TSpin; s->lastWasSched = false; schedule(s, true); };
  gExt["__sym_spin"] = [spin](State *s, KInst &, Args &) { spin(s, V()); };
  gExt["sched_yield"] = [spin](State *s, KInst &, Args &) { spin(s, V(0, 32)); };
  gSpin = spin;
  // futex: waiting is a busy wait, a wake-up is not needed
  gExt["syscall"] = [spin](State *s, KInst &, Args &a) {
    if (cu(s, a[0]) != 202) unsupported(s, "system call");
    if (schedPoint(s)) return;
    u64 op = cu(s, a[2]) & 127; if (op == 1) { callDone(s, V(0, 64)); return; } if (op != 0) unsupported(s, "futex operation");
    bool rd = gRaceDetect; gRaceDetect = false; V v = loadTy(s, V(cu(s, a[1]), 64), Type::getInt32Ty(gCtx)); gRaceDetect = rd;
    Thread &t = s->th[s->cur]; if (!t.seenSet) { t.seen = s->progress - t.own; t.seenSet = true; }
    if (cu(s, v) != (uint32_t)cu(s, a[3])) { callDone(s, V(0, 64)); return; }
    spin(s, V(0, 64)); };
  gExt["pthread_self"] = [](State *s, KInst &, Args &) { callDone(s, V(s->cur + 1, 64)); };
}

static V uadd(const V &a, const V &b) { return bin(OAdd, a, b); }

static bool intrinsic(State *s, KInst &k, Function *F, Args &a) {
  auto *I = cast<CallBase>(k.I);
  switch (F->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::pseudoprobe:
    callDone(s, V()); return true;
  case Intrinsic::x86_sse2_pause: gSpin(s, V()); return true;
  case Intrinsic::invariant_start: callDone(s, V(0, 64)); return true;
  case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy: callDone(s, a[0]); return true;
  case Intrinsic::stacksave: callDone(s, V(0, 64)); return true;
  case Intrinsic::stackrestore: callDone(s, V()); return true;
  case Intrinsic::is_constant: callDone(s, V(0, 1)); return true;
  case Intrinsic::objectsize: callDone(s, V(APInt::getAllOnes(widthOf(I->getType())))); return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: violation(s, "trap", "undefined behaviour trap (overflow, bad shift, bad bounds or unreachable)");
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = cu(s, a[2]), d = n ? cu(s, a[0]) : 0, q = n ? cu(s, a[1]) : 0; copyBytes(s, d, q, n); callDone(s, V()); return true; }
  case Intrinsic::memset: { u64 n = cu(s, a[2]); if (n) { u64 d = cu(s, a[0]); V o; resolve(s, V(d, 64), n, true, o); MemObj *ob = findObj(s, d); if (s->th.size() > 1) raceAccess(s, d, n, true); for (u64 i = 0; i < n; ++i) { ob = findObj(s, d); writeAt(s, ob, d - ob->base + i, 1, a[1]); } } callDone(s, V()); return true; }
  case Intrinsic::eh_typeid_for: callDone(s, V(APInt(32, typeId(a[0].u())))); return true;
  case Intrinsic::uadd_with_overflow: { V r = uadd(a[0], a[1]); callDone(s, V::ofAgg({r, bin(OUlt, r, a[0])})); return true; }
  case Intrinsic::usub_with_overflow: { callDone(s, V::ofAgg({bin(OSub, a[0], a[1]), bin(OUlt, a[0], a[1])})); return true; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
    unsigned w = a[0].width(); auto id = F->getIntrinsicID(); bool mul = id == Intrinsic::smul_with_overflow || id == Intrinsic::umul_with_overflow; unsigned ww = mul ? 2 * w : w + 1;
    bool sg = id != Intrinsic::umul_with_overflow;
    auto ext = [&](const V &v) { return V::ofE(sg ? mkSExt(v.expr(), ww) : mkZExt(v.expr(), ww)); };
    V x = ext(a[0]), y = ext(a[1]);
    V r = bin(mul ? OMul : id == Intrinsic::sadd_with_overflow ? OAdd : OSub, x, y);
    V lo = r.isC() ? V(r.c.trunc(w)) : V::ofE(mkExtract(r.e, 0, w));
    if (id == Intrinsic::umul_with_overflow && !(a[0].isC() && a[1].isC())) {
      // by a constant: overflow iff x > max / c
      const V *c = a[1].isC() ? &a[1] : a[0].isC() ? &a[0] : nullptr; const V *o = c == &a[1] ? &a[0] : &a[1];
      if (c && !c->c.isZero()) { APInt lim = APInt::getAllOnes(w).udiv(c->c); callDone(s, V::ofAgg({bin(OMul, a[0], a[1]), bin(OUlt, V(lim), *o)})); return true; }
    }
    V back = ext(lo);
    callDone(s, V::ofAgg({lo, notV(bin(OEq, back, r))})); return true; }
  case Intrinsic::uadd_sat: { V r = uadd(a[0], a[1]); E o = mkBin(OUlt, r.expr(), a[0].expr()); callDone(s, V::ofE(mkIte(o, mkConst(APInt::getAllOnes(r.width())), r.expr()))); return true; }
  case Intrinsic::usub_sat: { E o = mkBin(OUlt, a[0].expr(), a[1].expr()); callDone(s, V::ofE(mkIte(o, mkConst(0, a[0].width()), mkBin(OSub, a[0].expr(), a[1].expr())))); return true; }
  case Intrinsic::umin: callDone(s, V::ofE(mkIte(mkBin(OUlt, a[0].expr(), a[1].expr()), a[0].expr(), a[1].expr()))); return true;
  case Intrinsic::umax: callDone(s, V::ofE(mkIte(mkBin(OUlt, a[0].expr(), a[1].expr()), a[1].expr(), a[0].expr()))); return true;
  case Intrinsic::smin: callDone(s, V::ofE(mkIte(mkBin(OSlt, a[0].expr(), a[1].expr()), a[0].expr(), a[1].expr()))); return true;
  case Intrinsic::smax: callDone(s, V::ofE(mkIte(mkBin(OSlt, a[0].expr(), a[1].expr()), a[1].expr(), a[0].expr()))); return true;
  case Intrinsic::abs: { unsigned w = a[0].width(); E x = a[0].expr(); callDone(s, V::ofE(mkIte(mkExtract(x, w - 1, 1), mkBin(OSub, mkConst(0, w), x), x))); return true; }
  case Intrinsic::bswap: { E x = a[0].expr(); E r = nullptr; for (unsigned i = 0; i < x->width; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } callDone(s, V::ofE(r)); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    unsigned w = a[0].width(); if (!a[2].isC()) {
      E sh = mkBin(OURem, a[2].expr(), mkConst(w, w)); E cat = mkConcat(a[0].expr(), a[1].expr()); E sh2 = mkZExt(sh, 2 * w);
      E r = F->getIntrinsicID() == Intrinsic::fshl ? mkExtract(mkBin(OShl, cat, sh2), w, w) : mkExtract(mkBin(OLShr, cat, sh2), 0, w);
      callDone(s, V::ofE(r)); return true; }
    unsigned n = a[2].c.urem(w); E cat = mkConcat(a[0].expr(), a[1].expr());
    E r = F->getIntrinsicID() == Intrinsic::fshl ? mkExtract(cat, w - n, w) : mkExtract(cat, n, w);
    callDone(s, V::ofE(r)); return true; }
  case Intrinsic::ctpop: { E x = a[0].expr(); unsigned w = x->width; E r = mkConst(0, w); for (unsigned i = 0; i < w; ++i) r = mkBin(OAdd, r, mkZExt(mkExtract(x, i, 1), w)); if (w == 1) r = x; callDone(s, V::ofE(r)); return true; }
  case Intrinsic::ctlz: { E x = a[0].expr(); unsigned w = x->width; E r = mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); callDone(s, V::ofE(r)); return true; }
  case Intrinsic::cttz: { E x = a[0].expr(); unsigned w = x->width; E r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); callDone(s, V::ofE(r)); return true; }
  case Intrinsic::fabs: { unsigned w = a[0].width(); callDone(s, bin(OAnd, a[0], V(APInt::getLowBitsSet(w, w - 1)))); return true; }
  case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: {
    if (!a[0].isC()) unsupported(s, "symbolic fp rounding");
    APFloat f = toF(a[0], I->getType()); auto id = F->getIntrinsicID();
    f.roundToIntegral(id == Intrinsic::floor ? APFloat::rmTowardNegative : id == Intrinsic::ceil ? APFloat::rmTowardPositive : id == Intrinsic::trunc ? APFloat::rmTowardZero : id == Intrinsic::round ? APFloat::rmNearestTiesToAway : APFloat::rmNearestTiesToEven);
    callDone(s, V(f.bitcastToAPInt())); return true; }
  case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: unsupported(s, "varargs");
  case Intrinsic::vector_reduce_or: { V r = (*a[0].agg)[0]; for (size_t i = 1; i < a[0].agg->size(); ++i) r = bin(OOr, r, (*a[0].agg)[i]); callDone(s, r); return true; }
  case Intrinsic::vector_reduce_add: { V r = (*a[0].agg)[0]; for (size_t i = 1; i < a[0].agg->size(); ++i) r = bin(OAdd, r, (*a[0].agg)[i]); callDone(s, r); return true; }
  case Intrinsic::vector_reduce_xor: { V r = (*a[0].agg)[0]; for (size_t i = 1; i < a[0].agg->size(); ++i) r = bin(OXor, r, (*a[0].agg)[i]); callDone(s, r); return true; }
  case Intrinsic::vector_reduce_and: { V r = (*a[0].agg)[0]; for (size_t i = 1; i < a[0].agg->size(); ++i) r = bin(OAnd, r, (*a[0].agg)[i]); callDone(s, r); return true; }
  default: unsupported(s, "intrinsic " + F->getName().str());
  }
  return false;
}

static void doCall(State *s, KInst &k) {
  auto *cb = cast<CallBase>(k.I);
  Function *F = nullptr;
  int co = k.ops.back();
  if (co == INT_MIN) { // inline asm
    if (k.I->getType()->isVoidTy()) { callDone(s, V()); return; }
    // the usual "+r" optimisation barrier returns its input unchanged
    auto *ia = cast<InlineAsm>(cb->getCalledOperand());
    if (ia->getAsmString().empty() && k.ops.size() >= 2) { callDone(s, opv(s, k, 0)); return; }
    unsupported(s, "inline asm");
  }
  V cv = co >= 0 ? top(s).regs[co] : gConsts[-co - 1];
  u64 ca = cu(s, cv);
  auto fi = gFuncAt.find(ca);
  if (fi == gFuncAt.end()) violation(s, "memory", "call through an invalid function pointer " + objDesc(s, ca));
  F = fi->second;
  Args a;
  for (unsigned i = 0; i + 1 < k.ops.size(); ++i) a.push_back(k.ops[i] == INT_MIN ? V(0, 64) : opv(s, k, i));
  if (F->isIntrinsic()) { intrinsic(s, k, F, a); return; }
  auto it = gExt.find(F->getName().str());
  if (it != gExt.end() && (F->isDeclaration() || F->getName().starts_with("__sym_"))) { it->second(s, k, a); return; }
  if (F->isDeclaration()) {
    std::string n = F->getName().str();
    // iostream formatting of messages: empty bodies (see DESIGN.md)
    unsupported(s, "external function " + n + " (" + demangle(n) + ")");
  }
  for (unsigned i = 0; i < cb->arg_size(); ++i) if (cb->isByValArgument(i)) {
    u64 sz = gDL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue();
    u64 src = cu(s, a[i]);
    u64 d = allocObj(s, sz, KStack, "byval");
    copyBytes(s, d, src, sz);
    a[i] = V(d, 64);
  }
  auto *ci = dyn_cast<CallInst>(k.I);
  if (ci && ci->isMustTailCall()) {
    u64 fr = top(s).freeOnReturn; bool dr = top(s).discardRet;
    popFrame(s);
    pushFrame(s, F, a);
    top(s).freeOnReturn = fr; top(s).discardRet = dr;
    return;
  }
  pushFrame(s, F, a);
}

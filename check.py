#!/usr/bin/env python3
"""Decides one property: harness -> LLVM IR of /repo's current sources -> symbolic execution -> native replay."""
import sys, os, re, json, time, subprocess, hashlib, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "/usr/bin/clang++"
GXX = "/usr/bin/g++"
LINK = "/usr/bin/llvm-link-18"
BUILD = os.path.join(V, "build")
COMMON = ["-std=c++20", "-DAWL_INT_128", "-I" + REPO, "-I" + REPO + "/Platforms/Posix", "-I" + V + "/models", "-I" + V + "/harness"]
IRF = ["-O1", "-fno-pic", "-fno-pie", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-access-control", "-Wno-everything", "-emit-llvm", "-c"]
NPAR = int(os.environ.get("VERIF_JOBS", "8"))


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)


class Entry:
    def __init__(self, name, opts):
        self.name = name
        self.tier = opts.get("tier", "both")
        self.time = float(opts.get("time", "300"))
        self.reach = [x for x in opts.get("reach", "").split(",") if x]
        self.threads = "threads" in opts
        self.known = None
        self.unit = None
        self.shards = int(opts.get("shards", "1"))
        self.maxsteps = opts.get("steps")
        self.qtimeout = opts.get("qtimeout", "120000")


def parse(path):
    spec = {"entries": [], "flags": [], "irflags": [], "bounds": [], "assumes": [], "stubs": [], "sources": [], "ntimeout": 30}
    for l in open(path):
        if not l.startswith("//!"):
            continue
        w = l[3:].strip().split(None, 1)
        if not w:
            continue
        k, rest = w[0], (w[1] if len(w) > 1 else "")
        if k == "entry":
            ps = rest.split()
            opts = {}
            for p in ps[1:]:
                a, _, b = p.partition("=")
                opts[a] = b
            spec["entries"].append(Entry(ps[0], opts))
        elif k == "flags":
            spec["flags"] += rest.replace("$REPO", REPO).replace("$V", V).split()
        elif k == "irflags":
            spec["irflags"] += rest.replace("$REPO", REPO).replace("$V", V).split()
        elif k == "source":
            spec["sources"] += [x.replace("$REPO", REPO).replace("$V", V) for x in rest.split()]
        elif k in ("bound", "bounds"):
            spec["bounds"].append(rest)
        elif k in ("assume", "assumes"):
            spec["assumes"].append(rest)
        elif k in ("stub", "stubs"):
            spec["stubs"].append(rest)
        elif k == "unit":
            pass
    return spec


class Fail(Exception):
    pass


def known_findings(prop):
    """{entry: (message, text)} of the recorded findings of this property."""
    r = {}
    for l in open(V + "/known_findings.txt"):
        m = re.match(r'known: property=(\S+) entry=(\S+) message="([^"]*)" (.*)', l)
        if m and m[1] == prop: r[m[2]] = (m[3], m[4].strip())
    return r


def ensure_engine():
    if not (os.path.exists(BUILD + "/symex") and os.path.exists(BUILD + "/rt.bc")):
        r = run(["bash", V + "/setup.sh"])
        if r.returncode:
            raise Fail("engine build failed: " + r.stderr[-2000:])


def compile_unit(harness, spec, tier, work):
    """IR of the harness and of the repository sources it names."""
    defs = ["-DTHOROUGH=%d" % (1 if tier == "thorough" else 0)]
    bcs = []
    jobs = []
    for i, s in enumerate([harness] + spec["sources"]):
        o = "%s/u%d.bc" % (work, i)
        bcs.append(o)
        jobs.append([CLANG] + COMMON + IRF + defs + spec["flags"] + spec["irflags"] + [s, "-o", o])
    with ThreadPoolExecutor(4) as ex:
        for r, j in zip(ex.map(run, jobs), jobs):
            if r.returncode:
                raise Fail("IR compilation failed: %s\n%s" % (" ".join(j), r.stderr[-6000:]))
    o = work + "/all.bc"
    r = run([LINK, "-o", work + "/units.bc"] + bcs)
    if r.returncode:
        raise Fail("llvm-link: " + r.stderr[-3000:])
    r = run([LINK, "--only-needed", work + "/units.bc", BUILD + "/rt.bc", "-o", o])
    if r.returncode:
        raise Fail("llvm-link rt: " + r.stderr[-3000:])
    return o


def compile_native(harness, spec, tier, work, tsan=False):
    defs = ["-DTHOROUGH=%d" % (1 if tier == "thorough" else 0), "-DSYM_NATIVE=1"]
    san = ["-fsanitize=thread"] if tsan else ["-fsanitize=address"]
    o = work + ("/native_tsan" if tsan else "/native")
    cmd = [GXX] + COMMON + ["-O0", "-g1", "-w", "-rdynamic", "-fno-access-control"] + san + defs + spec["flags"] + [harness] + spec["sources"] + [V + "/models/native.cpp", "-o", o, "-ldl", "-lpthread"]
    r = run(cmd)
    if r.returncode:
        raise Fail("native compilation failed: %s\n%s" % (" ".join(cmd), r.stderr[-6000:]))
    return o


def write_inputs(path, trace, comment=""):
    with open(path, "w") as f:
        for l in comment.splitlines():
            f.write("# " + l + "\n")
        for n, v in trace["in"]:
            f.write("%s %s\n" % (n, v))


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:max_malloc_fill_size=4096:malloc_fill_byte=190", TSAN_OPTIONS="halt_on_error=1:exitcode=66")


def replay(native, entry, path, timeout=30):
    try:
        r = run([native, entry, path], timeout=timeout, env=ENV)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), ""


def reproduced(cex, native, entry, path, threads, tsan):
    if threads:
        for i in range(60):
            b = tsan() if i % 2 == 0 else native
            rc, out, err = replay(b, entry, path, 20)
            if rc in (76, 77, 78):
                continue
            if rc != 0:
                return True, "%s\n%s" % (out[-1500:], err[-1500:])
        return False, "60 native runs with ThreadSanitizer showed nothing"
    rc, out, err = replay(native, entry, path)
    if rc == "timeout":
        return True, "native run does not terminate within the time limit"
    if rc in (76, 77, 78):
        return False, "diverged: " + err[-800:]
    if rc != 0:
        return True, "exit %s\n%s\n%s" % (rc, out[-1500:], err[-2500:])
    # reads of uninitialised memory: memcheck sees them
    return False, "native run passes: " + out[-500:]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    keep = False
    for a in sys.argv[2:]:
        if a.startswith("--tier="): tier = a[7:]
        elif a.startswith("--only="): only = a[7:].split(",")
        elif a == "--keep": keep = True
    t0 = time.time()
    ensure_engine()
    harnesses = sorted(glob.glob(V + "/harness/%s*.cpp" % prop))
    if not harnesses:
        raise Fail("no harness for " + prop)
    work0 = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    findings = known_findings(prop)
    status = {"violations": [], "known": [], "errors": []}
    agg = dict(paths=0, steps=0, forks=0, asserts=0, blocks=0, queries=0, sat=0, unsat=0, unknown=0, order_refuted=0, z3_fallbacks=0, crosschecked=0, disagreements=0, cache_hits=0, model_hits=0, assume_pruned=0)
    solver_s = 0.0
    functions = {}
    per_entry = []
    samples = []
    validated = 0
    bounds, assumes, stubs = [], [], []
    try:
        units = []
        for h in harnesses:
            spec = parse(h)
            for e in spec["entries"]: e.known = findings.get(e.name)
            for e in spec["entries"]:
                e.unit = h
            es = [e for e in spec["entries"] if e.tier in ("both", tier) and (only is None or e.name in only)]
            if not es:
                continue
            w = work0 + "/" + os.path.basename(h)[:-4]
            os.makedirs(w)
            units.append((h, spec, es, w))
            bounds += spec["bounds"]; assumes += spec["assumes"]; stubs += spec["stubs"]
        with ThreadPoolExecutor(NPAR) as ex:
            bcf = {h: ex.submit(compile_unit, h, s, tier, w) for h, s, es, w in units}
            natf = {h: ex.submit(compile_native, h, s, tier, w) for h, s, es, w in units}
            bcs = {h: f.result() for h, f in bcf.items()}

            def go(h, e, w, sh):
                out = "%s/%s.%d.json" % (w, e.name, sh)
                cmd = [BUILD + "/symex", bcs[h], "--entry=" + e.name, "--out=" + out, "--time=%d" % (e.time * (8 if tier == "thorough" else 1)), "--seed=%d" % (seed + sh), "--qtimeout=" + e.qtimeout]
                if e.shards > 1: cmd.append("--shard=%d/%d" % (sh, e.shards))
                if e.maxsteps: cmd.append("--max-steps=" + e.maxsteps)
                try: r = run(cmd, timeout=e.time * (8 if tier == "thorough" else 1) * 1.5 + 120)
                except subprocess.TimeoutExpired: return sh, e, None, "engine gave no answer on %s in time" % e.name
                if not os.path.exists(out):
                    return sh, e, None, "engine failed on %s (exit %s): %s" % (e.name, r.returncode, r.stderr[-2000:])
                return sh, e, json.load(open(out)), r.stderr[-500:]
            futs = []
            # long entries first
            allx = [(h, s, e, w) for h, s, es, w in units for e in es]
            allx.sort(key=lambda x: -x[2].time)
            for h, s, e, w in allx:
                for sh in range(e.shards):
                    futs.append((h, s, w, ex.submit(go, h, e, w, sh)))
            results = [(h, s, w) + f.result() for h, s, w, f in futs]
            natives = {h: f.result() for h, f in natf.items()}
        tsanc = {}
        entry_reach = {}
        entry_paths = {}
        for h, s, w, sh, e, d, err in results:
            if d is not None:
                entry_reach.setdefault(e, set()).update(d["reached"])
                entry_paths.setdefault(e, [0, 0, False])
                entry_paths[e][0] += d["paths"]; entry_paths[e][1] += d["asserts"]; entry_paths[e][2] |= bool(d["cex"])
        for h, s, w, sh, e, d, err in results:
            if d is None:
                status["errors"].append(err)
                continue
            for k in agg: agg[k] += d.get(k, 0)
            solver_s += d["solver_s"]
            for n, f in d["functions"]: functions[n] = f
            per_entry.append({"entry": e.name + (".%d" % sh if e.shards > 1 else ""), "paths": d["paths"], "instructions": d["steps"], "queries": d["queries"], "unsat": d["unsat"], "sat": d["sat"], "solver_s": round(d["solver_s"], 2), "wall_s": round(d["wall_s"], 2), "max_query_s": round(d["max_query_s"], 3), "reached": d["reached"]})

            def tsan(h=h, s=s, w=w):
                if h not in tsanc: tsanc[h] = compile_native(h, s, tier, w, True)
                return tsanc[h]
            if d["cex"]:
                c = d["cex"][0]
                path = "%s/evidence/replay/%s_%s.txt" % (V, prop, e.name)
                if any(v[3] == path for v in status["violations"]): continue
                write_inputs(path, c["trace"], "property %s harness %s entry %s\n%s: %s\nreplay: %s %s (see check.py --replay)\n%s" % (prop, os.path.basename(h), e.name, c["kind"], c["msg"], "native", e.name, c["where"]))
                ok, log = reproduced(c, natives[h], e.name, path, e.threads, tsan)
                if not ok and e.threads and c["kind"] != "nontermination":
                    # a window that native runs do not hit: the recorded schedule is executed again, concretely, in the compiled code
                    o2 = "%s/%s.fix.json" % (w, e.name)
                    try: run([BUILD + "/symex", bcs[h], "--entry=" + e.name, "--out=" + o2, "--time=60", "--seed=1", "--fix=" + path], timeout=120)
                    except subprocess.TimeoutExpired: pass
                    if os.path.exists(o2):
                        d2 = json.load(open(o2))
                        if d2["cex"] and d2["cex"][0]["kind"] == c["kind"] and d2["cex"][0]["msg"] == c["msg"]:
                            ok, log = True, log + "; the recorded schedule, executed step by step, fails as reported"
                with open(path, "a") as f:
                    for l in log.splitlines(): f.write("# native: " + l + "\n")
                if ok and e.known and e.known[0] == c["msg"]:
                    status["known"].append((e.known[1], c["msg"]))
                elif ok:
                    status["violations"].append((e.name, c["kind"], c["msg"], path, c["where"]))
                else:
                    status["errors"].append("counterexample of %s (%s: %s) does not reproduce natively: %s\n%s" % (e.name, c["kind"], c["msg"], log, c["where"]))
                continue
            if e.known:
                continue
            if d["inconclusive"]:
                status["errors"].append("%s inconclusive: %s %s" % (e.name, d["inconclusive"], err))
                continue
            if d["disagreements"]:
                status["errors"].append("%s: solver back ends disagree" % e.name)
            if sh == 0 and not entry_paths[e][2]:
                missing = [x for x in e.reach if x not in entry_reach[e]]
                if missing:
                    status["errors"].append("%s: vacuous, labels never reached: %s" % (e.name, missing))
                if not entry_paths[e][0] or not entry_paths[e][1]:
                    status["errors"].append("%s: vacuous (paths=%s asserts=%s)" % (e.name, entry_paths[e][0], entry_paths[e][1]))
            # translation check: completed paths replayed against the native build of the same code
            if not e.threads:
                for i, t in enumerate(d["traces"][:12 if e.shards == 1 else max(3, 16 // e.shards)]):
                    p = "%s/%s_%d_%d.in" % (w, e.name, sh, i)
                    write_inputs(p, t)
                    rc, out, er = replay(natives[h], e.name, p)
                    obs = [x.split()[1:] for x in out.splitlines() if x.startswith("OBS ")]
                    want = [[n, v.lower().lstrip("0") or "0"] for n, v in t["obs"]]
                    got = [[n, v.lstrip("0") or "0"] for n, v in obs]
                    if rc not in (0, 76, 77, 78, "timeout") and ("ERROR: AddressSanitizer" in er or "runtime error: " in er or "ERROR: LeakSanitizer" in er or "ASSERT-FAILED" in out + er):
                        # undefined behaviour of the real code that the optimizer has removed from the encoded form
                        path = "%s/evidence/replay/%s_%s.txt" % (V, prop, e.name)
                        first = next((l for l in (out + er).splitlines() if "Sanitizer" in l or "runtime error: " in l or "ASSERT-FAILED" in l), "")
                        write_inputs(path, t, "property %s harness %s entry %s\nnative run of an explored path fails: %s\n" % (prop, os.path.basename(h), e.name, first))
                        status["violations"].append((e.name, "undefined behaviour", first[:300], path, er[-600:]))
                        break
                    if rc != 0 or got != want:
                        status["errors"].append("%s: native replay of a symbolic path differs (rc=%s)\n in=%s\n want=%s\n got=%s\n %s %s" % (e.name, rc, t["in"], want[:30], got[:30], out[-300:], er[-1500:]))
                        break
                    validated += 1
            if d["traces"] and len(samples) < 12:
                t = d["traces"][-1]
                samples.append({"entry": e.name, "inputs": ["%s=0x%s" % (n, v) for n, v in t["in"]][:24], "observed": ["%s=0x%s" % (n, v) for n, v in t["obs"]][:12]})
    finally:
        if keep: print("work dir", work0)
        else: shutil.rmtree(work0, ignore_errors=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": agg["paths"] + agg["forks"], "transitions": agg["steps"], "traces_validated_against_impl": validated, "samples": samples,
            "explanation": "states: completed symbolic paths plus forked symbolic states; transitions: LLVM instructions executed symbolically; each path stands for every value of its symbolic inputs that satisfies its path condition",
            "exhaustive": not status["errors"] and not status["violations"],
            "engine": {k: agg[k] for k in agg}, "solver_s": round(solver_s, 2), "entries": per_entry,
            "functions_encoded": sorted("%s [%s]" % (n, f.replace(REPO + "/", "")) for n, f in functions.items()),
            "bounds": bounds, "stubs": stubs,
        },
        "assumptions": assumes + ["harness code and the runtime models in /verif/models stand for libstdc++/libc internals", "clang -O1 lowering of the sources is the code under test; paths are replayed against the g++ build"],
        "wall_s": round(time.time() - t0, 2), "violations": len(status["violations"]),
    }
    if status["errors"]: ev["coverage"]["errors"] = [x[:500] for x in status["errors"]]
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s: %d entries, %d paths, %d queries (%d sat, %d unsat), solver %.1fs, %d native replays, wall %.1fs" % (prop, len(per_entry), agg["paths"], agg["queries"], agg["sat"], agg["unsat"], solver_s, validated, time.time() - t0))
    for k, m in status["known"]:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if status["violations"]:
        for n, kind, m, p, wh in status["violations"]:
            print("  %s: [%s] %s\n%s" % (n, kind, m, "\n".join("    " + x for x in wh.splitlines()[:8])))
        print("VIOLATION property=%s replay=%s" % (prop, status["violations"][0][3]))
        for e in status["errors"]: print("note: " + e[:1500], file=sys.stderr)
        return 1
    if status["errors"]:
        for e in status["errors"]: print("ERROR: " + e[:4000])
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Fail as e:
        print("ERROR: %s" % e)
        sys.exit(2)

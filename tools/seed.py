#!/usr/bin/env python3
# Create and validate planted bugs. Usage: seed.py FILE [ID...]; FILE holds a list BUGS of dicts
# (id, property, needs, breaks, edits=[(file, old, new)], demo=<C++ source>, flags=<extra g++ flags>).
import sys, os, json, subprocess, shutil, runpy
R = "/repo"; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh(f"git -C {R} checkout -- .")
def edit(f, old, new):
    p = R + "/" + f; s = open(p, newline="").read(); crlf = "\r\n" in s
    if crlf: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w", newline="").write(s.replace(old, new))
m = runpy.run_path(sys.argv[1]); ids = sys.argv[2:]
assert not sh(f"git -C {R} status --porcelain").stdout, "repo not clean"
DEMO = '''#!/bin/bash
# Exits 0 if the property holds in the demonstrated situation, nonzero otherwise. Run in /repo after the build.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -g -DAWL_INT_128 %s -I. -IPlatforms/Posix "$D/demo.cpp" %s -o "$T/demo" -lpthread || exit 99
cd "$T" && timeout 120 ./demo
'''
for b in m["BUGS"]:
    if ids and b["id"] not in ids: continue
    d = f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(b["demo"]); open(d + "/demo.sh", "w").write(DEMO % (b.get("flags", ""), b.get("src", ""))); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    try:
        clean(); r0 = sh(f"bash {d}/demo.sh", cwd=R)
        for e in b["edits"]: edit(*e)
        open(d + "/patch.diff", "w", newline="").write(subprocess.run(f"git -C {R} diff", shell=True, capture_output=True).stdout.decode())
        r1 = sh(f"bash {d}/demo.sh", cwd=R)
        ok = r0.returncode == 0 and r1.returncode not in (0, 99)
        print(b["id"], "demo", r0.returncode, r1.returncode, "OK" if ok else "BAD", flush=True)
        if r0.returncode: print(r0.stdout[-1500:])
        if r1.returncode in (0, 99): print(r1.stdout[-1500:])
        if not ok: continue
        bl = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seed_t.json"); print("  build", bl.returncode, t.stdout.strip().splitlines()[-1:], flush=True)
        if bl.returncode: print(bl.stdout[-1500:])
        c = sh(f"VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 {V}/check.py {b['property']} --tier=quick", cwd=V)
        print("  check", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l][:2], flush=True)
        if c.returncode != 1: print(c.stdout[-1500:])
    finally: clean()
sh("bash /opt/vp/build.sh")

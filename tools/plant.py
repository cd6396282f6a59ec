#!/usr/bin/env python3
"""Writes and confirms planted changes: plant.py FILE.py [ids…].

FILE.py defines `bugs`: a list of dicts id, property, edits [(path, old, new)…], demo (JavaScript, run with cwd the repository), needs, breaks.
A scratch copy (/tmp/w/repo, from `cp -a /repo`) is used for building, the existing tests, the demonstration and the checks.
"""
import json, os, re, subprocess, sys, runpy, shutil
SCR = "/tmp/w/repo"
LIB = SCR + "/lib/digitraffic-common"
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def build():
    return sh("export CI=1 TZ=UTC; node node_modules/typescript/bin/tsc -p tsconfig.json --incremental --tsBuildInfoFile dist/.tsbuildinfo", cwd=LIB)
def tests():
    r = sh("export CI=1 TZ=UTC; node node_modules/vitest/vitest.mjs run --maxWorkers=6 --testTimeout=60000 --exclude src/__test__/utils/stop-watch.test.ts --reporter=json --outputFile=/tmp/w/vt.json", cwd=LIB)
    d = json.load(open("/tmp/w/vt.json"))
    return d["numFailedTests"], d["numPassedTests"], [t["fullName"] for f in d["testResults"] for t in f["assertionResults"] if t["status"] == "failed"]
def restore():
    sh("git checkout -- .", cwd=SCR)
def main():
    bugs = runpy.run_path(sys.argv[1])["bugs"]
    want = sys.argv[2:]
    base = None
    for b in bugs:
        if want and b["id"] not in want: continue
        restore()
        d = f"/verif/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.mjs", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# Run with cwd the repository, after its build.\nexec env TZ=UTC NODE_PATH=/opt/veriftools/node/node_modules timeout 120 node "$(dirname "$0")/demo.mjs"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
        r = build(); assert r.returncode == 0, r.stdout
        c = sh(f"bash {d}/demo.sh", cwd=SCR)
        if c.returncode != 0: print(b["id"], "DEMO FAILS ON CLEAN", c.stdout[-600:], c.stderr[-600:]); continue
        ok = True
        for path, old, new in b["edits"]:
            p = f"{SCR}/{path}" if os.path.exists(f"{SCR}/{path}") else f"{LIB}/src/{path}"
            s = open(p).read()
            if s.count(old) != 1: print(b["id"], "edit matches", s.count(old), "times in", path); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: restore(); continue
        patch = sh("git diff", cwd=SCR).stdout
        r = build()
        if r.returncode != 0: print(b["id"], "DOES NOT BUILD", r.stdout[-500:]); restore(); continue
        c = sh(f"bash {d}/demo.sh", cwd=SCR)
        if c.returncode == 0: print(b["id"], "DEMO PASSES WITH THE CHANGE", c.stdout[-300:]); restore(); continue
        app = not any("/" not in p or os.path.exists(f"{LIB}/src/{p}") for p, _, _ in b["edits"])
        if not app:
            f, p, names = tests()
            if f: print(b["id"], "TESTS FAIL", names); restore(); continue
        open(d + "/patch.diff", "w").write(patch)
        k = sh(f"VF_REPO={SCR} bin/check {b['property']}", cwd="/verif")
        line = [l for l in k.stdout.split("\n") if l.startswith("VIOLATION")]
        print(b["id"], "caught" if k.returncode == 1 and line else f"MISSED rc={k.returncode}", "; ".join(line)[:300], flush=True)
        restore()
    restore(); build()
main()

#!/usr/bin/env python3
"""mkseed.py DESC.py [id]: writes /verif/seeded/<id>/ from edit descriptions and confirms each against /repo.
DESC.py defines SEEDS = {id: dict(property, needs, what, edits=[(file, old, new)], demo="C++ text" or sh="script", sources=[...], flags="", libs="")}."""
import json, os, runpy, shutil, subprocess, sys
V = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def stable(out):
    d = json.load(open(out))
    return d
def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip(), "repo not clean"
    ids = [i for i in seeds if len(sys.argv) < 3 or i in sys.argv[2:]]
    ok = {}
    for i in ids:
        s = seeds[i]; d = os.path.join(V, i)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f, old, new in s["edits"]:
            p = os.path.join("/repo", f); t = open(p).read()
            assert t.count(old) == 1, (i, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        sh("git -C /repo checkout -- .")
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
        for n, t in s.get("files", {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, n)) or d, exist_ok=True)
            open(os.path.join(d, n), "w").write(t)
        if "demo" in s:
            shutil.copytree("/verif/tools/demokit", d + "/kit")
            open(d + "/demo.cc", "w").write(s["demo"])
            open(d + "/demo.sh", "w").write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nT="$(mktemp -d)"; trap \'rm -rf "$T"\' EXIT\nexport DEMO_FLAGS="%s" DEMO_LIBS="%s"\nbash "$D/kit/build.sh" "$T/demo" "$D/demo.cc" %s || { echo "could not build the demonstration"; exit 2; }\ncd "$T" && timeout 120 ./demo\n' % (s.get("flags", "").replace("KIT", "$D/kit"), s.get("libs", ""), " ".join(s["sources"])))
        else:
            open(d + "/demo.sh", "w").write(s["sh"])
    def run(i, want):
        return sh("cd /repo && timeout 300 bash %s/%s/demo.sh" % (V, i))
    b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, b.stdout[-2000:]
    for i in ids:
        r = run(i, 0)
        ok[i] = r.returncode == 0
        if r.returncode: print(i, "demo FAILS on the unchanged tree", r.returncode, r.stdout[-1500:])
    for i in ids:
        if not ok[i]: continue
        a = sh("git -C /repo apply %s/%s/patch.diff" % (V, i))
        try:
            assert a.returncode == 0, a.stdout
            t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            passed = set()
            try:
                j = json.load(open("/tmp/seedtest.json"))
                passed = set(j["passed"])
            except Exception as e: print("test result", e, t.stdout[-500:])
            r = run(i, 1)
            good = r.returncode != 0 and r.returncode != 2 and base <= passed
            print(i, "OK" if good else "BAD", "demo exit", r.returncode, "missing tests", sorted(base - passed)[:3], r.stdout[-300:].strip())
            ok[i] = good
        finally:
            sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
    for i in ids:
        if not ok[i]: print("NOT KEPT:", i); shutil.rmtree(os.path.join(V, i), ignore_errors=True)
main()

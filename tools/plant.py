#!/usr/bin/env python3
"""plant.py SPEC.py : makes seeded/<id>/ from a description and confirms it in a scratch copy.

SPEC defines id, property, needs, breaks, edits [(file, old, new)], demo (C++ text) and optionally
flags/libs for it or `sh` (a whole demo.sh body).  The copy is bound over /repo in a mount namespace
of its own, so /repo itself never changes.
"""
import json, os, subprocess, sys, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
SH = r'''#!/bin/bash
# exit 0: the property holds on the demonstrated input; run in the repository after its build
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -O1 -std=c++17 -w -Irct_optimizations/include -Irct_common/include -Irct_image_tools/include $(pkg-config --cflags eigen3) %s "$D/demo.cpp" -o "$W/demo" \
  -L_build -Wl,-rpath,"$PWD/_build" %s -lceres -lglog -lyaml-cpp -lpthread || exit 3
cd "$W" && ./demo > out.txt 2>&1; rc=$?; grep -a DEMO out.txt; exit $rc
'''
def ns(script):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (WT, script)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main(spec):
    s = runpy.run_path(spec)
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    subprocess.run("rm -rf %s && cp -a /repo %s" % (WT, WT), shell=True, check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(WT, f); t = open(p).read()
        if t.count(old) < 1: sys.exit("%s: not found: %r" % (f, old))
        i = s.get("which", 0)
        pos = -1
        for _ in range(i + 1): pos = t.index(old, pos + 1)
        open(p, "w").write(t[:pos] + new + t[pos + len(old):])
    diff = subprocess.run(["git", "-C", WT, "diff"], stdout=subprocess.PIPE, text=True).stdout
    subprocess.run(["git", "-C", WT, "stash", "-q"], check=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    opt = "-lrct_optimizations" if not s.get("img") else "-lrct_image_tools -lrct_optimizations -lopencv_aruco -lopencv_objdetect -lopencv_features2d -lopencv_imgcodecs -lopencv_imgproc -lopencv_calib3d -lopencv_core"
    flags = s.get("flags", "") + (" $(pkg-config --cflags opencv4)" if s.get("img") else "")
    open(os.path.join(d, "demo.sh"), "w").write(s["sh"] if "sh" in s else SH % (flags, opt))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if "demo" in s: open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
    for f in s.get("files", []):
        subprocess.run(["cp", "-r", f, d], check=True)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    demo = "bash %s/demo.sh" % d
    def fail(why, r):
        print(r.stdout[-3000:]); print("NOT KEPT %s: %s" % (s["id"], why)); shutil.rmtree(d); subprocess.run(["rm", "-rf", WT]); sys.exit(1)
    r = ns("bash /opt/vp/build.sh >/dev/null 2>&1; " + demo)
    if r.returncode: fail("demo fails unpatched (%d)" % r.returncode, r)
    r = ns("git apply %s/patch.diff && bash /opt/vp/test.sh /tmp/wt_out.json" % d)
    o = json.load(open("/tmp/wt_out.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    if st - set(o["passed"]): fail("tests notice: %s" % sorted(st - set(o["passed"]))[:5], r)
    r = ns(demo)
    if r.returncode in (0, 3): fail("demo result with patch: %d" % r.returncode, r)
    print("KEPT", s["id"], r.stdout.strip()[-200:])
    subprocess.run(["rm", "-rf", WT])
main(sys.argv[1])

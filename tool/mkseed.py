"""Build one planted change: python3 tool/mkseed.py SPEC.py
SPEC.py defines id, property, needs, breaks, edits=[(file, old, new)],
demo (C++ source), optionally cxxflags and files={name: text}.  Works in a
scratch copy; keeps the change only when it builds, passes the stable tests
and the demonstration tells the two trees apart."""
import json, os, shutil, subprocess, sys, tempfile

W = "/tmp/seedwork"
REPO = W + "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    os.makedirs(W, exist_ok=True)
    sh("rsync -a --delete --exclude _build /repo/ %s/ 2>/dev/null || (mkdir -p %s && cp -a /repo/. %s/)" % (REPO, REPO, REPO))
    sh("git -C %s checkout -q -f HEAD -- . " % REPO)
    if not os.path.isdir(W + "/cmake"):
        shutil.copytree("/opt/vp/cmake", W + "/cmake")
        p = W + "/cmake/CMakeLists.txt"
        t = open(p).read().replace("set(REPO /repo)", "set(REPO %s)" % REPO)
        open(p, "w").write(t)


def build():
    r = sh("cmake -S %s/cmake -B %s/build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo >/dev/null && ninja -C %s/build" % (W, W, W))
    if r.returncode:
        return r.stdout[-3000:]
    r = sh("cd %s/build && ctest 2>&1 | tail -15" % W)
    if "100% tests passed" not in r.stdout:
        return r.stdout
    return None


def demo(d):
    sh("chmod +x %s/demo.sh" % d)
    r = sh("timeout 280 bash %s/demo.sh" % d, cwd=REPO)
    return r.returncode, r.stdout[-1500:]


DEMO = """#!/bin/bash
# exit 0 when the behaviour is as promised, nonzero otherwise; run in the repository
set -u
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf -- "$t"' EXIT
g++ -std=c++17 -O1 -w %s -Isource "$here/demo.cpp" %s -o "$t/demo" -pthread || exit 3
cd "$t" && timeout 120 ./demo
"""


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    fresh()
    d = "/verif/seeded/%s" % ns["id"]
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(ns["demo"])
    open(d + "/demo.sh", "w").write(DEMO % (ns.get("cxxflags", ""), ns.get("srcs", "")))
    for n, t in ns.get("files", {}).items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
        open(d + "/" + n, "w").write(t)
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    rc, out = demo(d)
    if rc != 0:
        print(ns["id"], "demo fails on the unchanged tree", rc, out)
        return 1
    for f, old, new in ns["edits"]:
        p = REPO + "/" + f
        t = open(p).read()
        if t.count(old) != 1:
            print("%d occurrences of %r in %s" % (t.count(old), old, f))
            return 1
        open(p, "w").write(t.replace(old, new))
    diff = sh("git -C %s diff" % REPO).stdout
    open(d + "/patch.diff", "w").write(diff)
    rc, out = demo(d)
    bad = None if ns.get("nobuild") else build()
    # lines removed must be lines of the original repository
    print(ns["id"], "demo on changed tree:", rc, out.strip()[-300:], "| tests:", bad or "pass")
    sh("git -C %s checkout -q -f HEAD -- ." % REPO)
    return 0 if rc and not bad else 1


if __name__ == "__main__":
    sys.exit(max(main(s) for s in sys.argv[1:]))

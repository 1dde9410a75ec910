"""Run the checks against planted changes in a scratch copy:
python3 tool/tryseeds.py [ids...]   (EL_REPO selects the copy)"""
import json, os, subprocess, sys, glob
W = "/tmp/tryseed"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(i):
    d = "%s/seeded/%s" % (ROOT, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    t = "%s/%s" % (W, i)
    sh("rm -rf %s && mkdir -p %s && cp -a /repo/source /repo/tests %s/ && cd %s && git init -q . && git apply %s/patch.diff" % (t, t, t, t, d))
    env = dict(os.environ, EL_REPO=t)
    r = sh("cd %s && timeout 900 python3 -m elcheck %s --tier=quick" % (ROOT, prop), env=env)
    sh("rm -rf %s" % t)
    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
    return "%-34s %s rc=%d %s" % (i, prop, r.returncode, (v[0][:150] if v else r.stdout[-400:]))


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.path.basename(p) for p in glob.glob(ROOT + "/seeded/*") if os.path.exists(p + "/patch.diff"))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for l in ex.map(one, ids):
            print(l, flush=True)

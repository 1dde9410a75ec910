import importlib
import os
import sys
import traceback

from . import ir
from .report import Check

sys.setrecursionlimit(20000)

MODULES = {
    "C01": "images", "C02": "images", "C03": "images", "C04": "images", "C05": "images",
    "C06": "csv", "C07": "csv", "C08": "csv", "C09": "csv", "C10": "csv",
    "C11": "jsonread", "C12": "json", "C13": "json", "C14": "json", "C15": "onehot",
    "C16": "kernels", "C17": "kernels", "C18": "kernels", "C19": "kernels", "C20": "kernels",
    "C21": "layers", "C22": "layers", "C23": "training", "C24": "training", "C25": "params", "C26": "params", "C27": "recurrent", "C28": "model", "C29": "models", "C30": "graph", "C31": "dataset", "C32": "dataset", "C33": "persist",
}


def main(argv):
    pids = [a for a in argv if not a.startswith("-")]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv:
        if a.startswith("--tier="):
            tier = a.split("=")[1]
    if pids == ["setup"]:
        ir.tool()
        for v in ir.VIEWS:
            ir.view(v)
        return 0
    if pids == ["all"]:
        pids = sorted(p for p in MODULES if os.path.exists(os.path.join(os.path.dirname(__file__), "rules", MODULES[p] + ".py")))
    rc = 0
    for p in pids:
        try:
            m = importlib.import_module("elcheck.rules." + MODULES[p])
            c = Check(p, tier)
            asm = c.part(getattr(m, p)) or []
            r = c.finish(asm)
        except ir.AnalysisBroken as e:
            print("%s: analysis cannot run: %s" % (p, e))
            r = 2
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r) if r != 1 else (1 if rc in (0, 1) else rc)
    return rc


sys.exit(main(sys.argv[1:]))

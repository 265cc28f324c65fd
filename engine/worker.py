"""Worker process: executes one kind of work (symbolic or concrete) for one property, JSON over stdio."""
from __future__ import annotations

import json
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from engine import loader  # noqa: E402


def main():
    mode, prop = sys.argv[1], sys.argv[2]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    loader.install(instr=(mode == "sym"))
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(3000)
    if mode == "sym":
        import z3
        z3.z3.Z3_DEBUG = False
        from engine import core, models, rt, symctx, stdurl  # noqa
    from engine import concctx
    try:
        mod = __import__(f"contracts.{prop.lower()}", fromlist=["HARNESSES"])
        hs = {h.__name__: h for h in mod.HARNESSES}
        out.write(json.dumps({"ready": True, "harnesses": list(hs), "notes": getattr(mod, "NOTES", {}),
                              "bounded": getattr(mod, "BOUNDED", {}), "opts": getattr(mod, "OPTS", {})}) + "\n")
    except BaseException as e:
        out.write(json.dumps({"ready": False, "error": "".join(traceback.format_exception(e))[-3000:]}) + "\n")
        return
    for line in sys.stdin:
        cmd = json.loads(line)
        try:
            r = do(mode, cmd, hs, mod)
        except BaseException as e:
            r = {"error": "".join(traceback.format_exception(e))[-3000:]}
        try:
            with open("/proc/self/statm") as f:
                r["rss"] = int(f.read().split()[1]) * 4096
        except OSError:
            pass
        out.write(json.dumps(r) + "\n")


def do(mode, cmd, hs, mod):
    t0 = time.time()
    h = hs[cmd["h"]]
    if cmd["cmd"] == "prove":
        from engine import rt, symctx
        rt.FUNCS_SEEN.clear()
        o = dict(getattr(mod, "OPTS", {}).get(cmd["h"], {}))
        o = {k: v for k, v in o.items() if k in ("list_max", "split_max", "loop_max", "max_paths")}
        if cmd["mode"] == "bounded" and "list_max" not in o:
            o["list_max"] = cmd.get("list_max", 2)
        c = symctx.SymCtx(h, mode=cmd["mode"], budget_s=cmd["budget"], want_models=cmd.get("models", 0), **o)
        c.frontier = cmd.get("frontier")
        if cmd.get("slice"):
            c.slice_end = t0 + cmd["slice"]
        for root in cmd.get("roots") or [[]]:
            st = c.explore(root)
            if st.incomplete:
                break
        return {"paths": st.paths, "obligations": st.obligations, "trivial": st.trivial, "by_backend": st.by_backend,
                "undecided": st.undecided[:40], "n_undecided": len(st.undecided), "failed": st.failed,
                "unsupported": sorted(set(st.unsupported))[:20], "n_unsupported": len(st.unsupported),
                "solver_s": round(st.solver_s, 2), "labels": st.labels, "models": st.models,
                "notes": sorted(st.notes), "loops_cut": sorted(st.loops_cut), "assumed": sorted(st.assumed),
                "incomplete": st.incomplete, "roots": c.roots, "functions": sorted(rt.FUNCS_SEEN),
                "bounded_points": sorted(st.bounded_points), "wall": round(time.time() - t0, 2)}
    from engine import concctx
    if cmd["cmd"] == "run":
        res = []
        for v in cmd["inputs"]:
            r = concctx.run_concrete(h, values=v, rng=random.Random(1))
            res.append(list(r[:4]))
        return {"results": res}
    if cmd["cmd"] == "random":
        pool = list(concctx.BASE_STR) + cmd.get("pool", [])
        rng = random.Random(cmd["seed"])
        n = ok = 0
        labels = {}
        deadline = t0 + cmd["budget"]
        while n < cmd["n"] and time.time() < deadline:
            n += 1
            s = rng.getrandbits(48)
            r = concctx.run_concrete(h, rng=random.Random(s), pool=pool)
            if r[0] == "ok":
                ok += 1
                for k, v in r[4].items():
                    labels[k] = labels.get(k, 0) + v
            if r[0] == "fail":
                return {"n": n, "ok": ok, "fail": list(r[:4]), "labels": labels}
        return {"n": n, "ok": ok, "fail": None, "labels": labels, "wall": round(time.time() - t0, 2)}
    raise ValueError(cmd)


main()

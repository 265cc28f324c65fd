"""Check driver: python -m engine.check <PROPERTY> [--tier quick|thorough] [--replay FILE] [--only HARNESS]"""
from __future__ import annotations

import argparse
import ast
import concurrent.futures as cf
import glob
import json
import os
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"

TIERS = {
    "quick": dict(proof=100.0, bounded=60.0, rand_n=1500, rand_s=12.0, heavy_n=20000, heavy_s=45.0, models=40, list_max=2, cap=420.0),
    "thorough": dict(proof=240.0, bounded=150.0, rand_n=20000, rand_s=60.0, heavy_n=100000, heavy_s=90.0, models=250, list_max=3, cap=800.0),
}


class Worker:
    def __init__(self, mode, prop):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = "0"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.p = subprocess.Popen([PY, "-X", "utf8", os.path.join(VERIF, "engine", "worker.py"), mode, prop], cwd=VERIF,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL if not os.environ.get("VERIF_DEBUG") else None, text=True, env=env)
        self.hello = self._read(60)

    def _read(self, timeout):
        res = []

        def rd():
            try:
                res.append(self.p.stdout.readline())
            except Exception:
                pass
        t = threading.Thread(target=rd, daemon=True)
        t.start()
        t.join(timeout)
        if not res or not res[0]:
            self.kill()
            return {"error": "worker died or timed out"}
        try:
            return json.loads(res[0])
        except ValueError:
            return {"error": "bad worker output " + res[0][:200]}

    def ask(self, timeout, **cmd):
        if self.p.poll() is not None:
            return {"error": "worker dead"}
        try:
            self.p.stdin.write(json.dumps(cmd) + "\n")
            self.p.stdin.flush()
        except OSError:
            return {"error": "worker dead"}
        return self._read(timeout)

    def kill(self):
        try:
            self.p.kill()
            self.p.wait(5)
        except Exception:
            pass


class Pool:
    """up to n symbolic workers for one property; the contract that has used least worker time goes first"""

    def __init__(self, prop, n):
        self.prop, self.n = prop, n
        self.cond = threading.Condition()
        self.idle = n
        self.free = []
        self.used = {}
        self.waiting = []

    def ask(self, timeout, **cmd):
        h = cmd["h"]
        with self.cond:
            me = object()
            self.waiting.append((me, h))
            self.used.setdefault(h, 0.0)
            while not (self.idle and min(self.waiting, key=lambda w: self.used[w[1]])[0] is me):
                self.cond.wait()
            self.waiting.remove((me, h))
            self.idle -= 1
            w = self.free.pop() if self.free else None
            self.used[h] += 0.05                       # a claim, so that equal contracts alternate
            self.cond.notify_all()
        t = time.time()
        try:
            if w is None:
                w = Worker("sym", self.prop)
            if not w.hello.get("ready"):
                w.kill()
                return {"error": "symbolic worker: " + str(w.hello.get("error"))[-1500:]}
            r = w.ask(timeout, **cmd)
            if "error" in r and "paths" not in r or r.get("rss", 0) > 1.2e9:
                w.kill()
                w = None
            return r
        finally:
            with self.cond:
                self.used[h] += time.time() - t
                self.idle += 1
                if w is not None and w.p.poll() is None:
                    self.free.append(w)
                self.cond.notify_all()

    def close(self):
        for w in self.free:
            w.kill()


def merge(rs):
    out = rs[0]
    for r in rs[1:]:
        for k in ("paths", "obligations", "trivial", "n_undecided", "n_unsupported"):
            out[k] += r[k]
        out["solver_s"] = round(out["solver_s"] + r["solver_s"], 2)
        for k in ("by_backend", "labels"):
            for a, b in r[k].items():
                out[k][a] = out[k].get(a, 0) + b
        for k in ("undecided", "failed", "models"):
            out[k] = out[k] + r[k]
        for k in ("unsupported", "notes", "loops_cut", "assumed", "functions", "bounded_points"):
            out[k] = sorted(set(out[k]) | set(r[k]))
        out["incomplete"] = out["incomplete"] or r["incomplete"]
    return out


def prove(pool, h, mode, budget, models, wall=None, **kw):
    """explore all paths of a contract, spread over the pool's workers; budget: seconds of half of the workers"""
    t0 = time.time()
    used0 = pool.used.get(h, 0.0)
    share = budget * pool.n / 2

    def left_of():
        return min((share - (pool.used.get(h, 0.0) - used0)), (wall or 1e9) - (time.time() - t0))
    depth = 5
    rs = []
    roots = [[]]
    for rnd in range(3):
        r = pool.ask(budget * 2 + 60, cmd="prove", h=h, mode=mode, budget=budget, models=models, frontier=depth, roots=roots, **kw)
        if "error" in r:
            return r
        rs.append(r)
        roots = r["roots"]
        if not roots or len(roots) >= 12 or r["incomplete"]:
            break
        depth += 5
    if roots and not rs[-1]["incomplete"]:
        cond = threading.Condition()
        queue = list(roots)
        state = {"busy": 0, "stop": None, "err": None}

        def run():
            while True:
                with cond:
                    while not queue and state["busy"] and not state["stop"]:
                        cond.wait()
                    if not queue or state["stop"]:
                        cond.notify_all()
                        return
                    n = max(1, min(8, len(queue) // (2 * pool.n)))
                    ch = [queue.pop() for _ in range(n)]
                    state["busy"] += 1
                left = left_of()
                r = None
                if left > 0.5:
                    r = pool.ask(left * 2 + 60, cmd="prove", h=h, mode=mode, budget=left, models=max(2, models // 20), roots=ch,
                                 slice=min(4.0, left), **kw)
                with cond:
                    state["busy"] -= 1
                    if r is None:
                        state["stop"] = "time budget"
                    elif "error" in r:
                        state["stop"] = state["err"] = r["error"]
                    else:
                        rs.append(r)
                        queue.extend(r["roots"])
                        if r["incomplete"] or sum(len(x["failed"]) for x in rs) >= 24:
                            state["stop"] = r["incomplete"] or "failure budget"
                    cond.notify_all()
        ths = [threading.Thread(target=run, daemon=True) for _ in range(pool.n)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if state["err"]:
            return {"error": state["err"]}
        if state["stop"]:
            rs[0]["incomplete"] = rs[0]["incomplete"] or state["stop"]
    out = merge(rs)
    out["wall"] = round(time.time() - t0, 2)
    out["failed"] = out["failed"][:24]
    out["models"] = out["models"][:2 * models]
    out["undecided"] = out["undecided"][:40]
    return out


def constants():
    out = set()
    for fn in glob.glob(REPO + "/starlette/**/*.py", recursive=True):
        try:
            t = ast.parse(open(fn, encoding="utf-8").read())
        except (SyntaxError, OSError, UnicodeError):
            continue
        docs = {id(n.value) for n in ast.walk(t) if isinstance(n, ast.Expr)}
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                v = n.value
                if isinstance(v, bytes):
                    v = v.decode("latin-1")
                if isinstance(v, str) and 0 < len(v) <= 40:
                    out.add(v)
    return out


def pool(prop):
    allc = constants()
    base = set()
    try:
        base = set(json.load(open(os.path.join(VERIF, "engine", "baseline_constants.json"))))
    except OSError:
        pass
    new = sorted(allc - base)
    old = sorted(c for c in allc & base if len(c) <= 16)
    step = max(1, len(old) // 40)
    return new[:60] * 3 + old[::step]


def check_harness(prop, h, T, seed, tier, opts, bounded_only, P, t_start, spool):
    """-> dict result for one harness"""
    R = {"harness": h, "violation": None, "proof": None, "bounded": None, "random": None, "replayed_models": 0,
         "model_mismatch": [], "undecided": [], "spurious": 0, "errors": []}
    left = lambda: T["cap"] - (time.time() - t_start)
    conc = None
    try:
        conc = Worker("conc", prop)
        if not conc.hello.get("ready"):
            R["errors"].append("concrete worker: " + str(conc.hello.get("error"))[-1500:])
            R["conc_dead"] = True

        def replay(cands, what):
            if R.get("conc_dead"):
                return None
            for f in cands:
                r = conc.ask(60, cmd="run", h=h, inputs=[f["inputs"]])
                if "results" not in r:
                    R["errors"].append("replay: " + str(r.get("error"))[-500:])
                    return None
                k = r["results"][0]
                if k[0] == "fail":
                    return {"label": k[1], "info": k[2], "inputs": k[3], "found_by": what,
                            "obligation": f.get("label")}
                f["replay"] = k[0]
            return None

        # 0. a fast concrete pass first (cheap, finds gross breakage at once)
        # 1. deduction
        pr = None
        if not bounded_only:
            b = opts.get("budget", T["proof"])
            pr = prove(spool, h, "proof", b, opts.get("models", T["models"]), wall=max(5.0, left() * 0.6))
            if "error" in pr:
                R["errors"].append("prove: " + pr["error"][-1500:])
                pr = None
            else:
                R["proof"] = pr
        clean = pr is not None and not pr["failed"] and not pr["undecided"] and not pr["unsupported"] \
            and not pr["incomplete"] and pr["obligations"] > 0
        R["clean"] = clean
        v = None
        if pr and pr["failed"]:
            v = replay([f for f in pr["failed"] if not f["abstract"]], "counterexample of the failed obligation")
        # 2. bounded stand-in / counterexample search
        if v is None and not clean:
            b = T["bounded"]
            bd = prove(spool, h, "bounded", b, opts.get("models", T["models"]), wall=max(5.0, left() * 0.5), list_max=T["list_max"])
            if "error" in bd:
                R["errors"].append("bounded: " + bd["error"][-1500:])
            else:
                R["bounded"] = bd
                if bd["failed"]:
                    v = replay(bd["failed"], "bounded symbolic counterexample")
        # 3. models of explored paths replayed on the real code
        if v is None and not R.get("conc_dead"):
            models = (pr or {}).get("models", []) + (R["bounded"] or {}).get("models", [])
            for m in models:
                r = conc.ask(60, cmd="run", h=h, inputs=[m])
                if "results" not in r:
                    R["errors"].append("model replay: " + str(r.get("error"))[-500:])
                    conc.kill()
                    conc = Worker("conc", prop)
                    continue
                k = r["results"][0]
                R["replayed_models"] += 1
                if k[0] == "fail":
                    v = {"label": k[1], "info": k[2], "inputs": k[3], "found_by": "model of a verified path run on CPython"}
                    break
        # 4. random cross-check
        if v is None and not R.get("conc_dead"):
            n, s = opts.get("rand_n", T["rand_n"]), T["rand_s"]
            sus = [f for f in (pr or {}).get("failed", [])] + [f for f in (R["bounded"] or {}).get("failed", [])]
            bok = bounded_only and R["bounded"] and not (R["bounded"]["n_undecided"] or R["bounded"]["n_unsupported"] or R["bounded"]["incomplete"])
            if sus or not (clean or bok):
                n, s = max(n, T["heavy_n"]) if n else 0, T["heavy_s"]
            s = max(2.0, min(s, left() * 0.5))
            if n:
                r = conc.ask(s * 2 + 60, cmd="random", h=h, n=n, seed=seed, budget=s, pool=P)
                if "error" in r:
                    R["errors"].append("random: " + r["error"][-500:])
                else:
                    R["random"] = {k: r[k] for k in ("n", "ok", "labels")}
                    if r["fail"]:
                        k = r["fail"]
                        v = {"label": k[1], "info": k[2], "inputs": k[3], "found_by": "concrete cross-check"}
        # 5. refuted obligations without a concrete input
        if v is None and pr:
            hard = [f for f in pr["failed"] if f["abstract"] and not f["label"].startswith("inv:")]
            bclean = R["bounded"] is not None and not R["bounded"]["failed"] and not R["bounded"]["unsupported"]
            if hard and opts.get("report_abstract", True):
                f = hard[0]
                v = {"label": f["label"], "info": f["info"], "inputs": f["inputs"], "no_input": True,
                     "found_by": "refuted proof obligation over abstract state", "path": f["path"]}
        R["violation"] = v
        return R
    finally:
        if conc:
            conc.kill()


def write_replay(prop, h, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}_{h}.json")
    with open(p, "w") as f:
        json.dump({"property": prop, "harness": h, "obligation": v.get("label"), "inputs": v.get("inputs"),
                   "found_by": v.get("found_by"), "output": v.get("info"), "path_condition": v.get("path"),
                   "replay_cmd": f"cd /verif && ./check.sh {prop} --replay {p}"}, f, indent=1)
    return p


def known_findings():
    out = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line[8:].split(" ", 3)[:3] if "=" in x)
                d["text"] = line.split(" -- ", 1)[1] if " -- " in line else line
                out.append(d)
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in TIERS else "quick"
    T = TIERS[tier]
    os.environ["VERIF_TIER_USED"] = tier
    t0 = time.time()
    if a.replay:
        d = json.load(open(a.replay))
        w = Worker("conc", prop)
        r = w.ask(120, cmd="run", h=d["harness"], inputs=[d["inputs"]])
        w.kill()
        print(json.dumps(r, indent=1))
        k = (r.get("results") or [["error"]])[0]
        if k[0] == "fail":
            print(f"VIOLATION property={prop} replay={a.replay}")
            sys.exit(1)
        sys.exit(0)
    w = Worker("conc", prop)
    hello = w.hello
    w.kill()
    if not hello.get("ready"):
        # the real code (or the contract module) does not import: fall back to the symbolic worker's view
        w = Worker("sym", prop)
        hello2 = w.hello
        w.kill()
        msg = str(hello.get("error"))[-1500:]
        print("contracts could not be loaded against this tree:\n" + msg)
        v = {"label": "contract module loads", "info": msg, "inputs": {}, "found_by": "import"}
        p = write_replay(prop, "load", v)
        evidence(prop, tier, seed, [], hello, time.time() - t0, 1, [])
        print(f"VIOLATION property={prop} replay={p} no-failing-input-found")
        sys.exit(1)
    names = [h for h in hello["harnesses"] if not a.only or h == a.only]
    P = pool(prop)
    results = []
    nw = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)
    spool = Pool(prop, nw)
    with cf.ThreadPoolExecutor(max(1, len(names))) as ex:
        order = sorted(names, key=lambda n: -hello["opts"].get(n, {}).get("weight", 1))
        futs = {ex.submit(check_harness, prop, h, T, seed, tier, hello["opts"].get(h, {}), h in hello["bounded"], P, t0, spool): h
                for h in order}
        for f in cf.as_completed(futs):
            r = f.result()
            results.append(r)
            if a.v:
                pr, bd, rd = r["proof"], r["bounded"], r["random"]
                print(f"[{time.time()-t0:6.1f}s] {r['harness']}: clean={r.get('clean')}", end=" ")
                for nm, x in (("proof", pr), ("bounded", bd)):
                    if x:
                        print(f"{nm}(paths={x['paths']} obl={x['obligations']} triv={x['trivial']} und={x['n_undecided']} fail={len(x['failed'])} uns={x['n_unsupported']} inc={x['incomplete']} {x['wall']}s)", end=" ")
                print("rand", rd and (rd["n"], rd["ok"]), "models", r["replayed_models"], flush=True)
                for x in (pr, bd):
                    if x:
                        for u in x["unsupported"][:6]:
                            print("     unsupported:", u)
                        for u in x["undecided"][:4]:
                            print("     undecided:", u)
                        for f in x["failed"][:3]:
                            print("     failed:", f["label"], f["inputs"], f.get("replay"), f["info"][-700:])
                        if x["bounded_points"]:
                            print("     bounded:", x["bounded_points"])
                for e in r["errors"]:
                    print("     error:", e)
                if r["violation"]:
                    print("     VIOL:", json.dumps(r["violation"])[:1800])
    spool.close()
    results.sort(key=lambda r: r["harness"])
    viol = [r for r in results if r["violation"]]
    kf = [k for k in known_findings() if k.get("property") == prop]
    evidence(prop, tier, seed, results, hello, time.time() - t0, len(viol), kf)
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['text']}")
    vs = sorted(viol, key=lambda r: bool(r["violation"].get("no_input")))
    if vs:
        r = vs[0]
        v = r["violation"]
        p = write_replay(prop, r["harness"], v)
        print(f"obligation '{v['label']}' of contract {r['harness']} fails: {str(v['info'])[-600:]}")
        print(f"VIOLATION property={prop} replay={p}" + (" no-failing-input-found" if v.get("no_input") else ""))
        sys.exit(1)
    tot = sum((r["proof"] or {}).get("obligations", 0) for r in results)
    print(f"{prop}: held; {tot} proof obligations over {len(results)} contracts, {time.time()-t0:.1f}s")
    sys.exit(0)


def evidence(prop, tier, seed, results, hello, wall, nviol, kf):
    obligations = discharged = bounded_obl = bounded_dis = 0
    by = {}
    funcs, loops, assumed, notes = set(), set(), set(), set()
    per = []
    evals = 0
    und = []
    solver = 0.0
    for r in results:
        pr, bd = r["proof"], r["bounded"]
        if pr:
            bad = len(pr["failed"]) + pr["n_undecided"]
            full = not pr["bounded_points"] and not pr["unsupported"] and not pr["incomplete"]
            if full:
                obligations += pr["obligations"]
                discharged += pr["obligations"] - bad
            else:
                bounded_obl += pr["obligations"]
                bounded_dis += pr["obligations"] - bad
            for k, n in pr["by_backend"].items():
                by[k] = by.get(k, 0) + n
        if bd:
            bounded_obl += bd["obligations"]
            bounded_dis += bd["obligations"] - len(bd["failed"]) - bd["n_undecided"]
        for x in (pr, bd):
            if x:
                funcs |= set(x["functions"])
                loops |= set(x["loops_cut"])
                assumed |= set(x["assumed"])
                notes |= set(x["notes"])
                solver += x["solver_s"]
        if r["random"]:
            evals += r["random"]["ok"]
        per.append({
            "contract": r["harness"],
            "result": ("violation" if r["violation"] else "proved" if r.get("clean") and pr and not pr["bounded_points"]
                       else "bounded" if (r.get("clean") or bd) else "undecided"),
            "proof": pr and {k: pr[k] for k in ("paths", "obligations", "trivial", "by_backend", "n_undecided", "n_unsupported",
                                                "unsupported", "incomplete", "solver_s", "loops_cut", "bounded_points", "labels")},
            "bounded_standin": bd and {k: bd[k] for k in ("paths", "obligations", "n_undecided", "n_unsupported", "incomplete",
                                                          "bounded_points", "unsupported")},
            "concrete_crosscheck": r["random"] and {"runs": r["random"]["n"], "in_precondition": r["random"]["ok"],
                                                    "reached": r["random"]["labels"]},
            "path_models_replayed": r["replayed_models"], "errors": r["errors"],
            "reason_bounded": hello.get("bounded", {}).get(r["harness"]),
        })
    # a contract whose obligations are never reached would be vacuous
    vac = [p["contract"] for p in per if not ((p["proof"] or {}).get("obligations") or (p["bounded_standin"] or {}).get("obligations"))]
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": f"./check.sh {prop} --tier {tier}",
        "trusted_base": sorted({
            "CPython 3.12 executing the instrumented source (control flow, closures, coroutines, exceptions)",
            "engine/: AST instrumentation, symbolic value semantics, loop-contract protocol",
            "z3 5.3 / cvc5 as back ends",
            *("assumed contract: " + x for x in assumed)}),
        "by_backend": by, "solver_s": round(solver, 1),
        "functions_under_contract": sorted(funcs), "loops_cut_by_invariant": sorted(loops),
        "bounded_obligations": bounded_obl, "bounded_discharged": bounded_dis,
        "evaluations": evals, "contracts": per, "vacuous_contracts": vac,
        "explanation": "obligations/discharged count contracts proved with no bound; obligations of contracts with a "
                       "stated bound or an unsupported path are under bounded_*; concrete cross-check runs the same "
                       "contracts on the uninstrumented code",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level_of(prop, discharged), "coverage": cov,
          "assumptions": sorted(notes | assumed | set(hello.get("notes", {}).values() if isinstance(hello.get("notes"), dict) else [])),
          "wall_s": round(wall, 2), "violations": nviol}
    if kf:
        ev["coverage"]["known_findings"] = [k["text"] for k in kf]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def level_of(prop, discharged):
    try:
        m = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "proof"


if __name__ == "__main__":
    main()

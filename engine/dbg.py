"""developer aid: run one harness symbolically in-process, print slow queries"""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import loader
loader.install(True)
import warnings; warnings.simplefilter("ignore")
from engine import core, models, rt, symctx, stdurl
import z3
prop, h, mode, budget = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
mod = __import__(f"contracts.{prop.lower()}", fromlist=["x"])
f = {x.__name__: x for x in mod.HARNESSES}[h]
o = {k: v for k, v in getattr(mod, "OPTS", {}).get(h, {}).items() if k in ("list_max", "split_max", "loop_max", "max_paths")}
c = symctx.SymCtx(f, mode=mode, budget_s=budget, **o)
slow = []
oc = c._check
def chk(*e):
    t = time.time(); r = oc(*e); d = time.time() - t
    if d > 0.3:
        import traceback
        slow.append((d, str(r), [str(x)[:300] for x in e], [f"{os.path.basename(x.filename)}:{x.lineno}" for x in traceback.extract_stack()[-14:-1]]))
        if os.environ.get("DUMP"):
            pass
    return r
c._check = chk
t = time.time()
os_ = c.sat_refined
def sr(extra, ms, rounds=40):
    t = time.time(); r = os_(extra, ms, rounds); d = time.time() - t
    if d > 0.3: slow.append((d, r[0], [str(x)[:500] for x in extra], "OBL " + str([f"{k.name}:{k.lineno}" for k in __import__("traceback").extract_stack() if "c04" in k.filename][-1:]) + str([str(x) for x in c.asserts])[:2500]))
    return r
c.sat_refined = sr
st = c.explore()
print("wall", time.time() - t, "paths", st.paths, "obl", st.obligations, "triv", st.trivial, st.by_backend, "und", st.undecided[:5], "inc", st.incomplete, "solver", st.solver_s)
for x in st.failed[:4]: print("FAILED", x["label"], x["inputs"], x["info"][-1500:], *x["path"], sep="\n   ")
print("uns", sorted(set(st.unsupported))[:10])
slow.sort(key=lambda x: -x[0])
print("slow", len(slow), sum(x[0] for x in slow))
for s in slow[:int(os.environ.get("N", "6"))]: print(s)

"""developer aid: plant.py SPEC.py ... -- validate planted bugs in a scratch copy and store them under seeded/.
A spec file defines BUGS = [dict(id=, property=, edits=[(file, old, new)], demo=python source, needs=, breaks=)]"""
import json, os, re, shutil, subprocess, sys, tempfile
import concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable_passed"]) if "stable_passed" in json.load(open("/opt/vp/BASELINE.json")) else None
DEMO = '''#!/bin/bash
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
def one(b):
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        r = d + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        o = d + "/bug"; os.mkdir(o)
        open(o + "/demo.sh", "w").write(DEMO); os.chmod(o + "/demo.sh", 0o755)
        open(o + "/demo.py", "w").write(b["demo"])
        ok0 = subprocess.run(["bash", o + "/demo.sh"], cwd=r, capture_output=True, text=True)
        if ok0.returncode:
            return b["id"], "demo fails on clean tree: " + ok0.stderr[-600:]
        for f, old, new in b["edits"]:
            s = open(r + "/" + f).read()
            if s.count(old) != 1:
                return b["id"], f"edit matches {s.count(old)} times in {f}: {old[:60]}"
            open(r + "/" + f, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        bad = subprocess.run(["bash", o + "/demo.sh"], cwd=r, capture_output=True, text=True)
        if bad.returncode == 0:
            return b["id"], "demo passes with the bug"
        t = subprocess.run(["timeout", "400", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=30", "--basetemp", d + "/bt", "tests"],
                           cwd=r, capture_output=True, text=True, env={**os.environ, "PYTHONHASHSEED": "0", "LANG": "C.UTF-8"})
        fails = sorted(re.findall(r"^(?:FAILED|ERROR) (\S+)", t.stdout, re.M))
        fails = [x for x in fails if not any(k in x for k in KNOWN)]
        if fails or "passed" not in t.stdout:
            return b["id"], f"tests fail: {fails[:6]} {t.stdout[-200:] if not fails else ''}"
        dst = f"{V}/seeded/{b['id']}"
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(o, dst)
        open(dst + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        return b["id"], "ok   demo: " + (bad.stderr.strip().splitlines() or ["?"])[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)
KNOWN = json.load(open(V + "/tools/known_fails.json"))
bugs = []
for f in sys.argv[1:]:
    ns = {}
    ns["f"] = f
    exec(open(f).read(), ns)
    bugs += ns["BUGS"]
with cf.ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(one, bugs):
        print(f"{i:14} {m}", flush=True)

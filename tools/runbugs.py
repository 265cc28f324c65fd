"""developer aid: runbugs.py [id ...] -- run each planted bug's property check against a scratch copy with the bug"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
RES = V + "/tools/bug_results.json"
for i in ids:
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    d = tempfile.mkdtemp(prefix="rb_", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        subprocess.run(["git", "-C", d + "/repo", "apply", f"{V}/seeded/{i}/patch.diff"], check=True)
        t = time.time()
        r = subprocess.run(["./check.sh", m["property"]], cwd=V, capture_output=True, text=True, env={**os.environ, "VERIF_REPO": d + "/repo", "VERIF_SEED": "1"})
        print(f"{i:16} exit={r.returncode} {time.time()-t:5.1f}s {(r.stdout.strip().splitlines() or [r.stderr[-200:]])[-1][:150]}", flush=True)
        known = json.load(open(RES)) if os.path.exists(RES) else {}
        last = (r.stdout.strip().splitlines() or [""])[-1]
        known[i] = "missed" if r.returncode != 1 else last.rsplit("replays/", 1)[-1].split(".json")[0].replace("_", " `", 1) + "`" + (" (no input)" if "no-failing" in last else "")
        json.dump(known, open(RES, "w"), indent=1, sort_keys=True)
        if r.returncode == 1:
            v = [x for x in r.stdout.splitlines() if x.startswith("obligation")]
            print("                 ", (v or [""])[0][:160])
    finally:
        shutil.rmtree(d, ignore_errors=True)

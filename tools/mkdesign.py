"""Writes DESIGN.md: tools/design_head.md, then per property what its contracts are (names and texts from contracts/, results from
the last evidence files), then tools/design_tail.md and the table of planted bugs."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + "/tools/design_head.md").read()]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
NOTE, LEVEL = {}, {}
exec(open(V + "/tools/notes.py").read())
out.append("## 5. Per property: the contracts that decide it\n\n"
           "\"proved\": every path explored, every obligation discharged, no bound. \"bounded\": the same machinery under the bound stated "
           "(never counted as proved). Every contract is also run on the uninstrumented code: path models, and random inputs.\n")
for p in props:
    i = p["id"]
    out.append(f"\n### {i} {p['title']}\n")
    if i in NA:
        out.append(f"Not applicable: {NA[i]}\n")
        continue
    t = ast.parse(open(f"{V}/contracts/{i.lower()}.py").read())
    doc = {n.name: ast.get_docstring(n) for n in t.body if isinstance(n, ast.FunctionDef)}
    c = json.load(open(f"{V}/evidence/{i}.json"))["coverage"]
    for x in c["contracts"]:
        pr = x.get("proof") or x.get("bounded_standin") or {}
        why = x.get("reason_bounded") or "; ".join(b for b in pr.get("bounded_points", []))
        res = "proved" if x["result"] == "proved" else f"bounded: {why}" if why else x["result"]
        out.append(f"- `{x['contract']}` ({res}): {' '.join((doc.get(x['contract']) or '').split())}\n")
    if c["loops_cut_by_invariant"]:
        loops = [l.replace("starlette.", "") for l in c["loops_cut_by_invariant"] if l.startswith("starlette.")]
        if loops:
            out.append(f"- loop invariants: {', '.join('`' + l + '`' for l in loops)}\n")
    if i in NOTE:
        out.append(f"- {NOTE[i].strip()}\n")
out.append("\n" + open(V + "/tools/design_tail.md").read())
out.append("\n## 8. Planted bugs\n\nWritten from the property texts and the code; each is checked by its property's quick command.\n\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n")
res = json.load(open(V + "/tools/bug_results.json")) if os.path.exists(V + "/tools/bug_results.json") else {}
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    out.append(f"| {b} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {res.get(b, '?')} |\n")
open(V + "/DESIGN.md", "w").write("".join(out))

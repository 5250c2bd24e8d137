"""fills DESIGN.md.in with the tables kept elsewhere"""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import manifest_notes as M
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
t = open(root + "/tools/DESIGN.md.in").read()
t = t.replace("@@TABLE@@", "\n".join("| %s | %s | **%s.** %s |" % (p["id"], M.CLAIMED[p["id"]][0], p["title"], M.CLAIMED[p["id"]][1]) for p in props))
k = json.load(open(root + "/known_findings.json"))
t = t.replace("@@FIXED@@", "\n".join("* " + f for f in k["fixed"]))
res = json.load(open(root + "/tools/seed_results.json"))
rows = ["| id | property | needs | outcome |", "|---|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(root + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], res.get(d, "?")))
t = t.replace("@@SEEDS@@", "\n".join(rows))
open(root + "/DESIGN.md", "w").write(t)

"""fill the generated parts of DESIGN.md from tools/design.tpl"""
import json, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(H, "tools", "design.tpl")).read()
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
man = json.load(open(os.path.join(H, "MANIFEST.json")))
ck = {c["property"]: c for c in man["checks"]} if "checks" in man else {}
rows = []
for p in props:
    f = os.path.join(H, "evidence", p["id"] + ".json")
    if not os.path.exists(f): continue
    c = json.load(open(f))["coverage"]
    rows.append("| %s | %s | %d proved + %d bounded | %s |" % (p["id"], json.load(open(f))["level"], c["discharged"], c["bounded_obligations_checked"], c["explanation"].split(": ")[0][:0] or p["title"]))
k = json.load(open(os.path.join(H, "known_findings.json")))
bugs = []
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    bugs.append("* `%s` (%s): %s. Needs: %s." % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")))
fl = os.path.join(H, "tools", "design_fastlens.md")
t = t.replace("@@TABLE@@", "\n".join(rows)).replace("@@FIXED@@", "\n".join("* " + x[7:] for x in k["fixed"])).replace("@@OPEN@@", "\n".join("* %s `%s`: %s" % (x["property"], x["obligation"], x["what"]) for x in k["findings"]))
t = t.replace("@@BUGS@@", "All of these are caught by the check of their own property with exit 1 (`caught` column of the last full vcheck).  Two are\ncaught without a replayable input: `P04-snap`, `P06-warm-order`.\n\n" + "\n".join(bugs)).replace("@@FASTLENS@@", open(fl).read() if os.path.exists(fl) else "")
open(os.path.join(H, "DESIGN.md"), "w").write(t)

"""Single source of properties.jsonl and MANIFEST.json (python3 tools/meta.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/microjax/"
P = []
NA = {}


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), claimed=True, na=None, note=None, level="proof", tech=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech], state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state], observe_at=list(observe), hook_needed=None),
                  _claimed=claimed, _na=na, _note=note, _level=level, _tech=tech))


TECH = "contracts on the real functions; VCs generated from the traced program of /repo on every run; discharged by exact ring normalisation, equivalence sweeping, case split and z3"
exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

if __name__ == "__main__":
    checks, na = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if not k.startswith("_")}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
            if p["_claimed"]:
                checks.append(dict(property=p["id"], quick_cmd="bash check.sh %s" % p["id"], thorough_cmd="bash check.sh %s" % p["id"], technique=p["_tech"] or TECH, level=p["_level"], level_note=p["_note"] or "", evidence_file="evidence/%s.json" % p["id"]))
            else:
                na.append(dict(property=p["id"], reason=p["_na"]))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
             hooks=dict(guard="none", enable="no hooks: the checks trace the unmodified source of /repo", source_commits=[]),
             notes="Each check re-traces /repo's current source; nothing is cached between runs.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not claimed")

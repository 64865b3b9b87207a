import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P, NA
reg = {}
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p["observe"]: d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
        if p["technique"]:
            reg[p["id"]] = dict(rule=p["rule"], level=p["level"], assume=p["assume"])
json.dump(reg, open(os.path.join(root, "checker", "props.json"), "w"), indent=1, ensure_ascii=False)
m = dict(version=1, setup_cmd="bash run.sh build", checks=[], not_applicable=[dict(property=a, reason=b) for a, b in NA])
for p in P:
    if p["technique"]:
        m["checks"].append(dict(property=p["id"], quick_cmd="bash run.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough bash run.sh " + p["id"], technique=p["technique"], level=p["level"], level_note=p["note"]))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
t = open(os.path.join(here, "DESIGN.in.md")).read()
s = ""
for p in P:
    if p["technique"]:
        s += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*How it is decided:* {p['rule']} {p['design']}\n\n*Technique and bounds:* {p['technique']}. {p['note']}\n\n*Assumptions:* {'; '.join(p['assume'])}.\n\n"
n = ""
for p in P:
    if not p["technique"]:
        n += f"- **{p['id']} {p['title']}**: {p['reason']}\n"
cf = os.path.join(here, "catches.md")
c = open(cf).read() if os.path.exists(cf) else ""
k = open(os.path.join(root, "known-findings.txt")).read()
open(os.path.join(root, "DESIGN.md"), "w").write(t.replace("@PROPS@", s).replace("@NA@", n).replace("@CATCHES@", c).replace("@KNOWN@", k))

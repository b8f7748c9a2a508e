import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import props, spec
with open(V+"/properties.jsonl", "w") as f:
    for r in props.RECS: f.write(json.dumps(r, ensure_ascii=False)+"\n")
na = {p: r for p, r in props.NA}
m = dict(version=1, setup_cmd="python3 check.py --setup", hooks=dict(guard="LTTOOLBOX_VERIF", enable="no hooks are needed: the checks compile the unmodified sources", source_commits=[]),
  checks=[dict(property=r["id"], quick_cmd="python3 check.py %s --tier quick" % r["id"], thorough_cmd="python3 check.py %s --tier thorough" % r["id"], technique=props.TECH, level="model_checking", level_note=props.NOTE) for r in props.RECS if r["id"] not in na],
  not_applicable=[dict(property=p, reason=r) for p, r in props.NA], notes="see DESIGN.md; known findings and fixes: known_findings.json")
json.dump(m, open(V+"/MANIFEST.json", "w"), indent=1)
for r in props.RECS:
    assert len(r["title"])<=80, (r["id"], len(r["title"])); assert r["id"] in na or r["id"] in spec.PROPS, r["id"]

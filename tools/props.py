"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "irtorch/models/"
EST = "irtorch/estimation_algorithms/"
R = "irtorch/rescale/"
TM = "irtorch/torch_modules/"
BASE = M + "base_irt_model.py"
EV = "irtorch/evaluator.py"
UT = "irtorch/utils.py"
IU = "irtorch/_internal_utils.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, level_note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "./setup",
    "hooks": {"guard": "none", "enable": "no hooks: the monitors observe the unmodified package through its public interface", "source_commits": []},
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} --tier quick",
            "thorough_cmd": f"./check {p['id']} --tier thorough",
            "technique": "runtime monitoring: oracle over executions of the real code on generated workloads",
            "level": "exploration",
            "level_note": p["note"],
        }
        for p in P
    ],
    "not_applicable": [],
    "notes": "Pure Python package: no native code, so compiler sanitizers do not apply. See DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(manifest, fh, indent=1)
    fh.write("\n")
print(len(P), "properties")

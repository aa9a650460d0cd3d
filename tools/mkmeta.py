"""Writes properties.jsonl and MANIFEST.json from the table below.

run with: python3 tools/mkmeta.py (in /verif)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "extensisq/common.py"
ALLF = ["common", "tsitouras", "bogacki", "cash", "prince", "calvo", "merson",
        "fine", "murua", "mikkawy", "hosea", "kennedy", "kvaerno", "shampine",
        "sommeijer"]
ALLF = [f"extensisq/{n}.py" for n in ALLF]
RKF = [f"extensisq/{n}.py" for n in (
    "common", "tsitouras", "bogacki", "cash", "prince", "calvo", "merson")]
NYSF = [f"extensisq/{n}.py" for n in ("common", "fine", "murua", "mikkawy")]
ESDF = [f"extensisq/{n}.py" for n in ("common", "hosea", "kennedy", "kvaerno")]
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, obs, tech, note):
    PROPS.append(dict(
        p=dict(id=id, title=title, statement=statement,
               quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=dict(
                   files=files,
                   mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=obs, hook_needed=None)),
        m=dict(property=id, quick_cmd=f"./run.sh {id}",
               thorough_cmd=f"./run.sh {id} --tier thorough",
               evidence_file=f"evidence/{id}.json", technique=tech,
               level="exploration", level_note=note)))


exec(open(os.path.join(HERE, "tools", "props.py")).read())

ids = [p["p"]["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
for p in PROPS:
    assert len(p["p"]["title"]) <= 80, p["p"]["title"]
    assert os.path.exists(os.path.join(HERE, "checks",
                                       p["p"]["id"].lower() + ".py"))
PROPS.sort(key=lambda p: p["p"]["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p["p"]) + "\n")
man = dict(
    version=1,
    setup_cmd="./run.sh --setup",
    hooks=dict(guard="EXTENSISQ_VERIF",
               enable="no hooks were needed in /repo: the monitors observe "
               "the public interface (the variable is not read anywhere)",
               source_commits=[]),
    checks=[p["m"] for p in PROPS],
    not_applicable=[],
    notes="All checks run the code in /repo directly (pure Python) with "
    "/opt/venv/bin/python. VERIF_SEED selects the cases. A violation can be "
    "replayed with ./run.sh <ID> --replay <file>.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties")

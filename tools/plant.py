"""Verify and keep a planted bug.

usage: plant.py BUG.py [--keep] [--checks C01,C02]
BUG.py defines id, prop, needs, breaks, edits [(file, old, new)], demo (text
of a python program that exits nonzero if the bug is there).
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/plant_wt_%d" % os.getpid()
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str),
                       capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def main():
    path = sys.argv[1]
    b = {}
    exec(open(path).read(), b)
    keep = "--keep" in sys.argv
    checks = [b["prop"]]
    if "--checks" in sys.argv:
        checks = sys.argv[sys.argv.index("--checks") + 1].split(",")
    shutil.copytree("/repo", WT, symlinks=True)
    try:
        sh("git checkout -q -- . && git clean -fdq extensisq", WT)
        for f, old, new in b["edits"]:
            p = os.path.join(WT, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), "times:", old[:60])
                return 1
            open(p, "w").write(s.replace(old, new))
        _, diff = sh("git diff", WT)
        sd = os.path.join("/tmp", "plant_demo_%d" % os.getpid())
        os.makedirs(sd, exist_ok=True)
        open(sd + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(sd + "/demo.sh", "w").write(
            "#!/bin/bash\n# exit 0: the property holds; nonzero: it doesn't\n"
            'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
            "export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1\n"
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        r0, o0 = sh(["bash", sd + "/demo.sh"], "/repo", timeout=300)
        r1, o1 = sh(["bash", sd + "/demo.sh"], WT, timeout=300)
        print("demo unchanged:", r0, "patched:", r1, o0[-200:], o1[-300:])
        rt, ot = sh(f"PYTHONPATH={WT} {PY} -m pytest -q -p no:cacheprovider "
                    "-n 8 --timeout=120 -W ignore tests", WT)
        failed = [l for l in ot.splitlines() if l.startswith("FAILED")]
        failed = [l for l in failed if
                  "test_integration_sparse_difference[KC4Ia]" not in l]
        print("tests:", ot.strip().splitlines()[-1], failed[:4])
        ok = r0 == 0 and r1 != 0 and not failed
        print(b["id"], "VALID" if ok else "NOT VALID")
        if ok and keep:
            d = os.path.join(HERE, "seeded", b["id"])
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            shutil.copy(sd + "/demo.py", d)
            shutil.copy(sd + "/demo.sh", d)
            with open(d + "/meta.json", "w") as f:
                json.dump(dict(property=b["prop"], needs=b["needs"],
                               what_it_breaks=b["breaks"]), f, indent=1)
                f.write("\n")
        for c in checks:
            rc, oc = sh([HERE + "/run.sh", c], HERE, dict(VERIF_REPO=WT))
            print(f"  {c}: exit {rc}",
                  "CAUGHT" if rc == 1 and f"VIOLATION property={c}" in oc
                  else "missed", "|", oc.strip().splitlines()[0][:300])
        shutil.rmtree(sd)
    finally:
        shutil.rmtree(WT)


main()

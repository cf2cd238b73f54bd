"""Fill the generated parts of DESIGN.md: python3 tools/fill_design.py SWEEP_LOG (a log of plant.sh lines)."""
import json, re, sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
d = (V / "DESIGN.md").read_text()


def put(mark, body):
    global d
    a, b = f"<!-- {mark} -->", f"<!-- /{mark} -->"
    if f"@@{mark}" in d:
        d = d.replace(f"@@{mark}", f"{a}\n{body}\n{b}")
    else:
        i, j = d.index(a), d.index(b)
        d = d[:i] + f"{a}\n{body}\n" + d[j:]


fixed = json.load(open(V / "known_findings.json"))["fixed"]
rows = [re.match(r"fixed: property=(\S+) (\S+) (.*)", f).groups() for f in fixed]
put("FIXES", "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(f"| {p} | {c} | {w} |" for p, c, w in rows))

if len(sys.argv) > 1:
    caught = {}
    for line in open(sys.argv[1]):
        m = re.match(r"(\S+) \[(C\d+)\].*check exit=(\d)", line)
        if m:
            sc = re.search(r"scenario: (\S+)", line)
            caught[m[1]] = (m[2], m[3] == "1", sc[1] if sc else "")
    rows = []
    for f in sorted((V / "seeded").iterdir()):
        meta = json.load(open(f / "meta.json"))
        p, c, s = caught.get(f.name, (meta["property"], None, ""))
        rows.append(f"| {f.name} | {p} | {'caught (' + s + ')' if c else 'missed' if c is False else 'not run'} |")
    put("BUGS", "| bug | property | result |\n|---|---|---|\n" + "\n".join(rows))
(V / "DESIGN.md").write_text(d)

#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the bug descriptions in tools/bugs.py (edits of /repo's files, with a demonstration each)."""
import difflib, json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from bugs import BUGS, PRELUDE

REPO, OUT = "/repo", "/verif/seeded"
BASE = "a1bfa91"


def read(f):
    with open(os.path.join(REPO, f), newline="") as h:
        return h.read()


def own_lines(f):
    """Numbers of the lines of f in HEAD that commits after the base added."""
    d = subprocess.run(["git", "-C", REPO, "diff", "-U0", BASE, "HEAD", "--", f], capture_output=True, text=True).stdout
    own = set()
    for m in re.finditer(r"^@@ -\S+ \+(\d+)(?:,(\d+))? @@", d, re.M):
        a, n = int(m[1]), int(m[2] or 1)
        own |= set(range(a, a + n))
    return own


def main(ids):
    for b in BUGS:
        if ids and b["id"] not in ids:
            continue
        patch, removed, touched_own = "", 0, []
        byfile = {}
        for f, old, new in b["edits"]:
            t = byfile.setdefault(f, read(f))
            crlf = "\r\n" in t
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                sys.exit(f"{b['id']}: {t.count(old)} matches in {f} of {old!r}")
            byfile[f] = t.replace(old, new)
        for f, new in byfile.items():
            old = read(f)
            a, c = old.splitlines(True), new.splitlines(True)
            own = own_lines(f)
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, c, False).get_opcodes():
                if tag in ("replace", "delete"):
                    for i in range(i1, i2):
                        removed += 1
                        if i + 1 in own:
                            touched_own.append(a[i].strip())
            patch += "".join(difflib.unified_diff(a, c, f"a/{f}", f"b/{f}"))
        d = os.path.join(OUT, b["id"])
        os.makedirs(d, exist_ok=True)
        with open(f"{d}/patch.diff", "w", newline="") as h:
            h.write(patch)
        open(f"{d}/demo.py", "w").write(PRELUDE + b["demo"].strip() + "\nprint('as it should be')\n")
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        print(b["id"], "ok" if removed and not touched_own else f"removed={removed} own={touched_own}")


main(sys.argv[1:])

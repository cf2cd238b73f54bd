#!/bin/bash
# Take each repair (known_findings.json, "fixed") back in a scratch copy of /repo and run the property's check on it.
# usage: tools/revert.sh [COMMIT...]
cd "$(dirname "$0")/.." || exit 2
python3 - <<'P' > /tmp/revert.list
import json, re
for f in json.load(open("known_findings.json"))["fixed"]:
    print(*re.match(r"fixed: property=(\S+) (\S+)", f).groups())
P
while read -r prop commit; do
  if [ $# -gt 0 ] && ! grep -qw "$commit" <<< "$*"; then continue; fi
  d=/tmp/revert-copy
  rm -rf /tmp/revert-copy; cp -a /repo "$d"
  if ! git -C "$d" revert -n "$commit" > /dev/null 2>&1; then
    git -C "$d" diff --name-only --diff-filter=U | tr '\n' ' ' > /tmp/revert.conf
    echo "$commit [$prop] conflict in $(cat /tmp/revert.conf)"; continue
  fi
  SX_REPO="$d" ./check.sh "$prop" --no-evidence > /tmp/revert.out 2>&1; rc=$?
  echo "$commit [$prop] exit=$rc $(grep -m1 'scenario:' /tmp/revert.out) $(grep -o 'wall=.*' /tmp/revert.out)"
done < /tmp/revert.list
rm -rf /tmp/revert-copy /tmp/revert.list /tmp/revert.out /tmp/revert.conf

#!/bin/bash
# trybugs.sh [ID...]: runs every check against each seeded bug, in scratch copies; prints which checks catch it.
cd "$(dirname "$0")/.."; bash setup.sh || exit 2
all=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")
for b in ${@:-$(ls seeded)}; do
  s=/tmp/try/$b; rm -rf "$s"; mkdir -p /tmp/try/ev; cp -a /repo "$s"; git -C "$s" checkout -q -- .
  git -C "$s" apply "$PWD/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  want=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  cp known_findings.txt /tmp/try/ev/ 2>/dev/null
  got=$(VERIF_REPO="$s" VERIF_DIR=/tmp/try/ev bin/vt check ${CHECKS:-$all} | grep '^VIOLATION' | sed 's/.*property=\(C[0-9]*\).*/\1/' | tr '\n' ' ')
  case " $got " in *" $want "*) r=caught;; *) r=MISSED;; esac
  echo "$b $want $r: $got" | tee -a /tmp/try/res; rm -rf "$s"
done

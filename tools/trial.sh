#!/bin/bash
# tools/trial.sh SEED [PROP...]: run checks on a scratch copy of /repo with the
# planted bug applied (checks read VERIF_REPO only for this).
id=$1; shift; S=/verif/seeded/$id
W=$(mktemp -d /tmp/trialXXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo" || exit 1; git checkout -q -- .
git apply "$S/patch.diff" || exit 1
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cp -a /verif "$W/verif"
for p in $props; do
  echo "== $id $p"; (cd "$W/verif" && VERIF_REPO="$W/repo" python3 check.py $p; echo "exit $?") 2>&1 | grep -v '^ok' | cut -c1-300 | tail -${TAIL:-12}
done

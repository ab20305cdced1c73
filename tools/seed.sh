#!/bin/bash
# seed.sh ID [PROPERTY...]: in a scratch copy of /repo, applies seeded/ID/patch.diff, builds, runs the tests and the
# demonstration with and without it, then the quick checks of the named properties (default: the one in meta.json).
id=$1; shift
d=/verif/seeded/$id
w=$(mktemp -d /tmp/seed-XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; mkdir "$w/demo"
for f in "$d"/*; do case "$f" in *.diff|*/meta.json) ;; *) cp "$f" "$w/demo/";; esac; done
. /opt/vp/env.sh >/dev/null 2>&1
cd "$w/repo"
(bash "$w/demo/demo.sh" >"$w/o0" 2>&1); a=$?
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
go build ./... || { echo "$id: does not build"; exit 2; }
t=$(go test ./... 2>&1 | grep -E "^(---|FAIL|panic)" | head -5)
(bash "$w/demo/demo.sh" >"$w/o1" 2>&1); b=$?
echo "$id: demo clean=$a patched=$b tests=${t:-pass}"
[ $a = 0 ] || tail -5 "$w/o0"
[ $b != 0 ] || tail -5 "$w/o1"
[ "$NOCHECK" ] && exit
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for p in "$@"; do
  r=$(VERIF_SCRATCH_REPO=$w/repo VERIF_EVIDENCE=$w/ev VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 /verif/checks/run.py $p 2>&1); rc=$?
  echo "  $p exit=$rc $(echo "$r" | grep -c ^VIOLATION) violations: $(echo "$r" | head -${LINES_:-1} | cut -c1-${COLS_:-150})"
done

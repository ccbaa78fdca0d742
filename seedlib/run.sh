#!/bin/bash
# run.sh ID...: runs the check of each planted bug's property against a copy of
# /repo with the bug. PROP overrides the property, DST_ARGS adds arguments.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=$V/seeded/$id; R=/tmp/sr-$id; B=/tmp/sb-$id
  rm -rf "$R" "$B"; cp -a /repo "$R"
  git -C "$R" apply "$S/patch.diff" || { echo "$id: does not apply"; continue; }
  prop=${PROP:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
  mkdir -p "$B/out"
  if REPO=$R OUT=$B bash "$V/dst/build.sh" > "$B/log" 2>&1; then
    t=$(date +%s)
    "$B/bin/dst" check -prop $prop -tier quick -seed ${VERIF_SEED:-1} -evidence "$B/ev.json" -out "$B/out" -known "$V/known-findings.txt" $DST_ARGS > "$B/log" 2>&1
    rc=$?
    echo "$id $prop rc=$rc $(( $(date +%s) - t ))s $(grep -c '^VIOLATION' "$B/log") violation(s): $(grep -A3 '^VIOLATION' "$B/log" | tr '\n' ' ' | cut -c1-420)"
    [ $rc = 1 ] || tail -3 "$B/log"
    mkdir -p /tmp/seedout/$id; cp -r "$B/out" "$B/log" /tmp/seedout/$id/ 
  else echo "$id: simulator does not build"; tail -5 "$B/log"; fi
  rm -rf "$R" "$B"
done

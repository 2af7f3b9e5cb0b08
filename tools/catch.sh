#!/bin/bash
# catch.sh ID... : which checks report which planted bugs (analysing a scratch copy, not /repo)
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/catch.$id; rm -rf "$w"; cp -a /repo "$w"; git -C "$w" apply "$d/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  mkdir -p /tmp/catchv.$id; cp /verif/KNOWN_FINDINGS /tmp/catchv.$id/
  for q in $p; do
  VERIF_REPO=$w VERIF_DIR=/tmp/catchv.$id timeout 900 /verif/bin/checker $q quick > /tmp/catchv.$id/out.$q 2>&1; rc=$?
  echo "$id $q rc=$rc $(grep -c '^\[' /tmp/catchv.$id/out.$q) $(grep -m1 '^\[' /tmp/catchv.$id/out.$q | cut -c1-220)"; done
  rm -rf "$w"
done

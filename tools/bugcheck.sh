#!/bin/bash
# bugcheck.sh ID...: run the property's check against a scratch copy of /repo with the planted bug applied
cd /verif/engine && . /opt/vp/env.sh && go build -o /tmp/vcgo . || exit 1
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/bugXXXXXX); cp -a /repo $w/repo; git -C $w/repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; rm -rf "$w"; continue; }
  s=$(date +%s)
  VC_EVIDENCE=$w VC_REPO=$w/repo VC_DIR=/verif timeout 900 /tmp/vcgo check -prop $p -tier quick > $w/out 2>&1; rc=$?
  echo "$id ($p): exit $rc, $(( $(date +%s)-s )) s: $(grep -E '^VIOLATION|^UNDECIDED' $w/out | head -3 | tr '\n' ';')"
  [ -n "$V" ] && cat $w/out
  rm -rf "$w"
done

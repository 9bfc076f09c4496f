#!/bin/bash
# seedcheck.sh ID...: run the property's check against a copy of /repo with the planted change
for id in "$@"; do
  d=$(mktemp -d /tmp/sc.XXXX); cp -a /repo/. $d/; git -C $d apply /verif/seeded/$id/patch.diff || echo "$id NO APPLY"
  chmod -R a+rX $d
  out=$(cd /verif && VP_REPO=$d python3-vt run.py ${id%%-*} 2>&1); rc=$?
  echo "$id rc=$rc $(echo "$out" | grep -E 'VIOLATION|UNDECIDED|FAILED' | head -4 | cut -c1-220 | tr '\n' '~')"
  rm -rf "$d"
done

#!/bin/bash
# seedrun.sh [-a CHECK] ID...: does the check of its property (or CHECK) report the planted change?
S=${SEEDREPO:-/tmp/m/seedrepo}
[ -d "$S" ] || git clone -q /repo "$S"
[ -n "$NOFETCH" ] || git -C "$S" fetch -q /repo && [ -n "$NOFETCH" ] || git -C "$S" reset -q --hard FETCH_HEAD; git -C "$S" clean -qfd
alt=; if [ "$1" = -a ]; then alt=$2; shift 2; fi
for id in "$@"; do
  d=/verif/seeded/$id
  p=${alt:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C "$S" apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  t0=$(date +%s)
  out=$(cd /verif; VERIF_REPO=$S timeout 880 bin/check $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-t0))s $(echo "$out" | grep -m1 '^#' | cut -c1-160)"
  git -C "$S" checkout -q -- . ; git -C "$S" clean -qfd
done

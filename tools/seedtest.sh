#!/bin/bash
# seedtest.sh ID...: confirms planted changes in a scratch copy of /repo:
# the patch applies, builds, the stable tests pass, the demonstration passes
# without it and fails with it.  Uses $SEEDREPO (default /tmp/m/seedrepo).
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
S=${SEEDREPO:-/tmp/m/seedrepo}
[ -d "$S" ] || git clone -q /repo "$S"
{ [ -n "$NOFETCH" ] || { git -C "$S" fetch -q /repo && git -C "$S" reset -q --hard FETCH_HEAD; }; } && git -C "$S" clean -qfd
for id in "$@"; do
  d=/verif/seeded/$id
  cd "$S" || exit 1
  timeout 300 bash "$d/demo.sh" >/tmp/m/seed/$id.clean 2>&1; a=$?
  if ! git apply "$d/patch.diff"; then echo "$id: DOES NOT APPLY"; continue; fi
  go build ./... >/tmp/m/seed/$id.build 2>&1; b=$?
  go vet ./... >/dev/null 2>&1
  t=0; for i in 1 2; do go test -vet=off -count=1 -timeout 10m $(go list ./... | grep -v cmd) >/tmp/m/seed/$id.test 2>&1 || t=1; done
  rm -rf "$S"/dupi[0-9]* "$S"/lock/test.lock[0-9]*
  timeout 300 bash "$d/demo.sh" >/tmp/m/seed/$id.mut 2>&1; c=$?
  git checkout -q -- . && git clean -qfd
  ok=BAD; [ $a = 0 ] && [ $b = 0 ] && [ $t = 0 ] && [ $c != 0 ] && ok=ok
  echo "$id: $ok clean=$a build=$b tests=$t mutated=$c ($(tail -1 /tmp/m/seed/$id.mut | cut -c1-150))"
done

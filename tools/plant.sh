#!/bin/bash
# plant.sh ID...: confirms planted changes in a scratch copy of /repo: applies, builds, the stable tests pass, the
# demonstration fails with the change and passes without it.
V=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:$PATH GOENV=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOCACHE=$V/.cache/gocache-plant CGO_ENABLED=1
[ -d "$GOCACHE" ] || cp -a /opt/vp/gocache "$GOCACHE"
s=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$s"' EXIT
cp -a /repo "$s/repo"; cd "$s/repo" || exit 2
git checkout -q -- .
rc=0
for id in "$@"; do
  d=$V/seeded/$id
  cp -r "$d" "$s/demo"; rm -f "$s/demo/patch.diff" "$s/demo/meta.json"
  st=ok
  bash "$s/demo/demo.sh" >"$s/log" 2>&1 || { st="demo fails on the unchanged tree"; tail -20 "$s/log"; }
  if git apply "$d/patch.diff"; then
    if go build ./... >"$s/log" 2>&1; then
      go test -vet=off -count=1 ./internal/triplestore/... ./pkg/... >"$s/log" 2>&1 || { st="tests fail: $(grep -- '--- FAIL' "$s/log" | head -3)"; }
      timeout 300 bash "$s/demo/demo.sh" >"$s/log" 2>&1 && st="demo passes with the change"
      [ -n "${SHOW:-}" ] && tail -5 "$s/log"
    else st="does not build"; cat "$s/log"; fi
  else st="does not apply"; fi
  git checkout -q -- .
  rm -rf "$s/demo"
  echo "$id: $st"; [ "$st" = ok ] || rc=1
done
exit $rc

#!/bin/bash
# usage: run.sh PROPERTY quick|thorough | run.sh PROPERTY replay CASE
ROOT=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
export VERIF_ROOT=$ROOT VERIF_SEED=${VERIF_SEED:-1}
id=$1
case "$2" in
  thorough) export VERIF_TIER=thorough ;;
  quick) export VERIF_TIER=quick ;;
  *) export VERIF_TIER=${VERIF_TIER:-quick} ;;
esac
area=$(awk -v id="$id" '$1==id{print $2}' "$ROOT/tools/areas.txt")
[ -n "$area" ] || { echo "unknown property $id" >&2; exit 3; }
tmp=$(mktemp -d /tmp/verif-run-XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
# Another zone than UTC, with days of 23 and 25 hours and no midnight on some.
case "$area" in fat|concurrency) export TZ=America/Havana;; esac
race=; [ "$area" = concurrency ] && race=-race
cd "$ROOT/harness" || exit 3
# Where the hooks do not fit the tree (renamed internals), do without them.
go build -buildvcs=false -tags verif $race -o "$tmp/bin" "./cmd/$area" ||
  go build -buildvcs=false -tags verifmin $race -o "$tmp/bin" "./cmd/$area" ||
  { echo "build of the check failed" >&2; exit 3; }
extra=(); [ "$2" = replay ] && extra=(-replay "$3")
"$tmp/bin" -prop "$id" "${extra[@]}"
exit $?

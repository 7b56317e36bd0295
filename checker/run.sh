#!/bin/bash
# Usage: run.sh <property id>. Builds the checker if needed and decides one property.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
[ -n "$VERIF_GOCACHE" ] && export GOCACHE=$VERIF_GOCACHE
bin=$here/bin/driplint
need=1
if [ -x "$bin" ]; then
  need=0
  for f in "$here"/*.go "$here"/go.mod; do [ "$f" -nt "$bin" ] && need=1; done
fi
if [ $need = 1 ]; then
  mkdir -p "$here/bin"
  tmp=$here/bin/driplint.$$
  (cd "$here" && go build -mod=vendor -o "$tmp" .) || { echo "VIOLATION property=$1 replay=$here/run.sh (checker does not build)"; exit 2; }
  mv -f "$tmp" "$bin"
fi
[ "$1" = build ] && exit 0
exec "$bin" check "$1" "$(dirname "$here")"

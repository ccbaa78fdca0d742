#!/bin/bash
# Runs in the repository's root. Builds om-core from the working tree and the
# demonstration beside this file, and runs the one against the other. Every
# file is written in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GO111MODULE=on HOME="${HOME:-/root}"
sed -E "s#^([[:space:]]*(use[[:space:]]+)?)\./#\1$R/#" "$R/go.work" > "$T/go.work" || exit 2
[ -f "$R/go.work.sum" ] && cp "$R/go.work.sum" "$T/go.work.sum"
grep -q functions/golang/teamshooter "$T/go.work" || echo "use $R/functions/golang/teamshooter" >> "$T/go.work"
export GOWORK="$T/go.work"
{
  echo '{"Replace": {'
  sep=
  for f in "$D"/*.go; do
    echo "$sep\"$R/PKGDIR/zzdemo/$(basename "$f")\": \"$f\""
    sep=,
  done
  echo '}}'
} > "$T/overlay.json"
(cd "$R/core" && go build -o "$T/core" .) || { echo "om-core does not build"; exit 2; }
[ PKGDIR != matchmaker-example ] || (cd "$R/PKGDIR" && go build -o "$T/example" .) || { echo "the example does not build"; exit 2; }
(cd "$R/PKGDIR" && go build -overlay "$T/overlay.json" -o "$T/demo" ./zzdemo) || { echo "the demonstration does not build"; exit 2; }
cd "$T" && mkdir s && DEMO_CORE="$T/core" DEMO_EXAMPLE="$T/example" DEMO_DIR="$T/s" timeout 240 "$T/demo"
rc=$?
echo "exit $rc"
exit $rc

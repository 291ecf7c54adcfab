#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=
command -v go >/dev/null || export PATH="$PATH:/usr/local/bin:/opt/veriftools/go1.27.3/bin"
export VERIF_SEED="${VERIF_SEED:-1}"
tier="${2:-${VERIF_TIER:-quick}}"
mkdir -p "$here/bin"
if ! (cd "$here/gover" && go build -o "$here/bin/gover" .) ; then
  echo "cannot build the verifier"; exit 3
fi
exec "$here/bin/gover" check -prop "$1" -tier "$tier" -repo "${VERIF_REPO:-/repo}" -verif "$here"

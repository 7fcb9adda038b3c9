#!/bin/bash
# check.sh ID quick|thorough   - decide one property on /repo's working tree
# check.sh ID replay FILE      - replay a recorded violation
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; what=$2
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off VERIF_DIR=$here
export HOME=${HOME:-/root} CGO_ENABLED=0
umask 022
base=/dev/shm; [ -w "$base" ] || base=/tmp
scratch=$(mktemp -d "$base/verif-$id.XXXXXX") || exit 3
chmod 755 "$scratch"
trap 'chmod -R u+rwx "$scratch" 2>/dev/null; rm -rf "$scratch"' EXIT
low=$(echo "$id" | tr A-Z a-z)
mkdir -p "$scratch/bin" "$here/evidence"
prog=$scratch/bin/$low-check
if ! (cd "$here/mc" && { [ ! -x ./$low/prebuild.sh ] || ./$low/prebuild.sh "$scratch"; } && go build $(cat "$scratch/buildflags" 2>/dev/null) -o "$prog" ./$low); then
  echo "cannot build the check $id against /repo" >&2
  exit 3
fi
if [ "$what" = replay ]; then
  "$prog" replay "$3" "$scratch"
else
  "$prog" run "$what" "$scratch"
fi

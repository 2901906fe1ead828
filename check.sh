#!/bin/bash
# check.sh PROPERTY: decides one property for /repo's current tree.
d="$(cd "$(dirname "$0")" && pwd)"
export GOVER_VERIF="$d"
if [ ! -x "$d/bin/gover" ] || [ -n "$(find "$d/gover" -newer "$d/bin/gover" -name '*.go' 2>/dev/null | head -1)" ]; then
  bash "$d/setup.sh" || { echo "cannot build the verifier"; exit 2; }
fi
cd "$d"
exec "$d/bin/gover" check "$@"

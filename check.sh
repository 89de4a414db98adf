#!/bin/bash
# check.sh ID [quick|thorough]: decides one property from /repo's current source.
D="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$D" VERIF_REPO="${VERIF_REPO:-/repo}" HOME="${HOME:-/root}"
if [ ! -x "$D/bin/vt" ] || [ -n "$(find "$D/tool" -name '*.go' -newer "$D/bin/vt" -not -path '*/vendor/*' -print -quit)" ]; then
  "$D/setup.sh" || { echo "VIOLATION property=$1 replay=$D/setup.sh"; exit 1; }
fi
"$D/bin/vt" check "$1" "${2:-quick}"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "VIOLATION property=$1 replay=$D/check.sh"
  exit 1
fi
exit $rc

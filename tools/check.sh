#!/bin/bash
# check.sh PROPERTY: decides one property of the tree in /repo.
here="$(cd "$(dirname "$0")/.." && pwd)"
if [ ! -x "$here/bin/checker" ] || [ -n "$(find "$here/checker" -newer "$here/bin/checker" -name '*.go' -print -quit)" ]; then
  bash "$here/tools/setup.sh" || exit 2
fi
exec "$here/bin/checker" -repo /repo -verif "$here" -property "$1"

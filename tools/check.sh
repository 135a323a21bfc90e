#!/bin/bash
# check.sh <property>: decides one property of /repo's current source.
cd "$(dirname "$0")/.." || exit 3
. tools/goenv.sh
if [ ! -x build/verifcheck ] || [ -n "$(find checker -name '*.go' -newer build/verifcheck -print -quit)" ]; then
  bash tools/setup.sh >&2 || exit 3
fi
exec build/verifcheck "$@"

#!/bin/bash
# Builds the checker from the committed sources, offline.
set -e
cd "$(dirname "$0")/.."
. tools/goenv.sh
mkdir -p build
(cd checker && go build -trimpath -o ../build/verifcheck.tmp.$$ . && mv ../build/verifcheck.tmp.$$ ../build/verifcheck)

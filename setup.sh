#!/bin/bash
# Builds the harness once, which also warms the build cache. Checks build again from /repo's current tree.
ROOT=$(cd "$(dirname "$0")" && pwd)
cd "$ROOT" || exit 1
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export CGO_ENABLED=1 GOFLAGS=-mod=mod
mkdir -p .build
(cd harness && go build -tags verif -o ../.build/vh . && go build -tags verif -race -o ../.build/vh-race .) &&
(cd /repo && go build -tags verif -o "$ROOT/.build/kagome" . && go build -tags verif -race -o "$ROOT/.build/kagome-race" .)
# the other platforms of C22 and C23; it is for those checks to say whether they work
for id in C22 C23; do VH_SETUP=1 bash check.sh $id || true; done

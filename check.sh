#!/bin/bash
# usage: check.sh ID [quick|thorough]   (or VERIF_TIER); exit 0 held, 1 violation, 2 no answer
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=${1:?usage: check.sh ID [tier]}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export CGO_ENABLED=1 GOFLAGS=-mod=mod
export VH_ROOT=$ROOT VH_BIN=$ROOT/.build
mkdir -p "$VH_BIN"
cd "$ROOT/harness" || exit 2
TAGS=verif
build() { # output, flags...
    local out=$1; shift
    go build -tags "$TAGS" "$@" -o "$VH_BIN/$out" . 2>"$VH_BIN/$out.log" || { cat "$VH_BIN/$out.log" >&2; echo "build failed: $out" >&2; exit 2; }
}
kagome() { # output, flags...
    local out=$1; shift
    (cd /repo && go build -tags "$TAGS" "$@" -o "$VH_BIN/$out" . 2>"$VH_BIN/$out.log") || { cat "$VH_BIN/$out.log" >&2; echo "build failed: $out" >&2; exit 2; }
}
build vh
case $ID in C06|C20) build vh-race -race ;; esac
case $ID in C15|C16|C18|C19|C21|C22|C24|C25|C26) kagome kagome ;; esac
case $ID in C16) kagome kagome-race -race ;; esac
if [ "$ID" = C22 ]; then # the code on other platforms; that it does not compile there is for the check to judge
    PLAT="conf.go core.go gen.go synth.go model.go c12.go dot.go plat.go plat_main.go"
    rm -f "$VH_BIN"/*.386 "$VH_BIN"/*.wasm
    other() { # extension, variables...
        local ext=$1; shift
        env "$@" CGO_ENABLED=0 go build -o "$VH_BIN/hello.$ext" hello.go
        env "$@" CGO_ENABLED=0 go build -o "$VH_BIN/plat.$ext" $PLAT 2>"$VH_BIN/plat.$ext.log"
    }
    CGO_ENABLED=0 go build -o "$VH_BIN/plat.native" $PLAT || exit 2
    other 386 GOOS=linux GOARCH=386
    other wasm GOOS=js GOARCH=wasm
    (cd /repo && GOARCH=386 CGO_ENABLED=0 go build -tags "$TAGS" -o "$VH_BIN/kagome.386" . 2>"$VH_BIN/kagome.386.log")
fi
if [ "$ID" = C23 ]; then # the example has a module of its own
    rm -f "$VH_BIN/example.wasm"
    { echo "module kagome/examples/wasm"; sed -n '/^module/d; p' /repo/go.mod # with the dictionaries that are here
      echo "require github.com/ikawaha/kagome/v2 v2.0.0"; echo "replace github.com/ikawaha/kagome/v2 => /repo"; } >"$VH_BIN/example.mod"
    cp /repo/go.sum "$VH_BIN/example.sum"
    (cd /repo/_examples/wasm && GOWORK=off GOOS=js GOARCH=wasm CGO_ENABLED=0 go build -modfile "$VH_BIN/example.mod" -o "$VH_BIN/example.wasm" . 2>"$VH_BIN/example.wasm.log")
fi
[ -n "${VH_SETUP:-}" ] && exit 0
exec "$VH_BIN/vh" "$ID"

#!/bin/bash
# builds the deductive engine from the committed sources
cd "$(dirname "$0")" && . /opt/vp/env.sh
mkdir -p evidence replays
[ -f engine/go.mod ] || exit 0
mkdir -p engine/bin
cd engine && GOFLAGS=-mod=mod GOPROXY=off go build -o bin/vcg . 

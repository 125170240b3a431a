#!/bin/bash
# builds the static checker (offline; needs golang.org/x/tools from the module cache)
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here/checker" && mkdir -p bin
PATH=/opt/veriftools/go1.26.10/bin:$PATH GOFLAGS=-mod=mod GOTOOLCHAIN=local go build -o bin/checker.$$ . && mv bin/checker.$$ bin/checker

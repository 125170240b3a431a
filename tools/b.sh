#!/bin/bash
# developer helper: rebuild the checker and run the given properties
. /opt/vp/env.sh
cd /verif/checker && PATH=/opt/veriftools/go1.26.10/bin:$PATH go build -o bin/checker . || exit 1
for p in "$@"; do ./bin/checker -prop $p | cut -c1-${W:-400}; done

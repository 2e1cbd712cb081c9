#!/bin/bash
# development: run.sh PROP [args]
p=$1; shift
D=${LRH:-/tmp/lrh-target}
${LRSYM:-/tmp/eng-target/release/lrsym} --ll $D/h.ll --native $D/release/lrh --prop $p "$@"

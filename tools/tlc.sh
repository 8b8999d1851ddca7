#!/bin/bash
# TLC with a private metadata folder: tlc.sh <metadir> <module> [options]
meta=$1; mod=$2; shift 2
cd "$(dirname "$0")/../spec" || exit 2
mkdir -p "$meta/tmp"
exec java -Xmx${TLC_HEAP:-3g} -Djava.io.tmpdir="$meta/tmp" -XX:+UseParallelGC -XX:ParallelGCThreads=2 -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -metadir "$meta" -noGenerateSpecTE "$@" "$mod"

#!/bin/bash
# Build the harness against the library and make sure TLC starts.
set -e
root=$(cd "$(dirname "$0")/.." && pwd)
bash "$root/tools/cargo.sh" build --offline --locked -q
bash "$root/tools/tlc.sh" "$root/work/setup" MC_Fx -config MC_Fx.cfg -workers 2
rm -rf "$root/work/setup"

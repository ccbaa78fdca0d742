#!/bin/bash
# Builds the framework offline and warms the build cache.
set -e
cd "$(dirname "$0")"
bash dst/build.sh
.build/bin/dst trace -prop C01 -seed 1 | tail -1
echo ready

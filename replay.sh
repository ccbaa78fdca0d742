#!/bin/bash
# replay.sh [-v] FILE: rebuilds from /repo's working tree and executes a replay
# file. Exit 1: it shows the violation; 0: it does not.
cd "$(dirname "$0")" || exit 3
bash dst/build.sh || exit 3
exec .build/bin/dst replay "$@"

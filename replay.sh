#!/bin/bash
# replay.sh PLAN: replays a plan against /repo's working tree (exit 0: held, 1: violated)
H="$(cd "$(dirname "$0")" && pwd)"
python3 - "$H" "$1" <<'P'
import sys,subprocess
sys.path.insert(0,sys.argv[1]); import check
prop=open(sys.argv[2]).readline().split()[1]
exe=check.build(check.variant(prop))
sys.exit(subprocess.run([exe,"replay","--plan",sys.argv[2],"--trace","1"]).returncode)
P

#!/bin/bash
# replay.sh HARNESS REPLAY.json: run the harness natively on a reported counterexample
set -e
here=$(cd "$(dirname "$0")" && pwd)
python3 - "$here" "$1" "$2" <<'P'
import sys, json, tempfile
sys.path.insert(0, sys.argv[1])
import ir, check
b = ir.build_native()
with tempfile.TemporaryDirectory() as d:
    print(json.dumps(check.replay(b, sys.argv[2], json.load(open(sys.argv[3]))["values"], d), indent=1))
P

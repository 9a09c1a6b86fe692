#!/bin/bash
# replay.sh FILE: runs the failing input of a violation against /repo's code
. "$(dirname "$0")/env.sh"
F=$(realpath "$1")
python3 - "$F" > "$F.input" <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
if 'input' not in d: sys.exit('no failing input was found; failed obligations: %s' % [o['obligation'] for o in d['failed_obligations']])
print(json.dumps(d['input']))
P
cd /verif/harness && cargo build --offline -q || exit 2
$CARGO_TARGET_DIR/debug/vharness replay "$F.input"
R=$?
[ $R -ge 128 ] && echo "REPRODUCED: the process dies (exit $R)"
exit $R

#!/bin/bash
# trybug.sh SEED CHECK...  : apply a planted bug to a private copy of /repo and run checks
[ "$ISO" ] || { ISO=1 exec /verif/tools/iso.sh "$0" "$@"; }
S=$1; shift
git -C /repo apply /verif/seeded/$S/patch.diff || exit 1
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('/verif/seeded/$S/meta.json'))['property'])")
for c in "$@"; do VERIF_TIER=quick VERIF_SEED=1 /verif/bin/check $c 2>&1 | grep -E "VIOLATION|violations=|check error" | head -3 | cut -c1-200 | sed "s/^/$S $c: /"; done

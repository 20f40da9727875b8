#!/bin/bash
# dbg.sh <replay.json> [plain|san] [gdb]: run one shard in the foreground, printing what it writes.
python3 - "$1" "${2:-}" <<'P'
import json,sys,os
sys.path.insert(0,'/verif/lib'); import vlib
d=json.load(open(sys.argv[1])); fl=sys.argv[2] or d["shard"]["flavour"]
b=vlib.build(fl)
os.makedirs('/tmp/dbg/s',exist_ok=True)
json.dump({"out":"/tmp/dbg/out","beat":"/tmp/dbg/beat","seed":d["seed"],"tier":d["tier"],"args":d["shard"]["args"],"scratch":"/tmp/dbg/s","build":b,"flavour":fl,"idx":d["idx"]},open('/tmp/dbg/cfg','w'))
open('/tmp/dbg/env','w').write('export PYTHONPATH=%s/:/verif/lib\nW=/verif/workers/%s.py\nASAN=%s\n'%(b,d["shard"]["worker"],vlib._libasan() if fl=='san' else ''))
P
rm -f /tmp/dbg/out
. /tmp/dbg/env
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
cd /tmp/dbg/s
if [ "$3" = gdb ]; then exec gdb -batch -ex run -ex 'bt 25' --args /opt/venv/bin/python -X faulthandler $W /tmp/dbg/cfg; fi
if [ -n "$ASAN" ]; then export LD_PRELOAD=$ASAN PYTHONMALLOC=malloc ASAN_OPTIONS=detect_leaks=0; fi
/opt/venv/bin/python -X faulthandler $W /tmp/dbg/cfg; echo rc=$?; cut -c1-2000 /tmp/dbg/out

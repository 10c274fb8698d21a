#!/bin/bash
# replay.sh FILE : re-runs the recorded inputs of a violation on the real code
V=$(cd "$(dirname "$0")/.." && pwd)
python3 - "$1" "$V" <<'P'
import json,sys,subprocess
d=json.load(open(sys.argv[1])); b=sys.argv[2]+'/.build/nat'+('-avx' if d['tag']=='avx' else '')+'/native/vpnative'
f=lambda x: x if isinstance(x,str) else repr(float(x))
sys.exit(subprocess.run([b,'replay',d['contract'],','.join(f(x) for x in d['inputs']),','.join(map(str,d['cases']))]).returncode)
P

#!/usr/bin/env python3
"""Self-test of the verifier (developer tool, not a check): contracts about std features that are true must be discharged or left open and
agree with the machine on every path; false ones must never be discharged.  Builds into a scratch directory that it removes."""
import os, sys, json, subprocess, tempfile, shutil, glob, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import check
def main():
    d = tempfile.mkdtemp(prefix='vpself'); env = check.cargo_env(False)
    try:
        eng = check.build_engine(); subprocess.run(['python3', V + '/contracts/gen_all.py'], check=True)
        subprocess.run(['cargo', 'rustc', '--offline', '--features', 'selftest', '--lib', '--crate-type', 'staticlib', '--target-dir', d + '/ir', '--', '--emit=llvm-ir', '-C', 'no-prepopulate-passes'], cwd=V + '/contracts', env=env, check=True, capture_output=True)
        subprocess.run(['cargo', 'build', '--offline', '--features', 'selftest', '--profile', 'native', '--bin', 'vpnative', '--target-dir', d + '/nat'], cwd=V + '/contracts', env=env, check=True, capture_output=True)
        rx = re.compile(r', ![a-z.A-Z]* ![0-9]+'); ir = d + '/s.ll'
        open(ir, 'w').writelines(rx.sub('', l) for l in open(sorted(glob.glob(d + '/ir/debug/deps/vpc-*.ll'))[-1]) if l[0] != '!')
        nat = d + '/nat/native/vpnative'
        names = [n for n in subprocess.run([nat, 'list'], capture_output=True, text=True).stdout.split() if n[:3] in ('zz_', 'zn_')]
        def one(n):
            r = check.engine(eng, ir, n, 60, 3); c = check.conform(nat, n, r.get('conf')); a, b, u = (sum(v[i] for v in r['labels'].values()) for i in range(3)); un = r['unsupported'][:1]
            if n[:3] == 'zz_': ok = b == 0 and c['differ'] == 0 and not un
            else: ok = b + u > 0 or bool(un)
            return n, ok, f'{a} discharged {b} refuted {u} open; {c["paths"]} paths re-executed, {c["differ"]} differ {un} {c["examples"][:1]}'
        bad = 0
        with ThreadPoolExecutor(6) as ex:
            for n, ok, t in ex.map(one, names): print('ok  ' if ok else 'FAIL', n, t[:200]); bad += not ok
        print(len(names), 'self-tests,', bad, 'failed'); return 1 if bad else 0
    finally: shutil.rmtree(d, ignore_errors=True)
sys.exit(main())

#!/usr/bin/env python3
"""check.py PROPERTY  - decides one property on /repo's current working tree.

1. rebuilds the contract crate together with /repo's crate: LLVM IR for the verifier, native code for replays
   (for the AVX properties a second time with +avx,+avx2,+fma)
2. native lane: runs every contract of the property on concrete inputs (bounded; finds failing inputs)
3. proof lane: vpengine discharges every obligation of every contract over the IR
4. kani lane (where the property has Kani harnesses): bit-precise proofs of the same contracts
5. replays each refutation on the native code, prints VIOLATION / KNOWN-FINDING lines, writes evidence/<id>.json
"""
import tempfile, sys, os, json, subprocess, time, hashlib, glob, fcntl, shutil, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = V + '/.build'
REPO = '/repo'
AVXF = '-C target-feature=+avx,+avx2,+fma'
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THO = TIER == 'thorough'

def log(*a): print(*a, flush=True)
def run(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=cwd, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'

# ------------------------------------------------------------------ build
def tree_hash():
    h = hashlib.sha256()
    fs = []
    for root in (REPO + '/src', V + '/contracts/src'):
        for d, _, f in os.walk(root): fs += [os.path.join(d, x) for x in f]
    fs += [REPO + '/Cargo.toml', V + '/contracts/Cargo.toml', V + '/contracts/Cargo.lock']
    for f in sorted(fs):
        if os.path.exists(f): h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()

class BuildError(Exception): pass

def cargo_env(avx):
    e = dict(os.environ); e['CARGO_NET_OFFLINE'] = 'true'; e.pop('RUSTFLAGS', None); e.pop('CARGO_BUILD_TARGET', None); e.pop('CARGO_TARGET_DIR', None); e.pop('CARGO_ENCODED_RUSTFLAGS', None)
    if avx: e['RUSTFLAGS'] = AVXF
    return e

def forget(target):
    """drop cargo's record of the crates under verification, so that they are rebuilt whatever the file times say"""
    for d in glob.glob(target + '/*/.fingerprint/colorspace-*') + glob.glob(target + '/*/.fingerprint/vpc-*'): shutil.rmtree(d, ignore_errors=True)

def build_ir(avx):
    d = B + ('/ir-avx' if avx else '/ir'); out = B + ('/avx.ll' if avx else '/s.ll')
    forget(d)
    for f in glob.glob(d + '/debug/deps/vpc-*.ll'): os.remove(f)
    rc, o, e = run(['cargo', 'rustc', '--offline', '--lib', '--crate-type', 'staticlib', '--target-dir', d, '--', '--emit=llvm-ir', '-C', 'no-prepopulate-passes'], 600, cargo_env(avx), V + '/contracts')
    if rc: raise BuildError('IR build failed:\n' + e[-3000:])
    fs = glob.glob(d + '/debug/deps/vpc-*.ll')
    if not fs: raise BuildError('no LLVM IR was produced')
    rx = re.compile(r', ![a-z.A-Z]* ![0-9]+')
    with open(fs[0]) as i, open(out + '.tmp', 'w') as w:
        for l in i:
            if l[0] != '!': w.write(rx.sub('', l))
    os.replace(out + '.tmp', out); return out

def build_native(avx):
    d = B + ('/nat-avx' if avx else '/nat'); forget(d)
    rc, o, e = run(['cargo', 'build', '--offline', '--profile', 'native', '--bin', 'vpnative', '--target-dir', d], 600, cargo_env(avx), V + '/contracts')
    if rc: raise BuildError('native build failed:\n' + e[-3000:])
    return d + '/native/vpnative'

def build_engine():
    rc, o, e = run(['cargo', 'build', '--release', '--offline'], 900, cargo_env(False), V + '/engine')
    if rc: raise BuildError('engine build failed:\n' + e[-3000:])
    return V + '/engine/target/release/vpengine'

def build(avx):
    os.makedirs(B, exist_ok=True)
    with open(B + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run(['python3', V + '/contracts/gen_all.py']); h = tree_hash(); key = 'avx' if avx else 'std'; stamp = f'{B}/stamp-{key}'
        eng = build_engine()
        paths = {'ir': B + ('/avx.ll' if avx else '/s.ll'), 'nat': B + ('/nat-avx' if avx else '/nat') + '/native/vpnative', 'eng': eng, 'hash': h}
        if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(paths['ir']) and os.path.exists(paths['nat']): return paths
        if os.path.exists(stamp): os.remove(stamp)
        with ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(build_ir, avx), ex.submit(build_native, avx); a.result(); b.result()
        if tree_hash() != h: raise BuildError('the tree changed during the build')
        open(stamp, 'w').write(h); return paths

# ------------------------------------------------------------------ lanes
def num(x): return repr(float(x)) if not isinstance(x, str) else {'NaN': 'nan', 'Infinity': 'inf', '-Infinity': '-inf'}.get(x, x)

def replay(nat, c, inputs, cases):
    rc, o, e = run([nat, 'replay', c, ','.join(num(x) for x in inputs), ','.join(str(x) for x in cases)], 60)
    try: r = json.loads([l for l in o.splitlines() if l.startswith('{')][-1])
    except Exception: r = {'raw': o[-500:], 'stderr': e[-500:]}
    return (rc == 1) or (rc < 0) or rc > 100, r, rc

def native(nat, c, n, secs, consts):
    cmd = [nat, 'fuzz', c, '--n', str(n), '--secs', str(secs), '--seed', str(SEED)]
    if consts: cmd += ['--consts', ','.join(consts)]
    rc, o, e = run(cmd, secs * 4 + 60)
    try: return json.loads([l for l in o.splitlines() if l.startswith('{')][-1])
    except Exception: return {'contract': c, 'runs': 0, 'skipped': 0, 'checks': 0, 'bad': 1 if rc not in (0, 124) else 0, 'crash': f'exit {rc}: {o[-300:]} {e[-300:]}', 'examples': []}

def engine(eng, ir, c, secs, deep):
    rc, o, e = run([eng, 'run', ir, c, '--seed', str(SEED), '--secs', str(secs), '--deep', str(deep)], secs * 2 + 120)
    try: return json.loads(o)
    except Exception: return {'contract': c, 'error': f'exit {rc}: {o[-300:]} {e[-300:]}', 'paths': 0, 'complete': 0, 'dead': 0, 'labels': {}, 'bad': [], 'unsupported': [f'verifier ended with exit {rc}'], 'functions': [], 'methods': {}, 'consts': [], 'solver_s': 0, 'smt_s': 0, 'solver_calls': 0, 'smt_calls': 0, 'reached': {}, 'instructions': 0, 'merges': 0, 'wall_s': 0}

def illcond(nat, c, k, V2):
    """is the sample point so close to a singularity that inputs moved by 4 parts in 10^14 move the machine's own values visibly?"""
    for e in (4e-14, -4e-14):
        f = tempfile.NamedTemporaryFile('w', suffix='.paths', delete=False)
        f.write(','.join(num(x if isinstance(x, str) or i % 2 else x * (1 + e)) for i, x in enumerate(k['inputs'])) + ';' + ','.join(map(str, k['cases'])) + '\n')
        f.close(); rc, o, _ = run([nat, 'trace', c, f.name], 60); os.unlink(f.name)
        for l in o.split('\n'):
            w = l[1:].split(' ')
            if not l.startswith('#') or w[0] == 'skip' or len(w) - 2 != len(V2): continue
            for a, q in zip(V2, w[2:]):
                for x, y in zip(a, map(float, q.split(','))):
                    if abs(x - y) > 1e-5 * max(abs(x), abs(y)) + 1e-8: return True
    return False

def conform(nat, c, cf):
    """re-executes paths the verifier explored on the machine, at a sample point of each: the number of obligations met and both
    sides of each must agree (single precision loosely) - a check of the verifier, not of /repo"""
    r = {'paths': 0, 'values': 0, 'differ': 0, 'rounding': 0, 'examples': []}
    if not cf: return r
    f = tempfile.NamedTemporaryFile('w', suffix='.paths', delete=False)
    for k in cf: f.write(','.join(num(x) for x in k['inputs']) + ';' + ','.join(map(str, k['cases'])) + '\n')
    f.close(); rc, o, e = run([nat, 'trace', c, f.name], 60); os.unlink(f.name)
    L = [l[1:].split(' ') for l in o.split('\n') if l.startswith('#')]
    for k, w in zip(cf, L):
        if w[0] == 'skip': continue
        r['paths'] += 1; single = 'f32' in c; why = None
        if int(w[1]) != k['nobl']: why = f"{k['nobl']} obligations on the path, {w[1]} natively"
        else:
            V1 = [(float(num(a)), float(num(b))) for a, b in k['vals']]; V2 = [tuple(map(float, q.split(','))) for q in w[2:]]
            m = max([1e-9] + [abs(x) for ab in V1 for x in ab if abs(x) < 1e300])
            for i, (p, q) in enumerate(zip(V1, V2)):
                for x, y in zip(p, q):
                    r['values'] += 1
                    if x == y or (x != x and y != y): continue
                    d = abs(x - y)
                    if not d <= 1e-6 * max(abs(x), abs(y)) + 1e-9 * m:
                        if d <= 1e-2 * max(abs(x), abs(y)) + 1e-3 * m: r['rounding'] += 1
                        else: why = f'obligation {i}: {x!r} by the verifier, {y!r} natively'
        if why and not single and int(w[1]) == k['nobl'] and illcond(nat, c, k, V2): r['rounding'] += 1; continue
        if why and single: r['rounding'] += 1
        elif why:
            r['differ'] += 1
            if len(r['examples']) < 3: r['examples'].append({'contract': c, 'what': why, 'inputs': k['inputs'][:40], 'cases': k['cases'][:40]})
    if len(L) < len(cf) and rc not in (0, 124): r['differ'] += 1; r['examples'].append({'contract': c, 'what': f'native trace ended with exit {rc} after {len(L)} of {len(cf)} paths'})
    return r

def kani(pid, deep=()):
    """one cargo-kani run over the property's harnesses; harnesses named *_panics_* must panic on every path (their cover is unreachable)"""
    k = V + '/kani'
    src = open(k + '/src/lib.rs').read() if os.path.exists(k + '/src/lib.rs') else ''
    hs = sorted(set(re.findall(r'\b(%s_\w+)' % pid.lower(), src)))
    if not THO: hs = [h for h in hs if h not in deep]
    if not hs: return []
    d = f'{B}/kani-{pid}'; t = time.time(); per = 1500 if THO else 400
    cmd = ['cargo', 'kani', '--target-dir', d, '-j', '6', '--output-format=terse', '--no-overflow-checks', '--harness-timeout', f'{per}s', '-Z', 'unstable-options', '--exact']
    for h in hs: cmd += ['--harness', h]
    rc, o, e = run(cmd, per * 4 if THO else 600, cargo_env(False), k)
    shutil.rmtree(d, ignore_errors=True)
    if 'could not compile' in e or ('error' in e and 'Checking harness' not in o): raise BuildError('the Kani crate does not build:\n' + e[-2000:])
    cur = {}; txt = {h: '' for h in hs}; th = '0'
    for l in o.splitlines():
        m = re.match(r'(?:Thread (\d+): ?)?(.*)', l)
        if m.group(1) is not None: th = m.group(1)
        m2 = re.match(r'Checking harness (\S+?)\.\.\.', m.group(2))
        if m2: cur[th] = m2.group(1).split('::')[-1]; continue
        if th in cur and cur[th] in txt: txt[cur[th]] += m.group(2) + '\n'
    out = []
    for h in hs:
        x = txt[h]; m = re.search(r'\*\* (\d+) of (\d+) failed', x); fails = re.findall(r'Failed Checks: (.*)', x); ok = 'VERIFICATION:- SUCCESSFUL' in x
        noverdict = 'CBMC failed' in x or 'timed out' in x or 'UNDETERMINED' in x or not m or bool([f for f in fails if 'unwinding' in f or 'not currently supported' in f])
        bad = 'VERIFICATION:- FAILED' in x and not noverdict
        if '_panics_' in h:
            c = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', x)
            if c and int(c.group(1)) > 0: ok, bad = False, True; fails = ['the call returned on an input that must be rejected']
            elif ok and not c: ok = False
        w = re.search(r'Verification Time: ([\d.]+)s', x)
        out.append({'harness': h, 'ok': ok, 'failed': bad and not ok, 'checks': int(m.group(2)) if m else 0, 'failed_checks': fails[:8], 'solver_s': float(w.group(1)) if w else None, 'tail': '' if ok else x[-1500:]})
    return out

def known(pid):
    f = V + '/known-findings.txt'; r = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'KNOWN-FINDING: property=(\S+) contract=(\S+) label="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid: r.append({'contract': m.group(2), 'label': m.group(3), 'what': m.group(4)})
    return r

def main():
    pid = sys.argv[1]; low = pid.lower() + '_'
    cfg = json.load(open(V + '/tools/config.json')); pc = cfg.get(pid, {}); avx = pc.get('avx', False)
    try:
        builds = [('', build(False))] + ([('avx', build(True))] if avx else [])
    except BuildError as e:
        log('ERROR: ' + str(e)); return 2
    tb = time.time() - T0
    jobs = []
    for tag, p in builds:
        rc, o, e = run([p['nat'], 'list'], 60); names = [n for n in o.split() if n.startswith(low)]
        if tag == 'avx': base = set(j[1] for j in jobs); names = [n for n in names if n not in base or pc.get('avx_all')]
        jobs += [(tag, n, p) for n in names]
    ks = pc.get('kani', True)
    if not jobs: log('ERROR: no contracts found for ' + pid); return 2
    # proof lane first gives the branch constants for the native lane; run both in parallel pools
    secs = pc.get('secs', 150) * (3 if THO else 1); deep = pc.get('deep', 6) * (5 if THO else 1)
    nruns = pc.get('runs', 40000) * (50 if THO else 1); nsecs = pc.get('nsecs', 3) * (20 if THO else 1)
    noeng = set(pc.get('native_only', []))
    with ThreadPoolExecutor(8) as ex:
        kf = ex.submit(kani, pid, pc.get('kani_deep', [])) if ks else None
        order = sorted(jobs, key=lambda j: -pc.get('weight', {}).get(j[1], 0))
        ef = {(t, n): ex.submit(engine, p['eng'], p['ir'], n, secs, deep) for t, n, p in order if n not in noeng}
        er = {k: f.result() for k, f in ef.items()}
        nf = {}
        for t, n, p in jobs:
            cs = []
            r = er.get((t, n))
            if r:
                import struct
                for b in r.get('consts', [])[:200]:
                    try:
                        x = struct.unpack('<d', struct.pack('<Q', int(b)))[0]
                        if x == x and abs(x) < 1e12: cs.append(repr(x))
                    except Exception: pass
            nf[(t, n)] = ex.submit(native, p['nat'], n, 1, 60, []) if n in pc.get('once', []) else ex.submit(native, p['nat'], n, nruns, nsecs, cs[:60])
        cf = {(t, n): ex.submit(conform, p['nat'], n, er[(t, n)].get('conf')) for t, n, p in jobs if (t, n) in er}
        nr = {k: f.result() for k, f in nf.items()}; cr = {k: f.result() for k, f in cf.items()}
        try: kr = kf.result() if kf else []
        except BuildError as e: log('ERROR: ' + str(e)); return 2
    kn = known(pid); viol = []; notes = []; known_hit = []; bounded = []; degraded = []
    rd = V + '/evidence/replay'; os.makedirs(rd, exist_ok=True)
    for f in glob.glob(f'{rd}/{pid}-*'): os.remove(f)
    def add(t, n, label, kind, body, nofail):
        for k in kn:
            if k['contract'] == n and k['label'] == label: known_hit.append(k); return
        viol.append({'tag': t, 'contract': n, 'label': label, 'kind': kind, 'nofail': nofail, **body})
    obl = dis = unk = 0; functions = set(); methods = {}; ssec = 0.0; paths = 0; instr = 0; merges = 0
    for t, n, p in jobs:
        r = nr[(t, n)]
        if r.get('bad'):
            if r.get('examples'):
                for ex1 in r['examples'][:2]:
                    for lab in sorted(set(f[0] for f in ex1['fails'])): add(t, n, lab, 'native run', {'inputs': ex1['inputs'], 'cases': ex1['cases'], 'fails': ex1['fails']}, False)
            else: add(t, n, 'crash', 'native run', {'inputs': [], 'cases': [], 'fails': [['crash', r.get('crash', '')]]}, False)
        if r['runs'] == 0 and not r.get('bad') and not (t, n) in er: degraded.append(f'{n}: no input met the precondition in the native lane')
        if (t, n) not in er: bounded.append({'contract': n, 'label': '*', 'how': f"native lane only: {r['runs']} runs, {r['checks']} checks"}); continue
        e = er[(t, n)]
        functions.update(e['functions']); ssec += e['solver_s']; paths += e['paths']; instr += e['instructions']; merges += e.get('merges', 0)
        for k, v in e['methods'].items(): methods[k] = methods.get(k, 0) + v
        for l, (a, b, c) in e['labels'].items(): obl += a + b + c; dis += a; unk += c
        for b in e['bad']:
            if b['status'] == 'refuted':
                ok, rr, rc = replay(p['nat'], n, b['inputs'], b['cases'])
                if ok: add(t, n, b['label'], 'refuted obligation, replayed', {'inputs': b['inputs'], 'cases': b['cases'], 'fails': rr.get('fails', []), 'detail': b['detail']}, False)
                elif rc == 3: add(t, n, b['label'], 'refuted obligation (the model violates the precondition in floating point)', {'inputs': b['inputs'], 'cases': b['cases'], 'detail': b['detail'], 'replay': rr}, True)
                elif cr[(t, n)]['differ']: degraded.append(f"{n}: {b['label']}: refuted, but the verifier and the machine disagree about this contract's paths ({cr[(t, n)]['examples'][:1]})"[:600]); bounded.append({'contract': n, 'label': b['label'], 'how': 'refutation not believed: see degraded'})
                else: add(t, n, b['label'], 'refuted obligation (not reproduced in floating point)', {'inputs': b['inputs'], 'cases': b['cases'], 'detail': b['detail'], 'replay': rr}, True)
            else:
                m = re.match(r'samples:(\d+)', b['method']); agree = int(m.group(1)) if m else 0
                if agree > 0 or nr[(t, n)]['runs'] > 0: bounded.append({'contract': n, 'label': b['label'], 'how': f"undecided; {agree} sample points on the path and {nr[(t, n)]['runs']} native runs agree", 'detail': b['detail'][:300]})
                else: add(t, n, b['label'], 'undecided obligation', {'inputs': [], 'cases': b['cases'], 'detail': b['detail']}, True)
        if e['unsupported']: degraded.append(f"{n}: proof lane incomplete ({'; '.join(e['unsupported'][:3])}); {nr[(t, n)]['runs']} native runs stand in"); bounded.append({'contract': n, 'label': '*', 'how': f"proof lane incomplete: {'; '.join(e['unsupported'][:3])}"})
        elif not e['labels'] and not e['reached'] and not e['bad']: degraded.append(f'{n}: no obligation was reached')
        elif e['complete'] == 0 and not e['bad']: degraded.append(f'{n}: no path completed')
    kob = kdis = 0
    for k in kr:
        kob += k['checks']; 
        if k['ok']: kdis += k['checks']
        elif k['failed']: add('kani', k['harness'], '; '.join(k['failed_checks'])[:300] or 'verification failed', 'kani', {'inputs': [], 'cases': [], 'detail': k['tail']}, True)
        else: degraded.append(f"kani {k['harness']}: no verdict"); bounded.append({'contract': k['harness'], 'label': '*', 'how': 'kani gave no verdict within its time limit'})
    if kr: methods['kani'] = kdis
    obl += kob; dis += kdis
    if not kr and obl == 0 and not viol and er: log('ERROR: no obligations were generated'); return 2
    # a violation without failing input is dropped in favour of a confirmed one of the same contract
    viol.sort(key=lambda v: v['nofail'])
    names = demangle(functions); own = [f for f in names if 'colorspace' in f] + pc.get('kani_functions', []); sized = re.compile(pc.get('sized', '$^')); dsized = 0
    for (t, n), e in er.items():
        if sized.fullmatch(n): dsized += sum(v[0] for v in e['labels'].values()); bounded.append({'contract': n, 'label': '*', 'how': 'every obligation is discharged for all values, but only at the enumerated lengths / wavelength grids'})
    wall = time.time() - T0
    runs = sum(r['runs'] for r in nr.values()); checks = sum(r['checks'] for r in nr.values())
    level = pc.get('level', 'proof')
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': level, 'wall_s': round(wall, 2), 'violations': len(viol),
          'coverage': {'obligations': obl, 'discharged': dis, 'undecided': unk, 'checker_cmd': f'vpengine run {"s.ll" if not avx else "s.ll|avx.ll"} CONTRACT --seed {SEED} --secs {secs} --deep {deep}' + (' ; cargo kani' if kr else ''),
                       'trusted_base': cfg['trusted_base'] + pc.get('trusted', []), 'functions_under_contract': own, 'library_functions_inlined': len(names) - len([f for f in names if 'colorspace' in f]), 'discharged_at_enumerated_sizes_only': dsized, 'backends': methods, 'solver_s': round(ssec, 2), 'paths': paths, 'instructions': instr, 'normal_form_merges': merges,
                       'contracts': {(t + ':' if t else '') + n: ({'paths': er[(t, n)]['paths'], 'complete': er[(t, n)]['complete'], 'labels': er[(t, n)]['labels'], 'wall_s': er[(t, n)]['wall_s']} if (t, n) in er else {'native_only': True}) | {'native_runs': nr[(t, n)]['runs'], 'native_checks': nr[(t, n)]['checks']} for t, n, p in jobs},
                       'path_conformance': {k: sum(c[k] for c in cr.values()) for k in ('paths', 'values', 'differ', 'rounding')} | {'examples': [x for c in cr.values() for x in c['examples']][:6], 'meaning': 'paths of the verifier re-executed natively at a sample point each: obligations met and their two sides compared'},
                       'kani': [{k: v for k, v in x.items() if k != 'tail'} for x in kr], 'evaluations': runs, 'bounded': bounded[:120], 'degraded': degraded[:40], 'build_s': round(tb, 1), 'explanation': pc.get('explanation', '')},
          'assumptions': cfg['assumptions'] + pc.get('assumptions', [])}
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    pcf = ev['coverage']['path_conformance']; log(f'{pid}: {dis}/{obl} obligations discharged, {len(own)} functions, {paths} paths ({pcf["paths"]} re-executed natively, {pcf["differ"]} differ), {runs} native runs ({checks} checks), {wall:.1f}s (build {tb:.1f}s)')
    for d in degraded: log('DEGRADED: ' + d[:300])
    for b in bounded:
        if b['label'] != '*': log(f"BOUNDED: {b['contract']}: {b['label']}: {b['how']}"[:300])
    seen = set()
    for k in known_hit:
        if (k['contract'], k['label']) not in seen: seen.add((k['contract'], k['label'])); log(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viol:
        conf = [v for v in viol if not v['nofail']]; out = conf if conf else viol; shown = set(); i = 0
        for v in out:
            key = (v['contract'], v['label'])
            if key in shown or i >= 6: continue
            shown.add(key); i += 1; f = f'{rd}/{pid}-{i}.json'
            json.dump({'property': pid, 'obligation': v['label'], **v, 'how_to_replay': f"{V}/tools/replay.sh {f}"}, open(f, 'w'), indent=1)
            log(f"failed obligation: {v['contract']}: {v['label']} [{v['kind']}] {json.dumps(v.get('fails', v.get('detail', '')))[:300]}")
            log(f"VIOLATION property={pid} replay={f}" + (' no-failing-input-found' if v['nofail'] else ''))
        return 1
    return 0

def demangle(ns):
    """symbol names -> Rust paths (c++filt where there is one; raw symbols otherwise)"""
    ns = sorted(ns)
    try: o = subprocess.run(['c++filt'], input='\n'.join(ns) + '\n', capture_output=True, text=True, timeout=60).stdout.split('\n')[:len(ns)]
    except Exception: o = ns
    return sorted(set(re.sub(r'\[[0-9a-f]{5,16}\]', '', x) for x in o))

if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        try: build(False); build(True)
        except BuildError as e: log('ERROR: ' + str(e)); sys.exit(2)
        sys.exit(0)
    sys.exit(main())

#!/usr/bin/env python3
"""Development aid (no check uses it): trybug.py [--notest] ID... [-- C01 C02] : apply /verif/seeded/ID/patch.diff in a scratch copy
of /repo, run the repository's tests and the demo, then the property's check against the copy."""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
notest = '--notest' in a
nocheck = '--nocheck' in a
tier = 'thorough' if '--thorough' in a else 'quick'
a = [x for x in a if x not in ('--notest', '--nocheck', '--thorough')]
props = a[a.index('--') + 1:] if '--' in a else None
ids = a[:a.index('--')] if '--' in a else a
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
PY = '/opt/venv/bin/python'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for i in ids:
    d = V + '/seeded/' + i
    w = '/tmp/bug_' + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w], check=True)
    clean = subprocess.run(['bash', d + '/demo.sh'], cwd=w, env=env, capture_output=True).returncode
    r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w)
    if r.returncode:
        print(i, 'PATCH DOES NOT APPLY'); continue
    bad = subprocess.run(['bash', d + '/demo.sh'], cwd=w, env=env, capture_output=True).returncode
    out = [f'demo clean={clean} patched={bad}', '' if clean == 0 and bad else '  <-- WRONG']
    if not notest:
        x = f'/tmp/bug_{i}.xml'
        subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '3', '--timeout=120', '-o', 'junit_family=xunit2',
                        '--continue-on-collection-errors', f'--junitxml={x}', '.'], cwd=w, env=env, capture_output=True)
        o = f'/tmp/bug_{i}.json'
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', o, 'junit:' + x], capture_output=True)
        res = json.load(open(o))
        ok = set(res.get('passed', [])) if 'passed' in res else {k for k, v in res.items() if v == 'passed'}
        miss = stable - ok
        out.append(f'tests: {len(miss)} stable missing {sorted(miss)[:3]}')
    print(i, *out, flush=True)
    for p in ([] if nocheck else props or [json.load(open(d + '/meta.json'))['property']]):
        t = time.time()
        r = subprocess.run([PY, V + '/check.py', p, tier], cwd=V, env=dict(env, VERIF_REPO=w), capture_output=True, text=True)
        print('   ', p, 'exit', r.returncode, f'{time.time()-t:.0f}s', [l for l in r.stdout.splitlines() if 'VIOLATION' in l][:1], flush=True)
    shutil.rmtree(w, ignore_errors=True)

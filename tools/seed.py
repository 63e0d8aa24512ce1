#!/usr/bin/env python3
"""plant a bug: seed.py SPEC.py [...]  (SPEC defines ID, PROP, EDITS, DEMO, NEEDS, BREAKS)
Confirms it builds, passes the stable tests, its demonstration separates it, and says which checks catch it."""
import sys, os, json, subprocess, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
R = os.environ.get('SEEDREPO', '/tmp/seedrepo%d' % os.getpid())
def clean():
    sh(f'git -C {R} checkout -- .')
assert sh('git -C /repo status --porcelain').stdout == '', 'repo not clean'
sh(f'rm -rf {R}; cp -a /repo {R}')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/tmp/seedmpl', PYTHONPATH='/opt/vp/plugins', TZ='UTC')
def tests():
    j = f'{R}.xml'
    sh(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_seed --timeout=300 --continue-on-collection-errors --ignore=test/test_download_and_read.py --ignore=test/test_gia.py -o junit_family=xunit2 --junitxml={j}', cwd=R, env=ENV)
    import xml.etree.ElementTree as ET
    ok = {f"{c.get('classname')}::{c.get('name')}" for c in ET.parse(j).iter('testcase') if not list(c)}
    return [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in ok]
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = f'{V}/seeded/{s["ID"]}'
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(s['DEMO'].lstrip())
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['PROP'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    msg = []
    try:
        r = sh(f'bash {d}/demo.sh', cwd=R)
        if r.returncode:
            msg.append('DEMO FAILS ON CLEAN ' + (r.stdout + r.stderr)[-400:])
        for f, old, new in s['EDITS']:
            p = R + '/gravity_toolkit/' + f
            t = open(p).read()
            assert t.count(old) == 1, f'{s["ID"]}: {t.count(old)} matches of {old!r}'
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
        bad = tests()
        if bad:
            msg.append('TESTS BROKEN ' + str(bad))
        r = sh(f'bash {d}/demo.sh', cwd=R)
        msg.append('demo ok: ' + (r.stdout + r.stderr).strip().split('\n')[-1][:150] if r.returncode else 'DEMO PASSES WITH PATCH')
        c = sh(f'{V}/bin/check {s["PROP"]} quick', cwd=V, env=dict(os.environ, SYMX_REPO=R))
        msg.append(('caught' if c.returncode == 1 else f'MISSED rc={c.returncode}') + ' ' + '|'.join(c.stdout.splitlines()[1:4])[:300] + ' ... ' + c.stdout.strip().splitlines()[-1][:200])
    finally:
        clean()
        sh('rm -rf /verif/seeded/%s/__pycache__' % s['ID'])
    print(s['ID'], s['PROP'], '\n   '.join([''] + msg))
sh(f'rm -rf {R} {R}.xml')

"""Plant a bug: python3 tools/plant.py SPEC.py  (authoring aid; no check uses it)

SPEC defines ID, PROP, EDITS [(file, old, new), ...], NEEDS, WHAT, DEMO (python source, exit 0 = good).
Writes seeded/ID/, then confirms in /repo: demo 0 unpatched, nonzero patched, stable tests pass patched, and
reports whether the property's quick check catches it.  /repo is restored afterwards.
"""
import json, os, runpy, subprocess, sys
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main(spec, only_check=False):
    s = runpy.run_path(spec)
    d = os.path.join(top, 'seeded', s['ID'])
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(s['DEMO'])
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the property holds for the demonstrated input; run with cwd = the repository, after its build
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 3
export MPLCONFIGDIR=$work/mpl TMPDIR=$work PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$repo/src REPO=$repo
/opt/venv/bin/python -W ignore "$here/demo.py"
''')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['PROP'], needs=s['NEEDS'], what_it_breaks=s['WHAT']), open(d + '/meta.json', 'w'), indent=1)
    ok = True
    ftn = any(f.endswith('.f90') for f, _, _ in s['EDITS'])
    if ftn:
        sh('bash /opt/vp/build.sh')
    r = sh(d + '/demo.sh', cwd=R)
    print(s['ID'], 'demo unpatched', r.returncode, r.stdout[-300:], r.stderr[-300:])
    ok &= r.returncode == 0
    try:
        for f, a, b in s['EDITS']:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, 'w').write(t.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        # lines removed must be original ones
        b = sh('bash /opt/vp/build.sh')
        ok &= b.returncode == 0
        print('build', b.returncode, b.stderr[-200:])
        r = sh(d + '/demo.sh', cwd=R)
        print('demo patched', r.returncode, (r.stdout + r.stderr)[-300:])
        ok &= r.returncode != 0
        sh('bash /opt/vp/test.sh /tmp/o.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        o = json.load(open('/tmp/o.json'))
        bad = [x for x in base['stable'] if x not in set(o['passed'])]
        print('stable fails', bad)
        ok &= not bad
        for p in [s['PROP']] + s.get('ALSO', []):
            r = sh('python3 check.py %s' % p, cwd=top, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            print('CHECK', p, 'rc', r.returncode, '\n'.join(l for l in r.stdout.splitlines() if 'VIOLATION' in l)[:600])
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    orig = sh('git -C /repo show 656cf2e:%s' % s['EDITS'][0][0]).stdout
    for f, a, b in s['EDITS']:
        orig = sh('git -C /repo show 656cf2e:%s' % f).stdout
        print('original lines:', f, a in orig)
    print(s['ID'], 'COUNTS' if ok else '*** DOES NOT COUNT')


for x in sys.argv[1:]:
    main(x)

"""Run the check of each planted bug against a patched copy of /repo; writes tools/caught.json (authoring aid).
usage: sweep_seeded.py [ID ...]"""
import glob, json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(V, 'tools', 'caught.json')
res = json.load(open(out)) if os.path.exists(out) else {}
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob(V + '/seeded/*'))
for i in ids:
    d = os.path.join(V, 'seeded', i)
    p = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='sweep', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        subprocess.run(['git', '-C', w + '/repo', 'apply', d + '/patch.diff'], check=True)
        o = subprocess.run([sys.executable, V + '/check.py', p], env=dict(os.environ, PWV_REPO=w + '/repo', VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        subs = sorted(set(re.findall(r'VIOLATION property=%s replay=\S*/%s-(\w+)-\w+\.json' % (p, p), o.stdout)))
        res[i] = dict(property=p, rc=o.returncode, subs=subs)
        print(i, res[i], flush=True)
    finally:
        shutil.rmtree(w)
    json.dump({k: res[k] for k in sorted(res) if os.path.isdir(V + '/seeded/' + k)}, open(out, 'w'), indent=1)

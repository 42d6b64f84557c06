#!/usr/bin/env python3
"""Entry point of all checks:  check.py ID [--tier quick|thorough]
[--replay FILE] [--sub NAME[,NAME]] [--list]

Copies /repo's package to a scratch directory (rebuilding the Fortran
extensions there if their sources changed since the last build), runs the
property's sub-checks in worker processes, prints VIOLATION / KNOWN-FINDING
lines, and writes evidence/<ID>.json.

exit 0: held on everything explored; 1: VIOLATION; 3: the check itself failed.
"""
import argparse, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PWV_REPO', '/repo')
PY = '/opt/venv/bin/python'
EXT = ['_flib.so', '_dcd.so']


class HarnessError(Exception):
    pass


def ext_stamp(extdir):
    """same text as `sha256sum Makefile *.f90` run in extdir"""
    names = ['Makefile'] + sorted(f for f in os.listdir(extdir) if f.endswith('.f90'))
    return '\n'.join('%s  %s' % (hashlib.sha256(open(os.path.join(extdir, f), 'rb').read()).hexdigest(), f)
                     for f in names)


def prepare(scratch):
    src = os.path.join(REPO, 'src')
    dst = os.path.join(scratch, 'src')
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('__pycache__', '*.so'))
    bindir = os.path.join(REPO, 'bin')
    if os.path.isdir(bindir):
        shutil.copytree(bindir, os.path.join(scratch, 'bin'))
    ext = os.path.join(dst, '_ext_src')
    pk = os.path.join(dst, 'pwtools')
    stampfile = os.path.join(src, '_ext_src', '.vp-stamp')
    have = all(os.path.exists(os.path.join(src, 'pwtools', f)) for f in EXT)
    fresh = False
    if have and os.path.exists(stampfile):
        fresh = open(stampfile).read().split() == ext_stamp(ext).split()
    if fresh:
        for f in EXT:
            shutil.copy2(os.path.join(src, 'pwtools', f), os.path.join(pk, f))
    else:
        env = dict(os.environ, PATH='/opt/venv/bin:' + os.environ.get('PATH', '/usr/bin:/bin'))
        r = subprocess.run(['make', '-C', ext, 'gfortran-omp', 'ARCH=-march=x86-64-v2'],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=600)
        if r.returncode != 0 or not all(os.path.exists(os.path.join(pk, f)) for f in EXT):
            raise HarnessError('the Fortran extensions do not build:\n' + r.stdout[-3000:])
    td = os.path.join(pk, 'test')
    os.makedirs(td, exist_ok=True)
    with open(os.path.join(td, 'testenv.py'), 'w') as f:
        f.write('testdir=%r\n' % os.path.join(scratch, 'tmp'))
    for d in ('tmp', 'mpl', 'cache', 'work', 'home'):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)


def child_env(scratch, seed):
    keep = {k: v for k, v in os.environ.items() if k in ('LANG', 'LC_ALL', 'TZ', 'PWV_DEBUG')}
    keep.update(
        PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',
        PYTHONPATH=os.path.join(scratch, 'src'), PYTHONDONTWRITEBYTECODE='1',
        PYTHONHASHSEED=str(seed % 4294967295), MPLBACKEND='Agg', DISPLAY=':0',
        OMP_NUM_THREADS='3', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
        NPY_DISABLE_CPU_FEATURES='AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL AVX512_SPR',
        MPLCONFIGDIR=os.path.join(scratch, 'mpl'), XDG_CACHE_HOME=os.path.join(scratch, 'cache'),
        TMPDIR=os.path.join(scratch, 'tmp'), HOME=os.path.join(scratch, 'home'),
        VERIF_SEED=str(seed), PWV_SCRATCH=scratch, PWV_REPO_SRC=os.path.join(scratch, 'src'))
    keep.setdefault('LANG', 'C.UTF-8')
    return keep


def run_workers(scratch, pid, tier, seed, subs, nworkers, hang_after, deadline):
    """subs: list of sub names. Each worker takes names from a shared list
    (an atomic 'claim' file per sub). Returns (list of result dicts, problems)."""
    env = child_env(scratch, seed)
    outdir = os.path.join(scratch, 'res')
    os.makedirs(outdir, exist_ok=True)
    procs = []
    def spawn(i):
        log = open(os.path.join(outdir, 'log.%d' % i), 'w')
        p = subprocess.Popen([PY, os.path.join(VERIF, 'lib', 'runner.py'), pid, tier, str(seed),
                              outdir, str(i), ','.join(subs)],
                             env=env, cwd=os.path.join(scratch, 'work'), stdout=log,
                             stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        return p
    n = 0
    for i in range(nworkers):
        procs.append((n, spawn(n))); n += 1
    problems = []
    crashes = []
    def status(i):
        try:
            with open(os.path.join(outdir, 'status.%d' % i)) as f:
                return json.loads(f.read())
        except Exception:
            return None
    t0 = time.time()
    while procs:
        time.sleep(0.05)
        for item in list(procs):
            i, p = item
            rc = p.poll()
            if rc is None:
                st = status(i)
                if st and time.time() - st['t'] > hang_after and st.get('case') is not None:
                    os.killpg(p.pid, signal.SIGKILL); p.wait()
                    procs.remove(item)
                    crashes.append(dict(st, error='did not finish within %d s' % hang_after))
                elif time.time() - t0 > deadline:
                    os.killpg(p.pid, signal.SIGKILL); p.wait()
                    procs.remove(item)
                    problems.append('worker %d ran past the deadline (%r)' % (i, st and st.get('sub')))
                continue
            procs.remove(item)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            if rc == 0:
                continue
            st = status(i)
            log = open(os.path.join(outdir, 'log.%d' % i), errors='replace').read()[-3000:]
            if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL) \
                    and st and st.get('case') is not None:
                crashes.append(dict(st, error='process died with signal %d\n%s' % (-rc, log)))
                # the other subs still have to run
                procs.append((n, spawn(n))); n += 1
            else:
                problems.append('worker %d ended with status %s\n%s' % (i, rc, log))
    results = []
    for f in sorted(os.listdir(outdir)):
        if f.startswith('sub.'):
            results.append(json.load(open(os.path.join(outdir, f))))
    return results, crashes, problems


def merge(results):
    """results of the shards of a sub-check as one"""
    out = {}
    for r in results:
        if r['sub'] not in out:
            out[r['sub']] = r
            r['nt'] = set(r.get('nt', ()))
            continue
        o = out[r['sub']]
        o['evaluations'] += r['evaluations']
        o['nt'] |= set(r['nt'])
        o['distinct_nontrivial'] = len(o['nt'])
        for k, v in r['labels'].items():
            o['labels'][k] = o['labels'].get(k, 0) + v
        o['samples'] = o['samples'][:6] + [x for x in r['samples'] if x not in o['samples']][:6]
        o['known'] = o['known'] + r['known']
        o['stopped'] = o['stopped'] or r['stopped']
        o['wall_s'] = round(o['wall_s'] + r['wall_s'], 2)
        for k in ('violation', 'harness_error'):
            if r.get(k) and not o.get(k):
                o[k] = r[k]
    return list(out.values())


def replay(scratch, pid, seed, path, **kw):
    return subprocess.call([PY, os.path.join(VERIF, 'lib', 'runner.py'), pid, 'replay', path],
                           env=child_env(scratch, seed), cwd=os.path.join(scratch, 'work'), **kw)


def reproduce(scratch, pid, seed, v, until):
    """the smallest of what was seen that fails in a new process: the shrunk
    case, the case which failed first, that case after one of the cases before
    it, or after all of them"""
    first = v.pop('first', None)
    path = os.path.join(scratch, 'try.json')
    def fails(case, before):
        if time.time() > until:
            return False
        with open(path, 'w') as f:
            json.dump(dict(property=pid, sub=v['sub'], case=case, before=before), f)
        try:
            return replay(scratch, pid, seed, path, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120) not in (0, 3)
        except subprocess.TimeoutExpired:
            return True
    if first is None or fails(v['case'], []):
        return v
    case, before = first
    tries = [(case, [])] + [(c, [b]) for c in (v['case'], case) for b in before[::-1][:4]] + [(case, before)]
    for c, b in tries:
        if fails(c, b):
            return dict(v, case=c, before=b, error='only after %d other case(s)\n' % len(b) + v['error'])
    return dict(v, case=case, before=before, error='not seen again when repeated\n' + v['error'])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        seed = 1
    seed = abs(seed)
    pid = a.pid
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='pwv-%s.' % pid, dir='/tmp')
    try:
        prepare(scratch)
        if a.list:
            return subprocess.call([PY, os.path.join(VERIF, 'lib', 'runner.py'), pid, 'list'],
                                   env=child_env(scratch, seed), cwd=os.path.join(scratch, 'work'))
        if a.replay:
            rc = replay(scratch, pid, seed, os.path.abspath(a.replay))
            if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE):
                print('process died with signal %d' % -rc)
                rc = 1
            if rc == 1:
                print('VIOLATION property=%s replay=%s' % (pid, a.replay))
            return rc if rc in (0, 1) else 3
        r = subprocess.run([PY, os.path.join(VERIF, 'lib', 'runner.py'), pid, 'names'],
                           env=child_env(scratch, seed), cwd=os.path.join(scratch, 'work'),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        if r.returncode != 0:
            raise HarnessError('cannot load the property module:\n' + r.stderr[-3000:])
        meta = json.loads(r.stdout.strip().splitlines()[-1])
        subs = meta['subs']
        if a.sub:
            want = a.sub.split(',')
            subs = [s for s in subs if s in want]
            if not subs:
                raise HarnessError('no such sub-check: ' + a.sub)
        hang = 150 if tier == 'quick' else 400
        deadline = 800 if tier == 'quick' else 4 * 3600
        # shards of a sub-check differ in their seed only; all cores are used
        shards = max(2, 8 // len(subs)) if tier == 'quick' else max(2, -(-16 // len(subs)))
        jobs = ['%s@%d' % (s, k) for k in range(shards) for s in subs]
        results, crashes, problems = run_workers(scratch, pid, tier, seed, jobs,
                                                 min(a.workers, len(jobs)), hang, deadline)
        gave = {'%s@%d' % (r['sub'], r['shard']) for r in results if 'shard' in r}
        results = merge(results)
        viols = []
        for c in {c['sub']: c for c in crashes}.values():
            viols.append(dict(sub=c['sub'], case=c['case'], error=c['error']))
        for res in results:
            if res.get('violation'):
                viols.append(res['violation'])
            if res.get('harness_error'):
                problems.append('%s: %s' % (res['sub'], res['harness_error']))
            for k in res.get('known', []):
                print('KNOWN-FINDING: property=%s %s' % (pid, k))
        for j in jobs:
            if j not in gave and j.split('@')[0] not in {c['sub'] for c in crashes}:
                problems.append('sub-check %s gave no result' % j)
        ev = sum(r.get('evaluations', 0) for r in results)
        dn = sum(r.get('distinct_nontrivial', 0) for r in results)
        samples = []
        for res in results:
            samples += [dict(sub=res['sub'], case=s) for s in res.get('samples', [])[:2]]
        evidence = dict(
            property=pid, tier=tier, seed=seed, level='exploration',
            coverage=dict(evaluations=ev, distinct_nontrivial=dn, rule=meta['rule'],
                          samples=samples[:60],
                          per_check={r['sub']: dict(evaluations=r.get('evaluations', 0),
                                                    distinct_nontrivial=r.get('distinct_nontrivial', 0),
                                                    labels=r.get('labels', {}),
                                                    stopped_by_budget=r.get('stopped', False),
                                                    wall_s=r.get('wall_s')) for r in results}),
            assumptions=meta.get('assumptions', []),
            wall_s=round(time.time() - t0, 2), violations=len(viols))
        if not a.sub:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
                json.dump(evidence, f, indent=1)
        until = time.time() + 60
        for v in viols:
            v = reproduce(scratch, pid, seed, v, until)
            rdir = os.path.join(VERIF, 'replays')
            os.makedirs(rdir, exist_ok=True)
            h = hashlib.sha256(json.dumps([v['sub'], v['case']], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(rdir, '%s-%s-%s.json' % (pid, v['sub'], h))
            with open(path, 'w') as f:
                json.dump({k: v[k] for k in ('sub', 'case', 'before', 'error') if k in v} | dict(property=pid), f, indent=1)
            print('--- %s/%s\n%s\ncase: %s' % (pid, v['sub'], v['error'][-2500:], json.dumps(v['case'])[:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        for pr in problems:
            print('HARNESS-PROBLEM: ' + pr)
        if viols:
            return 1
        if problems:
            return 3
        print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s, ok'
              % (pid, tier, seed, ev, dn, time.time() - t0))
        return 0
    except HarnessError as e:
        print('HARNESS-PROBLEM: %s' % e)
        return 3
    finally:
        if a.keep:
            print('scratch kept: ' + scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())

"""Mutation sweep (authoring aid, no check uses it): which small changes of the package do the checks not notice?

  mutate.py cov  OUT.json [PID ...]          lines of the package executed by each sub-check
  mutate.py run  COV.json OUT.jsonl N SEED [FILE ...]   N random mutants, each run against the sub-checks covering its line
Works on a copy in /tmp; uses fork for speed.
"""
import ast, glob, hashlib, json, os, random, shutil, signal, sys, time, traceback, contextlib, io, tempfile, warnings
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('PWV_REPO', '/repo')
os.environ.update(OMP_NUM_THREADS='3', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg', DISPLAY=':0', PYTHONHASHSEED='1', PYTHONDONTWRITEBYTECODE='1',
                  PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')


def preload():
    sys.path.insert(0, os.path.join(V, 'lib'))
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import numpy, scipy, scipy.optimize, scipy.interpolate, scipy.integrate, scipy.signal, scipy.fftpack, scipy.spatial, scipy.linalg, scipy.constants, h5py, ase, ase.io, ase.spacegroup, ase.build, matplotlib, matplotlib.pyplot, mpl_toolkits.mplot3d, sklearn, sklearn.model_selection, spglib, sqlite3, CifFile, hypothesis, hypothesis.strategies  # noqa


def setup(scratch, src):
    for d in ('tmp', 'mpl', 'cache', 'work', 'home'):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    os.environ.update(PYTHONPATH=src, MPLCONFIGDIR=scratch + '/mpl', TMPDIR=scratch + '/tmp', HOME=scratch + '/home', XDG_CACHE_HOME=scratch + '/cache', PWV_SCRATCH=scratch, PWV_REPO_SRC=src, VERIF_SEED='1')
    tempfile.tempdir = scratch + '/tmp'
    # mutated code must not be able to harm anything else
    os.chmod(os.path.dirname(scratch), 0o755)
    for root, dirs, fs in os.walk(scratch):
        os.chown(root, 65534, 65534)
        for x in fs:
            os.chown(os.path.join(root, x), 65534, 65534)
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)
    sys.path.insert(0, src)
    os.chdir(scratch + '/work')
    fd = os.open(scratch + '/log', os.O_WRONLY | os.O_CREAT)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


def copy(dst):
    shutil.copytree(R + '/src', dst + '/src', ignore=shutil.ignore_patterns('__pycache__', '_ext_src'))
    shutil.copytree(R + '/bin', dst + '/bin')
    os.makedirs(dst + '/src/pwtools/test', exist_ok=True)
    with open(dst + '/src/pwtools/test/testenv.py', 'w') as f:
        f.write('testdir=%r\n' % (dst + '/tmp'))


def load(pid):
    import runner, pv
    pv.SUBS.clear()
    return runner.load(pid)


def runsub(s, frac, budget, seed=1):
    """first failing case or None; no shrinking"""
    import runner
    from hypothesis import settings, HealthCheck, Phase, given, seed as hseed
    import hypothesis.errors as herr
    runner.WORK = os.getcwd()
    runner.CASE_LIMIT = 40
    t0 = time.time()
    for ex in s.examples:
        try:
            runner.run_case(s, ex)
        except Exception as e:
            return repr(e)[:200]
    hs = int.from_bytes(hashlib.sha256(('%d:%s' % (seed, s.name)).encode()).digest()[:8], 'big')
    fail = []

    class Over(BaseException):
        pass

    @hseed(hs)
    @settings(max_examples=max(5, int(3 * s.quick * frac)), database=None, deadline=None, report_multiple_bugs=False, suppress_health_check=list(HealthCheck), print_blob=False, phases=[Phase.generate])
    @given(s.strategy)
    def prop(case):
        if time.time() - t0 > budget:
            raise Over
        try:
            runner.run_case(s, case)
        except Exception as e:
            fail.append(repr(e)[:200])
            raise
    try:
        prop()
    except Over:
        return fail[0] if fail else None
    except runner.Environment as e:
        return 'ENV ' + repr(e)
    except herr.HypothesisException as e:
        return 'HYP ' + repr(e)[:200]
    except Exception as e:
        return fail[0] if fail else 'HARNESS ' + repr(e)[:300]
    return None


def child(fn, scratch, timeout):
    """fork; result of fn() as JSON or None"""
    os.makedirs(scratch, exist_ok=True)
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            out = scratch + '/result'
            r = fn()
            json.dump(r, open(out, 'w'))
        except BaseException:
            traceback.print_exc()
            os._exit(1)
        os._exit(0)
    return pid


def pids(args=None):
    return args or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(V + '/lib/props/c*.py'))


def cov(out, want):
    preload()
    base = tempfile.mkdtemp(prefix='mutcov', dir='/tmp')
    copy(base)
    todo, run, res = pids(want), {}, {}
    if os.path.exists(out):
        res = json.load(open(out))

    def one(pid, scratch):
        setup(scratch, base + '/src')
        from runner import on_alarm
        signal.signal(signal.SIGALRM, on_alarm)
        mon = sys.monitoring
        mon.use_tool_id(5, 'x')
        cur = set()

        def ev(code, line):
            if code.co_filename.startswith(base):
                cur.add((code.co_filename[len(base) + 1:], line))
            return mon.DISABLE
        mod, subs = load(pid)
        mon.register_callback(5, mon.events.LINE, ev)
        mon.set_events(5, mon.events.LINE)
        r = {}
        for n, s in list(subs.items()):
            cur.clear()
            mon.restart_events()
            t0 = time.time()
            e = runsub(s, .5, 20)
            d = {}
            for f, l in cur:
                d.setdefault(f, []).append(l)
            r[n] = dict(lines={f: sorted(x) for f, x in d.items()}, wall=time.time() - t0, err=e)
        return r
    while todo or run:
        while todo and len(run) < 8:
            p = todo.pop(0)
            sc = base + '/' + p
            run[child(lambda: one(p, sc), sc, 0)] = p
        k, st = os.wait()
        p = run.pop(k)
        try:
            res[p] = json.load(open(base + '/' + p + '/result'))
            print(p, 'ok', [n for n, x in res[p].items() if x['err']], flush=True)
        except Exception as e:
            print(p, 'FAILED', open(base + '/' + p + '/log').read()[-500:] if os.path.exists(base + '/' + p + '/log') else e, flush=True)
        json.dump(res, open(out, 'w'))
    shutil.rmtree(base)


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/', ast.Mod: '+'}


def mutants(path):
    """[(line, kind, start, end, new text)] as character offsets"""
    src = open(path).read()
    tree = ast.parse(src)
    bl = [0]
    for l in src.encode().splitlines(True):
        bl.append(bl[-1] + len(l))
    b = src.encode()
    pos = lambda ln, col: bl[ln - 1] + col
    seg = lambda n: b[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
    out = []

    def rep(n, new, kind):
        out.append((cover.get(n, n.lineno), kind, pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), new))
    doc = set()
    fmt = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
            doc.add(n.body[0].value)
        if isinstance(n, (ast.Raise, ast.Assert)):
            for m in ast.walk(n.msg if isinstance(n, ast.Assert) and n.msg else n.exc if isinstance(n, ast.Raise) and n.exc else ast.Pass()):
                fmt.add(m)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'warn' or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print':
            for m in ast.walk(n):
                fmt.add(m)
    # a default value counts as executed where the body of its function is
    cover = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            body = [x for x in n.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))] or n.body
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                for m in ast.walk(d):
                    cover[m] = body[0].lineno
    infn = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for m in ast.walk(n):
                infn.add(m)
    for n in ast.walk(tree):
        if n in doc or n in fmt or n not in infn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP.get(type(n.ops[0]))
            if o:
                rep(n, '(%s %s %s)' % (seg(n.left), o, seg(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            if isinstance(n.op, (ast.Add,)) and (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
                continue
            rep(n, '((%s) %s (%s))' % (seg(n.left), BIN[type(n.op)], seg(n.right)), 'bin')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + o.join('(%s)' % seg(v) for v in n.values) + ')', 'bool')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            rep(n, '(%s)' % seg(n.operand), 'unary')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), 'const')
            elif isinstance(v, int):
                rep(n, str(v + 1), 'const')
                if v > 0:
                    rep(n, str(v - 1), 'const')
            elif isinstance(v, float):
                rep(n, repr(v * 1.01 if v else 0.01), 'const')
                if v and v != 1:
                    rep(n, '1.0', 'const')
        elif isinstance(n, (ast.If, ast.While)) or isinstance(n, ast.IfExp):
            rep(n.test, '(%s and False)' % seg(n.test) if False else 'False', 'cond')
            if not isinstance(n, ast.While):
                rep(n.test, 'True', 'cond')
        elif isinstance(n, (ast.AugAssign, ast.Raise, ast.Assert, ast.Expr)) or isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            rep(n, 'pass', 'del')
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                rep(n, seg(n.func.value), 'nocopy')
            elif n.keywords and all(k.arg for k in n.keywords):
                for k in n.keywords:
                    a = [seg(x) for x in n.args] + ['%s=%s' % (q.arg, seg(q.value)) for q in n.keywords if q is not k]
                    rep(n, '%s(%s)' % (seg(n.func), ', '.join(a)), 'kw ' + k.arg)
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Name):
            pass
    # second set: realistic slips (aliasing, in-place work, formats, variable misuse, falsy values, defaults)
    import re
    k0 = len(out)
    dflt = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                dflt[d] = n
    swap = dict(min='max', max='min', argmin='argmax', argmax='argmin', floor='ceil', ceil='floor', rint='floor', round='floor', append='extend', any='all', all='any',
                startswith='endswith', endswith='startswith', ones='zeros', zeros='ones', strip='rstrip', upper='lower', lower='upper', update='setdefault', argsort='argmax', cumsum='cumprod', fft='ifft')
    for n in ast.walk(tree):
        if n in doc or n in fmt or n not in infn:
            continue
        if n in dflt and isinstance(n, (ast.Constant, ast.List)):
            v = getattr(n, 'value', 0)
            new = str(not v) if isinstance(v, bool) else str(v + 1) if isinstance(v, int) else repr(v * 2 or .5) if isinstance(v, float) else repr(v + 'x') if isinstance(v, str) else '0' if v is None else None
            if new:
                rep(n, new, 'dflt')
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            t = seg(n)
            for a, c in ((r'%\.\d\d([efg])', r'%.6\1'), (r'tail -n', 'head -n'), (r'head -n', 'tail -n'), (r'grep -m1', 'grep'), (r'-m1', ''), (r'\+', '*'), (r'\*', '+'), (r'\$(\d+)', lambda m: '$%d' % (int(m.group(1)) + 1)),
                         (r'\^', ''), (r'\[ \]\+', ' '), (r'-A(\d+)', lambda m: '-A%d' % (int(m.group(1)) + 1)), (r'\\s', ' '), (r'\.', ','), (r'\d(?=,|\})', '1')):
                u = re.sub(a, c, t)
                if u != t:
                    rep(n, u, 'str')
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp) and isinstance(n.value.left, ast.Name) and type(n.value.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div):
            o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}[type(n.value.op)]
            l = n.value.left.id
            rep(n, '%s %s= (%s); %s = %s' % (l, o, seg(n.value.right), n.targets[0].id, l), 'inplace')
        if isinstance(n, ast.Call):
            fn = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
            if fn in swap and isinstance(n.func, ast.Attribute):
                rep(n.func, seg(n.func.value) + '.' + swap[fn], 'swapf')
            if fn in ('array', 'deepcopy', 'list', 'dict', 'abs', 'unique', 'sorted', 'int', 'float', 'round', 'tuple', 'asarray', 'sqrt', 'repr') and len(n.args) == 1 and not (n.keywords and fn != 'array'):
                if fn == 'array':
                    rep(n.func, 'np.asarray', 'nocopy')
                elif isinstance(n.args[0], (ast.Name, ast.Attribute, ast.Subscript, ast.BinOp, ast.Call)):
                    rep(n, '(%s)' % seg(n.args[0]), 'unwrap')
            if fn in ('astype', 'strip', 'lower', 'upper', 'tolist', 'copy', 'flatten', 'swapaxes', 'repeat') and isinstance(n.func, ast.Attribute):
                rep(n, seg(n.func.value), 'unwrap')
            if len(n.args) >= 2 and all(isinstance(a, (ast.Name, ast.Attribute)) for a in n.args[:2]):
                rep(n, '%s(%s)' % (seg(n.func), ', '.join([seg(n.args[1]), seg(n.args[0])] + [seg(x) for x in n.args[2:]] + [('%s=%s' % (q.arg, seg(q.value)) if q.arg else '**' + seg(q.value)) for q in n.keywords])), 'swaparg')
        if isinstance(n, ast.Attribute) and n.attr == 'T' and isinstance(n.ctx, ast.Load):
            rep(n, seg(n.value), 'noT')
        if isinstance(n, ast.Slice):
            for e, sg in ((n.upper, '-'), (n.lower, '+')):
                if e is not None and not isinstance(e, ast.Constant):
                    rep(e, '(%s)%s1' % (seg(e), sg), 'slice')
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.Is) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            l = seg(n.left)
            rep(n, '(%s is None or (isinstance(%s, (int, float, str, list, tuple, dict)) and not %s))' % (l, l, l), 'falsy')
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            l = seg(n.left)
            rep(n, '(%s is not None and not (isinstance(%s, (int, float, str, list, tuple, dict)) and not %s))' % (l, l, l), 'falsy')
        if isinstance(n, ast.FunctionDef):
            names = [a.arg for a in n.args.args if a.arg not in ('self', 'cls')]
            loc = sorted({m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)} | set(names))
            for m in ast.walk(n):
                if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load) and m.id in loc and len(loc) > 1 and m not in fmt:
                    rr = random.Random('%s:%d:%d' % (m.id, m.lineno, m.col_offset))
                    if rr.random() < .3:
                        rep(m, rr.choice([x for x in loc if x != m.id]), 'var')
        if isinstance(n, ast.For) and len(n.body) > 1:
            rep(n.body[-1], 'pass', 'lastloop')
    if os.environ.get('PWV_SET') == '2':
        out = [m for m in out[k0:] if not os.environ.get('PWV_KIND') or m[1] in os.environ['PWV_KIND'].split(',')]
    return b, [m for m in out if b[m[2]:m[3]].decode() != m[4]]


def run(covf, out, N, seed, files):
    C = json.load(open(covf))
    by = {}
    for p, subs in C.items():
        for n, x in subs.items():
            size = sum(len(l) for l in x['lines'].values())
            for f, ll in x['lines'].items():
                for l in ll:
                    by.setdefault((f, l), []).append((size + 30 * x['wall'], p, n))
    fs = [f for f in sorted(glob.glob(R + '/src/pwtools/**/*.py', recursive=True)) if '/test/' not in f and not f.endswith('__init__.py')]
    if files:
        fs = [f for f in fs if any(x in f for x in files)]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['kind'], d['new']))
    ms = []
    for f in fs:
        b, mm = mutants(f)
        rel = os.path.relpath(f, R)
        for m in mm:
            if (rel, m[0]) in by:
                if (rel, m[0], m[1], m[4]) in done:
                    continue
                t = b[:m[2]] + m[4].encode() + b[m[3]:]
                try:
                    compile(t, f, 'exec')
                except SyntaxError:
                    continue
                ms.append((rel, m, t, b[m[2]:m[3]].decode()))
    print(len(ms), 'mutants', flush=True)
    random.Random(seed).shuffle(ms)
    ms = ms[:N]
    preload()
    base = tempfile.mkdtemp(prefix='mutrun', dir='/tmp')
    runn = {}
    kills = {}

    def one(scratch, rel, t, line):
        copy(scratch)
        with open(os.path.join(scratch, rel), 'wb') as f:
            f.write(t)
        setup(scratch, scratch + '/src')
        from runner import on_alarm
        signal.signal(signal.SIGALRM, on_alarm)
        todo = sorted(by[(rel, line)])
        t0 = time.time()
        lastp = None
        used = []
        # at most 3 sub-checks of each property
        cnt = {}
        for _, p, n in todo:
            if time.time() - t0 > 100:
                break
            try:
                mod, subs = load(p) if p not in cnt else (None, cnt[p])
                if p not in cnt:
                    cnt[p] = dict(subs)
            except Exception as e:
                return dict(killed=p + ' import ' + repr(e)[:100])
            e = runsub(cnt[p][n], .7, 12)
            used.append(p + '.' + n)
            if e:
                return dict(killed=p + '.' + n + ' ' + e[:160], t=time.time() - t0)
        return dict(killed=None, used=used, t=time.time() - t0)
    i = 0
    nk = ns = 0
    fo = open(out, 'a')
    started = {}
    while i < len(ms) or runn:
        while i < len(ms) and len(runn) < int(os.environ.get('PWV_JOBS', 8)):
            rel, m, t, old = ms[i]
            sc = base + '/%d' % i
            k = child(lambda: one(sc, rel, t, m[0]), sc, 0)
            runn[k] = (i, sc)
            started[k] = time.time()
            i += 1
        k, st = os.waitpid(-1, os.WNOHANG)
        if k == 0:
            time.sleep(.02)
            for q, t0 in list(started.items()):
                if time.time() - t0 > 170 and q in runn:
                    try:
                        os.killpg(q, signal.SIGKILL)
                    except OSError:
                        pass
            continue
        j, sc = runn.pop(k)
        started.pop(k)
        try:
            os.killpg(k, signal.SIGKILL)
        except OSError:
            pass
        rel, m, t, old = ms[j]
        try:
            r = json.load(open(sc + '/result'))
        except Exception:
            r = dict(killed='process status %s' % st)
        fo.write(json.dumps(dict(file=rel, line=m[0], kind=m[1], old=old, new=m[4], **r)) + '\n')
        fo.flush()
        nk += bool(r['killed'])
        ns += not r['killed']
        shutil.rmtree(sc, ignore_errors=True)
        if (nk + ns) % 50 == 0:
            print(nk, 'killed', ns, 'survived', flush=True)
    shutil.rmtree(base, ignore_errors=True)
    print(nk, 'killed', ns, 'survived', flush=True)


if __name__ == '__main__':
    if sys.argv[1] == 'cov':
        cov(sys.argv[2], sys.argv[3:])
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), sys.argv[6:])

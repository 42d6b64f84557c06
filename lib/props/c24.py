from pv import *
import sqlite3, subprocess, filecmp, io as _io, contextlib as _c
from pwtools import batch, sql, comb, common

RULE = ('random histories of ParameterStudy.write_input over machines, templates (files and texts, bound keys, custom placeholders), complete, incomplete and nested '
        'parameter sets, modes, backups; the whole directory tree and database are compared with a model after each run; non-trivial if calculations were written')

EXTRA = ['revision', 'study_name', 'idx', 'calc_name']
STRS = ['abc', "it's", 'a\\1b', '100%', '%(idx)s', 'XXXIDX', 'two\nlines', 'ä', '', '$HOME', '\\g<0>', 'XXXPAR']
LITS = [' = ', '\n', ' text\n', " 'q' ", ' % \\ ', ' {x} $y ', '\n\n# äö\n', ' xxxpar ', ' ']


def val(r, kind):
    if kind == 'REAL':
        return float(r.choice([1.0, 0.1, -2.5e-7, 1e30, r.normal()]))
    if kind == 'INTEGER':
        return int(r.integers(-50, 1000))
    return str(r.choice(STRS))


def txt_of(v):
    return '%.16e' % v if isinstance(v, float) else v if isinstance(v, str) else repr(v)


def make_template(r, keys, func):
    """token list; ('k', key) or ('l', text)"""
    tok = []
    for _ in range(int(r.integers(0, 9))):
        tok.append(('l', str(r.choice(LITS))))
        if r.random() < .8:
            tok.append(('k', str(r.choice(keys))))
    tok.append(('l', str(r.choice(LITS))))
    return tok


def render(tok, func, vals=None):
    return ''.join(x if k == 'l' else (func(x) if vals is None or x not in vals else vals[x]) for k, x in tok)


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        rel = os.path.relpath(root, d)
        for f in files:
            with open(os.path.join(root, f), 'rb') as fh:
                out[os.path.normpath(os.path.join(rel, f))] = fh.read()
        if not files and not dirs:
            out[rel + '/'] = b''
    return out


def dbrows(fn, table):
    con = sqlite3.connect(fn)
    h = [(x[1], x[2]) for x in con.execute('pragma table_info(%s)' % table)]
    rows = [dict(zip([c for c, _ in h], x)) for x in con.execute('select * from %s order by rowid' % table)]
    con.close()
    return h, rows


FUNCS = dict(default=lambda x: 'XXX' + x.upper(), at=lambda x: '@%s@' % x)


class Tmpl:
    def __init__(self, r, name, root, keys, mode=None):
        self.name = name
        self.fn = str(r.choice(['default', 'at']))
        self.func = FUNCS[self.fn]
        self.tok = make_template(r, keys, self.func)
        self.txt = render(self.tok, self.func)
        self.kind = str(r.choice(['file', 'dir', 'txt']))
        self.bound = None if r.random() < .7 else 'some' if r.random() < .6 else 'copy'
        kw = {} if self.fn == 'default' else dict(func=self.func)
        if self.bound == 'copy' and self.kind == 'txt':
            self.kind = 'file'
        self.keys = None
        if self.bound == 'some':
            self.keys = [k for k in ('idx', 'calc_name', 'study_name') if r.random() < .6] or ['idx']
            kw['keys'] = self.keys
        elif self.bound == 'copy':
            kw['keys'] = []
        td = os.path.join(root, 'calc.templ')
        os.makedirs(td, exist_ok=True)
        if self.kind != 'txt':
            with open(os.path.join(td, name), 'w') as f:
                f.write(self.txt)
        if self.kind == 'file':
            self.t = batch.FileTemplate(filename=os.path.join(td, name), **kw)
        elif self.kind == 'dir':
            self.t = batch.FileTemplate(basename=name, templ_dir=td, **kw)
        else:
            if r.random() < .5:
                with open(os.path.join(td, name), 'w') as f:
                    f.write('an unrelated file XXXIDX\n')
                kw['templ_dir'] = td
            self.t = batch.FileTemplate(basename=name, txt=self.txt, **kw)

    def expect(self, vals):
        if self.bound == 'copy':
            return self.txt
        if self.bound == 'some':
            vals = {k: vals[k] for k in self.keys}
        return render(self.tok, self.func, vals)


RUN = st.fixed_dictionaries(dict(seed=seeds, mode=pick(['a', 'a', 'a', 'w']), backup=bools, machines=ints(1, 7), params=pick(['grid', 'zip', 'incomplete', 'none', 'single', 'fileval']), excl=bools, sleep=pick([0, 0, 2]), dflt=bools, drop=ints(0, 7)))


@sub(D(seed=seeds, runs=st.lists(RUN, min_size=1, max_size=4), root=pick(['study', 'my study', 'a/b', 'cwd']), dbname=pick([None, 'x.db']), table=pick([None, 'tab']), prefix=pick([None, 'pre'])), quick=120, thorough=2500, budget=(40, 400))
def study_histories(case, t):
    r = rng(case)
    cwd = os.getcwd()
    with tmpdir() as d:
        os.chdir(d)
        try:
            _study(case, t, r, d)
        finally:
            os.chdir(cwd)


def _study(case, t, r, d):
    types = dict(par='REAL', zpar='TEXT', kpts='TEXT', m='INTEGER', b_x='REAL')
    allkeys = list(types) + EXTRA + ['subcmd', 'scratch', 'home', 'hostname', 'nothere']
    templates = [Tmpl(r, n, d, allkeys) for n in ['pw.in', 'sub.in'][:int(r.integers(0, 3))]]
    mach = []
    for i in range(3):
        tm = Tmpl(r, 'job.%i' % i, d, allkeys)
        kw = dict(hostname='host%i' % i, subcmd='cat', scratch=None if r.random() < .3 else '/scratch/%i' % i, home='/home/u%i' % i)
        if tm.kind == 'file' and tm.bound is None and tm.fn == 'default':
            m = batch.Machine(filename=os.path.join(d, 'calc.templ', tm.name), **kw)
        else:
            m = batch.Machine(template=tm.t, **kw)
        mach.append((m, tm, kw))
    root = os.path.join(d, case['root']) if case['root'] != 'cwd' else os.path.join(d, 'work')
    if case['root'] == 'cwd':
        os.makedirs(root)
        os.chdir(root)
    dbname, table, prefix = case['dbname'] or 'calc.db', case['table'] or 'calc', case['prefix'] or 'calc'
    files = {}          # expected tree without the db and its backups
    header, rows = {}, None
    dbbaks = {}
    for run in case['runs']:
        rr = rng(run)
        ms = [mach[i] for i in rr.permutation(3) if run['machines'] >> i & 1]
        vals_list = []
        k = run['params']
        if k == 'grid':
            ct = {c: types[c] for c in ('par', 'm')}
            cols = [sql.sql_column(c, [val(rr, types[c]) for _ in range(int(rr.integers(1, 4)))]) for c in ct]
            plist = comb.nested_loops(cols)
        elif k == 'zip':
            n = int(rr.integers(1, 4))
            a, b, c, e = [sql.sql_column(c, [val(rr, types[c]) for _ in range(n)]) for c in ('par', 'zpar', 'm', 'b_x')]
            lists = [list(zip(a, b)), c, e[:2]]
            plist = comb.nested_loops([lists[i] for i in rr.permutation(3)[:int(rr.integers(1, 4))]])
        elif k == 'incomplete':
            plist = []
            for _ in range(int(rr.integers(1, 5))):
                ks = [c for c in ('kpts', 'm', 'b_x') if rr.random() < .6] or ['m']
                plist.append([sql.SQLEntry(key=c, sqlval=val(rr, types[c])) for c in ks])
        elif k == 'none':
            plist = [[sql.SQLEntry(key='b_x', sqlval=None if rr.random() < .5 else val(rr, 'REAL')), sql.SQLEntry(key='m', sqlval=val(rr, 'INTEGER'))] for _ in range(3)]
        elif k == 'fileval':
            plist = [[sql.SQLEntry(key='kpts', sqlval=val(rr, 'TEXT'), fileval='K_POINTS\n%i' % j), sql.SQLEntry(key='m', sqlval=int(rr.integers(0, 2)), fileval=str(rr.choice(['zero', '0.0', 'm%i' % j])))] for j in range(2)]
        else:
            plist = [[sql.SQLEntry(key='par', sqlval=val(rr, 'REAL')), sql.SQLEntry(key='zpar', sqlval=val(rr, 'TEXT'))]]
        flat = [common.flatten(x) for x in plist]
        sname = 'calc' if run['dflt'] else str(rr.choice(['conv', "o'name", 'x y']))
        kw = dict(machines=ms[0][0] if len(ms) == 1 and run['dflt'] else [x[0] for x in ms], templates=[x.t for x in templates], params_lst=plist)
        if not run['dflt']:
            kw['study_name'] = sname
        if case['root'] != 'cwd':
            kw['calc_root'] = root if rr.random() < .7 or os.getcwd() != d else case['root']
        for key, v in (('db_name', case['dbname']), ('db_table', case['table']), ('calc_dir_prefix', case['prefix'])):
            if v is not None:
                kw[key] = v
        tl = kw['templates']
        st0 = batch.ParameterStudy(**kw)
        wk = {}
        if not (run['mode'] == 'a' and run['dflt']):
            wk['mode'] = run['mode']
        for key, dv in (('backup', True), ('excl', True), ('sleep', 0)):
            if run[key] != dv or not run['dflt']:
                wk[key] = run[key]
        dbfn = os.path.join(root, dbname)
        if run['drop'] > 4 and rows and len(rows) > 1:
            # the user deletes finished calculations from the database
            gone = rows[int(rr.integers(0, len(rows) - 1))]
            con = sqlite3.connect(dbfn)
            con.execute('delete from %s where idx=?' % table, (gone['idx'],))
            con.commit()
            con.close()
            rows = [x for x in rows if x is not gone]
        dbold = open(dbfn, 'rb').read() if rows is not None else None
        with _c.redirect_stdout(_io.StringIO()):
            st0.write_input(**wk)
        t.nontrivial()
        t.eq(len(tl), len(templates), 'templates list of the caller')
        # --- model
        had = rows is not None
        if had and run['backup']:
            n = 0
            while '%s.%i' % (dbname, n) in dbbaks:
                n += 1
            dbbaks['%s.%i' % (dbname, n)] = dbold
        if run['mode'] == 'w' or not had:
            header, rows = {}, []
        new = not rows and (run['mode'] == 'w' or not had)
        i0 = 0 if not rows else max(x['idx'] for x in rows) + 1
        rev = 0 if new else max(x['revision'] for x in rows) + 1
        for m, tm, mk in ms:
            cd = '%s_%s' % (prefix, m.hostname)
            old = {f: c for f, c in files.items() if f.startswith(cd + '/')}
            if old and run['backup']:
                n = 0
                while any(f.startswith('%s.%i/' % (cd, n)) for f in files):
                    n += 1
                files.update({f.replace(cd + '/', '%s.%i/' % (cd, n), 1): c for f, c in old.items()})
            if old and run['mode'] == 'w':
                files = {f: c for f, c in files.items() if f not in old}
            job = []
            for j, ps in enumerate(flat):
                idx = i0 + j
                vals = {e.key: txt_of(e.fileval) for e in ps}
                vals.update(revision=str(rev), study_name=sname, idx=str(idx), calc_name='%s_run%i' % (sname, idx))
                vals.update({q: txt_of(mk[q]) for q in ('subcmd', 'scratch', 'home')})
                for x in templates + [tm]:
                    files['%s/%i/%s' % (cd, idx, x.name)] = x.expect(vals).encode()
                job.append(tm.expect(vals))
            rs = os.path.join(root, cd, 'run.sh')
            txt = open(rs).read()
            files[cd + '/run.sh'] = txt.encode()
            t.eq(txt.count('sleep %i' % run['sleep']), len(flat), 'sleep in run.sh')
            if not run['sleep']:
                out = subprocess.run(['sh', 'run.sh'], cwd=os.path.join(root, cd), capture_output=True)
                t.eq(out.stdout, ''.join(job).encode(), 'running run.sh submits every new job once, in order')
        recs = []
        for j, ps in enumerate(flat):
            rec = {e.key: e.sqlval for e in ps}
            rec.update(revision=rev, study_name=sname, idx=i0 + j, calc_name='%s_run%i' % (sname, i0 + j), hostname=','.join(m.hostname for m, _, _ in ms))
            recs.append(rec)
        old_idx = [x['idx'] for x in rows]
        rows = rows + recs
        if run['excl'] and rev > 0:
            files['excl_push'] = '\n'.join(str(x) for x in old_idx).encode()
        # --- compare
        got = tree(root)
        db = {f: got.pop(f) for f in list(got) if f == dbname or f.startswith(dbname + '.')}
        t.eq(sorted(got), sorted(files), 'files')
        for f in files:
            t.ok(got[f] == files[f], 'content of %s:\n%r\nexpected\n%r' % (f, got[f], files[f]))
        t.eq(sorted(db), sorted([dbname] + list(dbbaks)), 'database and backups')
        for f, c in dbbaks.items():
            t.ok(db[f] == c, 'backup %s of the database' % f)
        h, have = dbrows(dbfn, table)
        names = [c for c, _ in h]
        seen = {}
        for rec in recs:
            for c, v in rec.items():
                if seen.get(c, 'NULL') == 'NULL':
                    seen[c] = sql.find_sqltype(v)
        header = dict(seen, **header)
        want_cols = header
        t.eq(sorted(names), sorted(want_cols), 'columns')
        t.eq({c: x for c, x in h if header[c] != 'NULL'}, {c: x for c, x in header.items() if x != 'NULL'}, 'column types')
        t.eq(len(have), len(rows), 'number of rows')
        for a, b in zip(have, rows):
            for c in names:
                x, y = a[c], b.get(c)
                t.ok(x == y and (type(x) is type(y)), 'row %s, column %s: %r, expected %r' % (b['idx'], c, x, y))


@sub(D(seed=seeds, n=ints(1, 3)), quick=100, thorough=1500)
def single_calculations(case, t):
    r = rng(case)
    keys = ['par', 'kpts', 'subcmd', 'home', 'scratch', 'idx', 'zz']
    t.nontrivial()
    with tmpdir() as d:
        for i in range(case['n']):
            tms = [Tmpl(r, 'in%i%i' % (i, j), d, keys) for j in range(int(r.integers(0, 3)))]
            tms = [x for x in tms if x.bound != 'some']
            jt = Tmpl(r, 'job', d, keys)
            while jt.bound == 'some':
                jt = Tmpl(r, 'job', d, keys)
            mk = dict(subcmd='x%i' % i, home='h', scratch='s')
            m = [None, batch.Machine(hostname='a', template=jt.t, **mk), batch.Machine(hostname='b', **mk)][int(r.integers(3))]
            ps = [sql.SQLEntry(key='par', sqlval=val(r, 'REAL')), sql.SQLEntry(key='kpts', sqlval='a', fileval=val(r, 'TEXT') or 'q')]
            cd = os.path.join(d, 'c', str(i))
            kw = dict(params=ps, calc_dir=cd, machine=m)
            lst = [x.t for x in tms]
            if tms or r.random() < .3:
                kw['templates'] = lst
            c = batch.Calculation(**kw)
            with _c.redirect_stdout(_io.StringIO()):
                c.write_input()
            vals = {e.key: txt_of(e.fileval) for e in ps}
            if m is not None:
                vals.update(mk)
            exp = {x.name: x.expect(vals) for x in tms + ([jt] if m is not None and m.template is not None else [])}
            t.eq(sorted(os.listdir(cd)), sorted(exp), 'files of calculation %i' % i)
            for f in exp:
                t.eq(open(os.path.join(cd, f)).read(), exp[f], f)
            t.eq(c.get_sql_record(), {e.key: e for e in ps}, 'record has no machine entries')
            t.eq(len(lst), len(tms), 'list of templates unchanged')
            if m is not None:
                t.eq({q: (e.key, e.sqlval) for q, e in m.get_sql_record().items()}, {q: (q, v) for q, v in mk.items()}, 'machine record')
                if m.template is None:
                    with t.raises(Exception, msg='no jobfile'):
                        m.get_jobfile_basename()
                else:
                    t.eq(m.get_jobfile_basename(), 'job', 'job name')


@sub(D(seed=seeds, n=ints(1, 6), ny=ints(0, 3), mode=pick(['next', 'last', None]), orig=bools, ad=bools, typ=pick(['list', 'array']), xs=pick(['str', 'num'])), quick=200, thorough=3000)
def convergence_table(case, t):
    r = rng(case)
    n, ny = case['n'], case['ny']
    y = np.round(r.normal(size=(max(ny, 1), n)) * 100, 4)
    yy = y[0] if ny == 0 else y
    x = ['%i %i' % (i, i) for i in range(n)] if case['xs'] == 'str' else list(range(n))
    arg = yy if case['typ'] == 'array' else yy.tolist()
    kw = {k: v for k, v in dict(mode=case['mode'], orig=case['orig'] or None, absdiff=case['ad'] or None).items() if v is not None}
    if case['seed'] % 2:
        kw.update(ffmt='%25.8e', sfmt='%9s')
    with t.unchanged(arg=arg, x=x):
        s = batch.conv_table(x, arg, **kw)
    t.nontrivial(n > 1)
    dy = np.zeros_like(y)
    for i in range(n):
        dy[:, i] = (y[:, min(i + 1, n - 1)] if case['mode'] == 'next' else y[:, -1]) - y[:, i]
    if case['ad']:
        dy = np.abs(dy)
    ln = s.split('\n')
    t.eq(ln[-1], '', 'ends with newline')
    t.eq(len(ln), n + 1, 'lines')
    f, sf = kw.get('ffmt', '%15.4f'), kw.get('sfmt', '%15s')
    for i in range(n):
        exp = sf % x[i]
        for k in range(len(y)):
            exp += f % dy[k, i]
            if case['orig']:
                exp += f % y[k, i]
        # -0.0 and 0.0 are the same
        t.eq([w.replace('-0.0000', '0.0000') for w in ln[i].split()] if 'ffmt' not in kw else ln[i].replace('-0.00000000e+00', ' 0.00000000e+00').split(),
             [w.replace('-0.0000', '0.0000') for w in exp.split()] if 'ffmt' not in kw else exp.replace('-0.00000000e+00', ' 0.00000000e+00').split(), 'line %i' % i)
        t.eq(len(ln[i]), len(exp), 'width')


@sub(D(kw=st.dictionaries(pick(['x', 'y', 'z', 'name', 'init_']), st.one_of(ints(-5, 5), st.text(max_size=3)), max_size=4)), quick=30, thorough=200)
def cases_and_default_keys(case, t):
    t.nontrivial(bool(case['kw']))
    t.eq(batch.Case(**case['kw']).__dict__, case['kw'], 'Case')

    class My(batch.Case):
        def init(self):
            self.total = sorted(self.__dict__)
    m = My(**case['kw'])
    t.eq(m.total, sorted(case['kw']), 'init() is called with all attributes set')
    c = batch.Case(init=3)
    t.eq(c.init, 3, 'init as a plain value')
    import tempfile
    with _c.redirect_stdout(_io.StringIO()), tmpdir() as d:
        old, tempfile.tempdir = tempfile.tempdir, d
        try:
            k = batch.default_repl_keys()
        finally:
            tempfile.tempdir = old
        t.eq(os.listdir(d), [], 'files left over')
    t.eq(sorted(k['ParameterStudy']), sorted(EXTRA), 'study keys')
    t.eq(sorted(k['Machine']), ['home', 'scratch', 'subcmd'], 'machine keys')


@sub(D(seed=seeds, what=pick(['mode', 'machine', 'template', 'table', 'foreign database'])), quick=40, thorough=300)
def refused_calls_leave_everything_alone(case, t):
    r = rng(case)
    t.nontrivial()
    with tmpdir() as d:
        os.makedirs(d + '/templ')
        with open(d + '/templ/job', 'w') as f:
            f.write('#!/bin/sh\n# XXXIDX\n')
        with open(d + '/templ/in', 'w') as f:
            f.write('par=XXXPAR\n')
        f1 = batch.FileTemplate(filename=d + '/templ/job')
        if case['what'] == 'machine':
            with t.raises(msg='template and file name'):
                batch.Machine(hostname='h', subcmd='bash', template=f1, filename=d + '/templ/job')
            return
        if case['what'] == 'template':
            with t.raises(msg='basename and file name'):
                batch.FileTemplate(basename='job', filename=d + '/templ/job')
            with t.raises(msg='unknown mode'):
                batch.FileTemplate(filename=d + '/templ/in').write({'par': 1}, d + '/templ', mode='json')
            return
        if case['what'] == 'table':
            with t.raises(msg='unknown mode'):
                batch.conv_table([1, 2], [1.0, 2.0], mode='first')
            return
        par = lambda: [[x] for x in sql.sql_column('par', [float(x) for x in r.normal(size=int(r.integers(1, 4)))])]
        st = lambda: batch.ParameterStudy(machines=batch.Machine(hostname='h', subcmd='bash', template=f1), templates=[batch.FileTemplate(filename=d + '/templ/in')], params_lst=par(), calc_root=d + '/root')
        if r.random() < .5 or case['what'] == 'foreign database':
            with _c.redirect_stdout(_io.StringIO()):
                st().write_input()
        if case['what'] == 'foreign database':
            os.remove(d + '/root/calc.db')
            con = sqlite3.connect(d + '/root/calc.db')
            con.execute('create table calc (par real)')
            con.execute('insert into calc values (3.0)')
            con.commit()
            con.close()
        before = tree(d)
        kw = dict(mode=str(r.choice(['x', '', 'wa', 'append']))) if case['what'] == 'mode' else dict(backup=False)
        with t.raises(msg='%s %s' % (case['what'], kw)), _c.redirect_stdout(_io.StringIO()):
            st().write_input(**kw)
        t.eq(sorted(tree(d)), sorted(before), 'files after the refused call')
        t.ok(tree(d) == before, 'content of the files after the refused call')


@sub(D(seed=seeds), quick=60, thorough=600)
def template_writes(case, t):
    """FileTemplate.write(): values of a dict or of SQLEntry objects; calc.templ and calc are the default directories"""
    r = rng(case)
    keys = ['par', 'kpts', 'zz']
    t.nontrivial()
    cwd = os.getcwd()
    with tmpdir() as d:
        try:
            os.chdir(d)
            for x in ('calc', 'other'):
                os.mkdir(x)
            for i in range(3):
                func = FUNCS['default']
                tok = make_template(r, keys, func)
                name = 'in%d' % i
                src = str(r.choice(['txt', 'file']))
                if src == 'file':
                    os.makedirs('calc.templ', exist_ok=True)
                    open('calc.templ/' + name, 'w').write(render(tok, func))
                ft = batch.FileTemplate(basename=name, **({} if src == 'file' else dict(txt=render(tok, func))))
                vals = {k: val(r, str(r.choice(['REAL', 'INTEGER', 'TEXT']))) for k in keys}
                vals = {k: 'none' if v is None else v for k, v in vals.items()}
                want = render(tok, func, {k: txt_of(v) for k, v in vals.items()})
                rec = {k: sql.SQLEntry(key=k, sqlval='not this', fileval=v) for k, v in vals.items()}
                with t.unchanged(vals=vals):
                    for how, call in (('write', lambda **kw: ft.write(vals, **kw)), ("write, mode='dct'", lambda **kw: ft.write(vals, mode='dct', **kw)),
                                      ("write, mode='sql'", lambda **kw: ft.write(rec, mode='sql', **kw)), ('writesql', lambda **kw: ft.writesql(rec, **kw))):
                        for cd in ('calc', 'other'):
                            with _c.redirect_stdout(_io.StringIO()):
                                call(**({} if cd == 'calc' else dict(calc_dir=cd)))
                            got = os.path.join(cd, name)
                            t.ok(os.path.exists(got), '%s: no file %s' % (how, got))
                            t.eq(open(got).read(), want, how)
                            os.remove(got)
                with t.raises(AssertionError, msg='unknown mode'):
                    ft.write(vals, mode='foo')
            for e in (sql.SQLEntry(key='a', sqlval=1), sql.SQLEntry(1, key='a')):
                t.eq((e.fileval, e.sqltype), (1, 'INTEGER'), 'SQLEntry')
        finally:
            os.chdir(cwd)

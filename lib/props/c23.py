from pv import *
import io as _io, contextlib as _c, sqlite3
from pwtools import sql

RULE = ('random histories of table/column operations on in-memory and on-disk databases, compared with a reference model (ordered rows of dictionaries) after '
        'every step; values include quotes, unicode, blobs, NULL, huge and tiny numbers; non-trivial if data was stored')

POOL = ["", "a", "it's", '"q"', "a,b;c", "%s %d", "äöü€", "line\nbreak", "--x", "NULL", "12", "1e5", "null", " lead", "x" * 300, "drop table calc", "\\", "?"]
TYPES = ['INTEGER', 'REAL', 'TEXT', 'BLOB']
SPELL = dict(INTEGER=['INTEGER', 'integer', 'Integer'], REAL=['REAL', 'float', 'FLOAT', 'real', 'Float'], TEXT=['TEXT', 'text', 'Text'], BLOB=['BLOB', 'blob'])


def value(r, typ, null=0.2):
    if r.random() < null:
        return None
    if typ == 'INTEGER':
        return int(r.choice([0, 1, -1, 2**62, -2**63, int(r.integers(-1000, 1000))]))
    if typ == 'REAL':
        return float(r.choice([0.0, -0.0, 1.0, 1e300, 1e-300, np.pi, 0.1 + 0.2, np.inf, r.normal(), r.normal() * 1e10]))
    if typ == 'TEXT':
        return str(r.choice(POOL)) if r.random() < 0.8 else 'v%d' % r.integers(0, 1000)
    return bytes(r.integers(0, 256, r.integers(0, 5)).tolist())


def sametyped(a, b):
    return type(a) is type(b) and a == b


class Model:
    def __init__(self):
        self.tab = {}       # name -> (header list, rows list of dict)

    def header(self, n):
        return [(c, t) for c, t in self.tab[n][0]]

    def rows(self, n):
        h, rows = self.tab[n]
        return [tuple(x.get(c) for c, _ in h) for x in rows]


def check_state(db, m, t):
    for n in m.tab:
        t.eq(db.has_table(n), True, 'has_table')
        t.eq(db.get_header(n), m.header(n), 'header of ' + n)
        got = db.execute('select * from %s order by rowid' % n).fetchall()
        want = m.rows(n)
        t.ok(len(got) == len(want) and all(len(a) == len(b) and all(sametyped(x, y) for x, y in zip(a, b)) for a, b in zip(got, want)),
             'table %s: %s, model: %s' % (n, short(got), short(want)))
        t.eq(db.get_max_rowid(n), len(want), 'max rowid')


OPS = ['create', 'insert', 'insert', 'many', 'add', 'adds', 'fill', 'fill', 'attach', 'attach', 'overwrite', 'set', 'read', 'reopen', 'update', 'commit', 'readd', 'bad']


@sub(D(ops=st.lists(st.tuples(pick(OPS), st.integers(0, 10**6)), min_size=2, max_size=14), disk=bools, deftab=bools), quick=300, thorough=6000, budget=(30, 300))
def histories(case, t):
    with tmpdir() as d:
        fn = os.path.join(d, 'x.db') if case['disk'] else ':memory:'
        cur = 'calc' if case['deftab'] else None
        db = sql.SQLiteDB(fn, table=cur)
        m = Model()
        try:
            for op, s in case['ops']:
                r = np.random.default_rng(s)
                names = sorted(m.tab)
                # which table is addressed, and is it passed explicitly?
                tgt = str(r.choice(names)) if names else None
                explicit = tgt is not None and (cur not in m.tab or r.random() < 0.5)
                if tgt is not None and not explicit:
                    tgt = cur
                kw = dict(table=tgt) if explicit else {}
                if op == 'create' or tgt is None:
                    new = [n for n in ('calc', 'foo', 'b_2') if n not in m.tab]
                    if not new:
                        continue
                    n = str(r.choice(new))
                    ex = r.random() < 0.5 or cur != n
                    k = int(r.integers(1, 4))
                    ty = [str(r.choice(TYPES)) for _ in range(k)]
                    h = [('c%d' % i, x) for i, x in enumerate(ty)]
                    spell = [(c, str(r.choice(SPELL[x]))) for c, x in h]
                    t.eq(db.has_table(n), False, 'has_table before')
                    db.create_table(spell, **(dict(table=n) if ex else {}))
                    m.tab[n] = (h, [])
                elif op in ('insert', 'many'):
                    h, rows = m.tab[tgt]
                    for _ in range(int(r.integers(1, 4))):
                        sel = [x for x in h if r.random() < 0.8] or h[:1]
                        row = {c: value(r, ty) for c, ty in sel}
                        cmd = 'insert into %s (%s) values (%s)' % (tgt, ','.join(c for c, _ in sel), ','.join('?' * len(sel)))
                        vals = tuple(row[c] for c, _ in sel)
                        db.execute(cmd, vals) if op == 'insert' else db.executemany(cmd, [vals])
                        rows.append(row)
                elif op in ('add', 'readd'):
                    h, rows = m.tab[tgt]
                    ty = str(r.choice(TYPES))
                    c = h[0][0] if op == 'readd' else 'c%d' % len(h)
                    if op == 'add' and 'c' not in dict(h) and r.random() < .5:
                        c = 'c'
                    t.eq(db.has_column(c, **kw), op == 'readd', 'has_column')
                    db.add_column(c, str(r.choice(SPELL[ty])), **kw)
                    if op == 'add':
                        h.append((c, ty))
                elif op == 'adds':
                    h, rows = m.tab[tgt]
                    add = [('c%d' % (len(h) + i), str(r.choice(TYPES))) for i in range(int(r.integers(1, 3)))]
                    db.add_columns([(c, str(r.choice(SPELL[x]))) for c, x in add] + [h[0]], **kw)
                    h.extend(add)
                elif op in ('fill', 'attach', 'overwrite'):
                    h, rows = m.tab[tgt]
                    nr = len(rows)
                    start = int(r.integers(1, nr + 2))
                    extend = bool(r.random() < 0.6)
                    over = op == 'overwrite'
                    n = int(r.integers(1, 6))
                    if op == 'fill' or over:
                        c, ty = h[int(r.integers(len(h)))]
                    else:
                        c, ty = 'c%d' % len(h), str(r.choice(TYPES[:3]))
                    vals = [value(r, ty, 0.1) for _ in range(n)]
                    if op == 'attach' and vals[0] is None:
                        vals[0] = dict(INTEGER=3, REAL=2.5, TEXT="o'k")[ty]
                    arg = dict(kw, start=start, extend=extend, overwrite=over)
                    if start == 1 and r.random() < .5:
                        del arg['start']
                    if extend and r.random() < .5:
                        del arg['extend']
                    if not over and r.random() < .5:
                        del arg['overwrite']
                    before = m.rows(tgt)
                    if not extend and start > nr:
                        if op == 'attach':
                            continue
                        with t.raises(AssertionError, msg='start > number of rows without extend'):
                            db.fill_column(c, vals, **arg)
                        check_state(db, m, t)
                        continue
                    # first collision stops a non-overwriting fill
                    bad = None
                    if op == 'fill':
                        for i in range(n):
                            if start + i <= nr and rows[start + i - 1].get(c) is not None:
                                bad = i
                                break
                    if bad is not None:
                        with t.raises(AssertionError, msg='not NULL'):
                            db.fill_column(c, vals, **arg)
                        n = bad
                    elif op == 'fill':
                        db.fill_column(c, np.array(vals) if ty == 'REAL' and None not in vals and r.random() < .3 else vals, **arg)
                    elif op == 'attach':
                        if r.random() < .5:
                            db.attach_column(c, vals, str(r.choice(SPELL[ty])), **arg)
                        else:
                            db.attach_column(c, vals, **arg)
                        h.append((c, ty))
                    else:
                        db.attach_column(c, vals, ty, **arg)
                    for i in range(n):
                        k = start + i - 1
                        if k < len(rows):
                            rows[k][c] = vals[i]
                        elif extend:
                            rows.append({c: vals[i]})
                elif op == 'set':
                    cur = str(r.choice(names)) if r.random() < .8 else None
                    db.set_table(cur)
                    t.eq(db.get_table(), cur, 'get_table')
                    if cur is None:
                        for f in (lambda: db.get_header(), lambda: db.add_column('x', 'text'), lambda: db.get_max_rowid(), lambda: db.has_column('c0'), lambda: db.create_table([('a', 'text')])):
                            with t.raises(Exception, msg='no table set'):
                                f()
                elif op == 'update':
                    h, rows = m.tab[tgt]
                    if rows:
                        k = int(r.integers(len(rows)))
                        c, ty = h[int(r.integers(len(h)))]
                        v = value(r, ty)
                        db.execute('update %s set %s=? where rowid==?' % (tgt, c), (v, k + 1))
                        rows[k][c] = v
                elif op == 'bad':
                    h, rows = m.tab[tgt]
                    with t.raises(AssertionError, msg='fill of missing column'):
                        db.fill_column('nix', [1], **kw)
                    with t.raises(AssertionError, msg='attach of existing column'):
                        db.attach_column(h[0][0], [1], **kw)
                    t.eq(db.has_column('nix', **kw), False, 'has_column')
                    t.eq(db.has_table('nix'), False, 'has_table')
                    for c in [h[0][0] + 'x', h[-1][0][:-1], h[0][0] + ' ', 'x' + h[0][0], '']:
                        t.eq(db.has_column(c, **kw), c in dict(h), 'has_column %r' % c)
                elif op == 'read':
                    h, rows = m.tab[tgt]
                    cols = [c for c, _ in h]
                    sel = [str(x) for x in r.permutation(cols)[:int(r.integers(1, len(cols) + 1))]]
                    dct = db.get_dict('select %s from %s order by rowid' % (','.join(sel), tgt))
                    t.eq(list(dct), sel, 'keys')
                    for c in sel:
                        want = [x.get(c) for x in rows]
                        t.ok(len(want) == len(dct[c]) and all(sametyped(a, b) for a, b in zip(dct[c], want)), 'get_dict %s %s' % (short(dct[c]), short(want)))
                        lst = db.get_list1d('select %s from %s order by rowid' % (c, tgt))
                        t.ok(len(want) == len(lst) and all(sametyped(a, b) for a, b in zip(lst, want)), 'get_list1d: %s, expected %s' % (short(lst), short(want)))
                        ty = dict(h)[c]
                        if ty in ('REAL', 'INTEGER', 'TEXT') and None not in want and want:
                            a = db.get_array1d('select %s from %s order by rowid' % (c, tgt))
                            t.eq(a.shape, (len(want),), 'array shape')
                            t.ok(all(x == y for x, y in zip(a.tolist(), want)), 'get_array1d')
                    num = [c for c in sel if dict(h)[c] == 'REAL' and all(x.get(c) is not None for x in rows)]
                    if num and rows:
                        a = db.get_array('select %s from %s order by rowid' % (','.join(num), tgt))
                        t.eq(a, np.array([[x[c] for c in num] for x in rows]), 'get_array')
                    if rows:
                        k = int(r.integers(len(rows)))
                        v = db.get_single('select %s from %s where rowid==?' % (sel[0], tgt), (k + 1,))
                        t.ok(sametyped(v, rows[k].get(sel[0])), 'get_single')
                    flat = db.get_list1d('select %s from %s order by rowid' % (','.join(sel), tgt))
                    want = [x.get(c) for x in rows for c in sel]
                    t.ok(len(want) == len(flat) and all(sametyped(a, b) for a, b in zip(flat, want)), 'get_list1d of %s columns' % len(sel))
                    with t.raises(AssertionError, msg='get_single without result'):
                        db.get_single('select %s from %s where rowid==-5' % (sel[0], tgt))
                    if len(rows) > 1:
                        with t.raises(AssertionError, msg='get_single not unique'):
                            db.get_single('select %s from %s' % (sel[0], tgt))
                elif op == 'commit':
                    db.commit()
                elif op == 'reopen' and case['disk']:
                    db.finish()
                    db = sql.SQLiteDB(fn, table=cur)
                check_state(db, m, t)
                t.nontrivial(any(v[1] for v in m.tab.values()))
        finally:
            db.finish()
            db.conn.close()
        if case['disk'] and m.tab:
            # read with plain sqlite3
            con = sqlite3.connect(fn)
            for n in m.tab:
                got = con.execute('select * from %s order by rowid' % n).fetchall()
                t.ok(got == m.rows(n), 'committed data of ' + n)
            con.close()


ROWS = dict(seed=seeds, ncol=ints(1, 4), nrow=ints(1, 5))


def matrix(r, nc, nr, nullable=True):
    ty = [str(r.choice(TYPES[:3])) for _ in range(nc)]
    rows = [[value(r, x, 0.15 if i and nullable else 0) for x in ty] for i in range(nr)]
    return ty, rows


@sub(D(**ROWS, how=pick(['header', 'colnames']), sf=bools, ff=bools), quick=300, thorough=5000)
def entries_and_matrix(case, t):
    r = rng(case)
    ty, rows = matrix(r, case['ncol'], case['nrow'])
    cols = ['k%d' % i for i in range(len(ty))]
    t.nontrivial()
    kw = dict(header=[(c, str(r.choice(SPELL[x]))) for c, x in zip(cols, ty)]) if case['how'] == 'header' else dict(colnames=cols)
    sf = {cols[0]: lambda x: (x, 1)} if case['sf'] else None
    ff = {cols[-1]: lambda x: 'file=%s' % (x,)} if case['ff'] else None
    if sf:
        kw['sqlval_funcs'] = sf
    if ff:
        kw['fileval_funcs'] = ff
    with t.unchanged(rows=rows):
        m = sql.sql_matrix(rows, **kw)
    t.eq([len(m)] + [len(x) for x in m], [len(rows)] + [len(ty)] * len(rows), 'shape')
    for row, mr in zip(rows, m):
        for c, x, v, e in zip(cols, ty, row, mr):
            t.eq(e.key, c, 'key'); t.eq(e.sqltype, x, 'sqltype')
            sv = (v, 1) if sf and c == cols[0] else v
            t.ok(sametyped(e.sqlval, sv), 'sqlval')
            fv = 'file=%s' % (v,) if ff and c == cols[-1] else v
            t.ok(sametyped(e.fileval, sv if fv is None else fv), 'fileval')
    with t.raises(AssertionError, msg='number of columns'):
        sql.sql_matrix(rows, header=[(c, 'text') for c in cols + ['z']])
    with t.raises(AssertionError, msg='no colnames'):
        sql.sql_matrix(rows)
    # one column
    vals = [row[0] for row in rows if row[0] is not None]
    g, f = (lambda x: [x, 0]), (lambda x: 'f%s' % x)
    for st_ in (None, str(r.choice(SPELL[ty[0]]))):
        e = sql.sql_column('kk', vals, sqltype=st_, fileval_func=f)
        t.eq([x.key for x in e], ['kk'] * len(vals), 'key'); t.eq([x.sqltype for x in e], [ty[0]] * len(vals), 'sqltype')
        t.ok(all(sametyped(x.sqlval, v) and x.fileval == 'f%s' % v for x, v in zip(e, vals)), 'values')
    e = sql.sql_column('kk', vals, sqltype='text', sqlval_func=g)
    t.eq([x.sqlval for x in e], [[v, 0] for v in vals], 'sqlval_func'); t.eq([x.fileval for x in e], vals, 'fileval')
    e = sql.sql_column('kk', vals, sqlval_func=lambda x: 'x')
    t.eq([x.sqltype for x in e], ['TEXT'] * len(vals), 'type after sqlval_func')
    e = sql.sql_column_old('kk', SPELL[ty[0]][0], vals, fileval_func=f)
    t.eq([(x.key, x.sqltype, x.sqlval, x.fileval) for x in e], [('kk', ty[0], v, 'f%s' % v) for v in vals], 'sql_column_old')
    with t.raises(AssertionError, msg='mixed types'):
        sql.sql_column('kk', [1.0, 'a'])
    with t.raises(AssertionError, msg='mixed types'):
        sql.sql_column('kk', [1.0] * int(r.integers(1, 5)) + [1])
    # single entry
    v = rows[0][0]
    e = sql.SQLEntry(v, key='q')
    t.eq((e.sqltype, e.key), (ty[0], 'q'), 'entry')
    t.ok(sametyped(e.sqlval, v) and sametyped(e.fileval, v), 'entry values')
    for fv in (0, '', 0.0, False, [], 'x'):
        e = sql.SQLEntry(v, fileval=fv)
        t.ok(sametyped(e.fileval, fv) and sametyped(e.sqlval, v), 'fileval %r' % (fv,))
    t.eq(sql.find_sqltype(v), ty[0], 'find_sqltype')
    t.eq([sql.find_sqltype(x) for x in (None, True, memoryview(b'x'), np.float64(1))], ['NULL', 'INTEGER', 'BLOB', 'REAL'], 'find_sqltype')
    with t.raises(Exception, msg='unknown type'):
        sql.find_sqltype({})
    h = [(c, str(r.choice(SPELL[x]))) for c, x in zip(cols, ty)]
    with t.unchanged(h=h):
        t.eq(sql.fix_sql_header(h), list(zip(cols, ty)), 'fix_sql_header')


@sub(D(**ROWS, name=pick(['foo.db', 'foo.sqlite', 'foo.sqlite3', 'foo', 'dir.db/foo.db', 'bad.db', 'base.sqlite', 'e.sqlite3']), mode=pick(['a', 'w', None]), second=pick([None, 'same', 'subset', 'perm', 'bad', 'type', 'w', 'table']),
         close=pick([None, False])), quick=200, thorough=4000)
def make_database(case, t):
    r = rng(case)
    ty, rows = matrix(r, case['ncol'], case['nrow'])
    cols = ['k%d' % i for i in range(len(ty))]
    tn = os.path.basename(case['name']).split('.')[0]
    with tmpdir() as d:
        fn = os.path.join(d, case['name'])
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        kw = {k: case[k] for k in ('mode', 'close') if case[k] is not None}
        table = None if case['name'] != 'foo' else tn
        if table is None and r.random() < .3:
            kw['table'] = tn
        if table:
            with t.raises(AssertionError, msg='no table name'):
                sql.makedb(fn, rows, cols)
            kw['table'] = table
        with t.raises(AssertionError, msg='colnames'):
            sql.makedb(fn, rows, cols + ['z'], table=tn)
        with t.unchanged(rows=rows, cols=cols):
            db = sql.makedb(fn, rows, cols, **kw)
        t.nontrivial()
        if case['close'] is False:
            t.eq(db.get_list1d('select k0 from %s' % tn), [x[0] for x in rows], 'db is open')
        else:
            with t.raises(sqlite3.ProgrammingError, msg='db is closed'):
                db.get_list1d('select k0 from %s' % tn)
        want = [tuple(x) for x in rows]
        more = [[value(r, x, 0) for x in ty] for _ in range(2)]
        s = case['second']
        other = None
        if s in ('same', 'w'):
            sql.makedb(fn, more, cols, table=tn, mode='w' if s == 'w' else 'a')
            want = ([] if s == 'w' else want) + [tuple(x) for x in more]
        elif s == 'subset':
            sql.makedb(fn, [x[-1:] for x in more], cols[-1:], table=tn)
            want += [tuple([None] * (len(ty) - 1) + x[-1:]) for x in more]
        elif s == 'perm':
            p = r.permutation(len(ty))
            sql.makedb(fn, [[x[i] for i in p] for x in more], [cols[i] for i in p], table=tn)
            want += [tuple(x) for x in more]
        elif s == 'bad':
            with t.raises(AssertionError, msg='unknown column'):
                sql.makedb(fn, more, cols[:-1] + ['zz'], table=tn)
        elif s == 'type':
            w = dict(INTEGER='x', REAL=1, TEXT=1.0)[ty[0]]
            with t.raises(AssertionError, msg='type differs'):
                sql.makedb(fn, [[w] + x[1:] for x in more], cols, table=tn)
        elif s == 'table':
            sql.makedb(fn, more, cols, table='bar')
            other = [tuple(x) for x in more]
        if case['close'] is False:
            db.finish()
        con = sqlite3.connect(fn)
        got = con.execute('select * from %s order by rowid' % tn).fetchall()
        t.ok(len(got) == len(want) and all(all(sametyped(a, b) for a, b in zip(x, y)) for x, y in zip(got, want)), 'rows %s, expected %s' % (short(got), short(want)))
        t.eq([(x[1], x[2]) for x in con.execute('pragma table_info(%s)' % tn)], list(zip(cols, ty)), 'header')
        t.eq(sorted(x[0] for x in con.execute("select name from sqlite_master where type='table'")), sorted(['bar', tn] if other else [tn]), 'tables')
        if other:
            t.ok(con.execute('select * from bar order by rowid').fetchall() == other, 'second table')
        con.close()


@sub(D(seed=seeds, n=sizes(1, 8, 130, 1100), k=ints(1, 4), ex=bools), quick=150, thorough=2000)
def deleted_rows(case, t):
    """rows are numbered by rowid: after deleting rows, the maximum is no longer the number of rows"""
    r = rng(case)
    n = case['n']
    db = sql.SQLiteDB(':memory:', table=None if case['ex'] else 'calc')
    kw = dict(table='calc') if case['ex'] else {}
    db.create_table([('a', 'INTEGER'), ('b', 'TEXT')], table='calc')
    t.eq(db.get_max_rowid(**kw), 0, 'empty table')
    for i in range(n):
        db.execute('insert into calc (a) values (?)', (i,))
    keep = sorted(int(x) for x in r.permutation(n)[:int(r.integers(0, n + 1))])
    for i in range(n):
        if i not in keep:
            db.execute('delete from calc where a=?', (i,))
    mx = keep[-1] + 1 if keep else 0
    t.nontrivial(len(keep) < mx)
    t.eq(db.get_max_rowid(**kw), mx, 'largest rowid')
    vals = ['v%i' % i for i in range(case['k'])]
    db.fill_column('b', vals, start=mx + 1, **kw)
    want = [(i + 1, i, None) for i in keep] + [(mx + 1 + i, None, v) for i, v in enumerate(vals)]
    t.eq(db.execute('select rowid, a, b from calc order by rowid').fetchall(), want, 'values appended after the last row')
    db.finish()
    db.conn.close()

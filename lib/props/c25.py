from pv import *
import io as _io, contextlib as _c, subprocess, stat
from pwtools import common

RULE = ('random template texts made of literal pieces (placeholder-like fragments, regex and % specials, unicode, newlines) and placeholders (also such that one is the start of another, or '
        'occurs in a value), all option combinations; histories of file/dir backups with edits between them; non-trivial if something was replaced or backed up')
NOTE = 'files are text with \\n line ends (file_read is documented as open(fn).read())'

LIT = ['', ' ', '\n', '\t', ' = ', 'xxxa', ' XXX', '\\1', '\\', '\\g<0>', ' %', '%%', '%(', '$x', '{a}', '[a-z]+', '(', '*', 'ä€', '&x', '/path/to', "'", '"', ' XX', '#', '.*', '\n\n', '^', '|']
VALS = ['', '1', 'XXXA', 'XXXAB', '@b@', '\\1', '\\g<0>', '%(a)s', '&', 'two\nlines', 'ä', '$(x)', 'a|b', 'XXXA@b@', '%', '\\n']
KEYS = ['XXXA', 'XXXAB', 'XXXABC', '@b@', '@bb@', 'a.b', '<x>', '$k', '(p)', '[q]', 'foo bar', 'ü!', 'x+', '^z$', 'K|L']


def quiet(f, *a, **kw):
    buf = _io.StringIO()
    with _c.redirect_stdout(buf):
        r = f(*a, **kw)
    return r, buf.getvalue()


def build(r, keys, n):
    """tokens; no literal joined with its neighbours makes up another placeholder"""
    tok = []
    for _ in range(n):
        if r.random() < .5 and keys:
            tok.append((1, str(r.choice(keys))))
        else:
            tok.append((0, str(r.choice(LIT))))
    return tok


def clean(tok, keys):
    txt = ''.join(x for _, x in tok)
    # number of leftmost-longest matches at token borders must explain all occurrences of all keys
    spans, pos = set(), 0
    cover = []
    for k, x in tok:
        if k:
            cover.append((pos, pos + len(x)))
        pos += len(x)
    for key in keys:
        i = txt.find(key)
        while i >= 0:
            if not any(a <= i and i + len(key) <= b for a, b in cover):
                return False
            i = txt.find(key, i + 1)
    return True


@sub(D(seed=seeds, n=sizes(0, 14, 60, 300), nk=ints(0, 7), conv=bools, wm=bools, wn=bools, disp=bools, via=pick(['func', 'func', 'file', 'filebak'])), quick=500, thorough=10000)
def text_mode(case, t):
    r = rng(case)
    keys = [str(k) for k in r.permutation(KEYS)[:case['nk']]]
    extra = [k for k in KEYS if k not in keys and not any(k.startswith(q) or q.startswith(k) for q in keys)]
    tok = build(r, keys + extra[:2], case['n'])
    allk = keys + extra[:2]
    if not clean(tok, allk):
        t.skip()
    txt = ''.join(x for _, x in tok)
    dct = {}
    for k in keys:
        v = str(r.choice(VALS))
        if case['conv'] and r.random() < .5:
            v = [1, 0, -3, 0.1, 1e300, None, True, [1, 'a'], (1.5,), np.float64(2.5)][int(r.integers(10))]
        dct[k] = v
    s = {k: v if isinstance(v, str) else '%.16e' % v if isinstance(v, float) else repr(v) for k, v in dct.items()}
    exp = ''.join(s.get(x, x) if k else x for k, x in tok)
    kw = dict(conv=case['conv'], warn_mult_found=case['wm'], warn_not_found=case['wn'], disp=case['disp'], mode='txt')
    doc = dict(conv=False, warn_mult_found=True, warn_not_found=True, disp=True)
    kw = {k: v for k, v in kw.items() if doc.get(k) != v or r.random() < .3}
    used = [k for k in keys if k in txt]
    t.nontrivial(bool(used))
    with t.unchanged(dct=dct):
        if case['via'] == 'func':
            got, out = quiet(common.template_replace, txt, dct, **kw)
        else:
            with tmpdir() as d:
                fn = os.path.join(d, 'a b.txt')
                open(fn, 'w').write(txt)
                os.chmod(fn, 0o640)
                bak = '' if case['via'] == 'file' else '.bak'
                if bak and r.random() < .5:
                    open(fn + bak, 'w').write('an older backup\n' * 9)
                _, out = quiet(common.file_template_replace, fn, dct, *([bak] if bak or r.random() < .3 else []), **kw)
                got = open(fn).read()
                t.eq(sorted(os.listdir(d)), ['a b.txt'] + (['a b.txt.bak'] if bak else []), 'files')
                if bak:
                    t.eq(open(fn + bak).read(), txt, 'backup file')
                t.eq(stat.S_IMODE(os.stat(fn).st_mode), 0o640, 'mode of the file')
    t.eq(got, exp, 'text')
    t.ok(isinstance(got, str), 'type')
    # reporting
    if not (case['wm'] or case['wn'] or case['disp']):
        t.eq(out, '', 'silent')
    if case['wn']:
        for k in keys:
            if k not in txt:
                t.ok(k in out, 'placeholder %r is not in the text but not reported' % k)
    elif not case['disp'] and not case['wm']:
        pass
    if not case['wn'] and not case['disp']:
        t.ok(bool(out) == (case['wm'] and any(txt.count(k) > 1 for k in used)), 'report of multiple placeholders: %r' % out)
    if not case['wm'] and not case['disp']:
        t.ok(bool(out) == (case['wn'] and len(used) < len(keys)), 'report of missing placeholders: %r' % out)


@sub(D(seed=seeds, n=ints(0, 12)), quick=200, thorough=3000)
def dict_mode(case, t):
    r = rng(case)
    fm = {'a': ('%(a)s', 'x\n%y'), 'b': ('%(b)i', 7), 'pi': ('%(pi).16e', 3.14159), 'l': ('%(l)r', ['q']), 'no space': ('%(no space)5s', 'z')}
    keys = [k for k in fm if r.random() < .7]
    txt, exp = '', ''
    for _ in range(case['n']):
        if keys and r.random() < .5:
            k = str(r.choice(keys))
            txt += fm[k][0]
            exp += fm[k][0].replace('(%s)' % k, '') % (fm[k][1],)
        else:
            l = str(r.choice([x for x in LIT if '%' not in x]))
            txt += l + '%%'
            exp += l + '%'
    dct = {k: fm[k][1] for k in keys}
    if r.random() < .5:
        dct['unused'] = 1
    t.nontrivial(txt != exp)
    got, out = quiet(common.template_replace, txt, dct)
    t.eq(got, exp, 'text')
    t.ok(('unused' in out) == ('unused' in dct), 'missing key reported')
    t.eq(quiet(common.template_replace, txt, dct, mode='dct', warn_mult_found=False, warn_not_found=False, disp=False), (exp, ''), 'quiet')


@sub(D(seed=seeds, v=pick(['int', 'float', 'none', 'list']), what=pick(['val', 'mode', 'order', 'missing'])), quick=60, thorough=300)
def rejects(case, t):
    v = dict(int=1, float=1.5, none=None, list=['a'])[case['v']]
    t.nontrivial()
    if case['what'] == 'val':
        with t.raises(msg='value is no string and conv=False'):
            quiet(common.template_replace, 'a XXXA', {'XXXA': v}, mode='txt')
        t.eq(quiet(common.template_replace, 'a XXB', {'XXXA': v}, mode='txt')[0], 'a XXB', 'nothing to be replaced')
    elif case['what'] == 'mode':
        with t.raises(msg='illegal mode'):
            quiet(common.template_replace, 'a', {'a': 'b'}, mode='text')
    elif case['what'] == 'order':
        with t.raises(ValueError, msg='dict as text'):
            quiet(common.template_replace, {'a': 'b'}, 'a', mode='txt')
    else:
        with t.raises(KeyError, msg='placeholder without value in dct mode'):
            quiet(common.template_replace, '%(a)s %(b)s', {'a': v})


def snap(path):
    if os.path.isdir(path):
        out = {}
        for root, dirs, files in os.walk(path, followlinks=True):
            rel = os.path.relpath(root, path)
            out[rel] = None
            for f in files:
                p = os.path.join(root, f)
                out[os.path.normpath(os.path.join(rel, f))] = (open(p, 'rb').read(), stat.S_IMODE(os.stat(p).st_mode))
        return out
    return (open(path, 'rb').read(), stat.S_IMODE(os.stat(path).st_mode))


@sub(D(seed=seeds, kind=pick(['file', 'dir', 'symfile', 'symdir']), name=pick(['a', 'a b.txt', '.hidden', 'ä$x']), prefix=pick([None, '.', '-bak', '']), ops=st.lists(pick(['backup', 'backup', 'edit', 'occupy', 'remove']), min_size=1, max_size=14), rel=bools), quick=250, thorough=4000)
def backups(case, t):
    r = rng(case)
    cwd = os.getcwd()
    with tmpdir() as d:
        if case['rel']:
            os.chdir(d)
        try:
            real = os.path.join(d, 'real')
            name = case['name']
            src = name if case['rel'] else os.path.join(d, name)
            full = os.path.join(d, name)
            tgt = full
            if case['kind'].startswith('sym'):
                tgt = os.path.join(d, 'real target')
                os.symlink(tgt, full)

            def write():
                c = r.bytes(int(r.integers(0, 2000)))
                if case['kind'].endswith('file'):
                    open(tgt, 'wb').write(c)
                    os.chmod(tgt, int(r.choice([0o644, 0o755, 0o600])))
                else:
                    shutil.rmtree(tgt, ignore_errors=True)
                    os.makedirs(os.path.join(tgt, 'sub', 'empty'))
                    open(os.path.join(tgt, 'sub', 'f'), 'wb').write(c)
                    if r.random() < .5:
                        open(os.path.join(tgt, 'g h'), 'w').write('x')
                        os.symlink('g h', os.path.join(tgt, 'link'))
            write()
            pre = '.' if case['prefix'] is None else case['prefix']
            kw = {} if case['prefix'] is None else dict(prefix=pre)
            have, cnt = {}, 0
            for op in case['ops']:
                before = set(os.listdir(d))
                if op == 'edit':
                    write()
                elif op == 'occupy':
                    k = int(r.integers(0, 6))
                    p = full + pre + str(k)
                    if not os.path.exists(p):
                        open(p, 'w').write('mine %i' % k)
                        have[os.path.basename(p)] = snap(p)
                elif op == 'remove':
                    if have:
                        b = sorted(have)[int(r.integers(len(have)))]
                        p = os.path.join(d, b)
                        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
                        del have[b]
                else:
                    now = snap(full)
                    common.backup(src, **kw)
                    cnt += 1
                    new = set(os.listdir(d)) - before
                    t.eq(len(new), 1, 'one new entry')
                    k = 0
                    while name + pre + str(k) in have:
                        k += 1
                    b = name + pre + str(k)
                    t.eq(new, {b}, 'name of the backup')
                    t.ok(not os.path.islink(os.path.join(d, b)), 'backup of a link is a copy')
                    t.eq(snap(os.path.join(d, b)), now, 'content of the backup')
                    t.eq(snap(full), now, 'source unchanged')
                    have[b] = now
                for b in have:
                    t.eq(snap(os.path.join(d, b)), have[b], 'earlier backup %s' % b)
            t.nontrivial(cnt > 1)
            n = sorted(os.listdir(d))
            common.backup(os.path.join(d, 'not there'))
            t.eq(sorted(os.listdir(d)), n, 'missing source is ignored')
        finally:
            os.chdir(cwd)


@sub(D(lines=st.lists(st.text(alphabet=st.characters(blacklist_categories=['Cs'], blacklist_characters='\r\n\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'), max_size=20), max_size=8), end=bools, pre=bools), quick=200, thorough=3000)
def files(case, t):
    txt = '\n'.join(case['lines']) + ('\n' if case['end'] else '')
    t.nontrivial(len(txt) > 1)
    with tmpdir() as d:
        fn = os.path.join(d, 'f')
        if case['pre']:
            open(fn, 'w').write('x' * 500)
        common.file_write(fn, txt)
        t.eq(open(fn, newline='').read(), txt, 'file_write')
        t.eq(common.file_read(fn), txt, 'file_read')
        t.eq(common.file_readlines(fn), [x + '\n' for x in txt.split('\n')[:-1]] + ([txt.split('\n')[-1]] if txt.split('\n')[-1] else []), 'file_readlines')


@sub(D(parts=st.lists(pick(['a', 'b c', '..', '.', '~', '', '/tmp', 'x.y']), min_size=1, max_size=4)), quick=150, thorough=1000)
def paths(case, t):
    p = os.path.join(*case['parts'])
    t.nontrivial(len(p) > 1)
    exp = p
    if p == '~' or p.startswith('~/'):
        exp = os.environ.get('HOME', os.path.expanduser('~')) + p[1:]
    if not exp.startswith('/'):
        exp = os.getcwd() + '/' + exp
    out = []
    for x in exp.split('/'):
        if x == '..':
            out = out[:-1]
        elif x not in ('', '.'):
            out.append(x)
    exp = '/' + '/'.join(out)
    t.eq(common.fullpath(p), exp, 'fullpath')
    t.eq(common.fullpathjoin(*case['parts']), exp, 'fullpathjoin')
    t.eq(common.fpj(*case['parts']), exp, 'fpj')
    t.eq(common.pj(*case['parts']), p, 'pj')
    with tmpdir() as d:
        q = os.path.join(d, 'x', 'y y')
        common.makedirs(q)
        open(os.path.join(q, 'f'), 'w').write('a')
        common.makedirs(q)
        common.makedirs('')
        common.makedirs('  ')
        t.eq(open(os.path.join(q, 'f')).read(), 'a', 'makedirs keeps content')
        with open(os.path.join(q, 'f')) as fh:
            t.eq(common.get_filename(fh), os.path.join(q, 'f'), 'get_filename')
        t.ok(isinstance(common.get_filename(_io.StringIO()), str), 'dummy name')


@sub(D(txt=st.text(alphabet='abc äÄ.=-_', min_size=0, max_size=20), rc=ints(0, 3), err=bools), quick=40, thorough=300)
def processes(case, t):
    import shlex
    t.nontrivial()
    q = shlex.quote(case['txt'] + '\n2')
    t.eq(common.backtick("printf %%s %s; exit %i" % (q, case['rc'])), case['txt'] + '\n2', 'stdout')
    if case['err']:
        with t.raises(msg='output on stderr'):
            common.backtick("echo a; echo %s >&2" % q)
    t.eq(common.backtick("yes | head -n2"), 'y\ny\n', 'no broken pipe error')
    with tmpdir() as d:
        fn = os.path.join(d, 'o')
        cmd = 'printf %%s %s > %s; exit %i' % (q, shlex.quote(fn), case['rc'])
        if case['rc']:
            with t.raises(subprocess.CalledProcessError, msg='non-zero exit code'):
                common.system(cmd)
        else:
            common.system(cmd)
        t.eq(open(fn).read(), case['txt'] + '\n2', 'system() waits')
        with t.raises(msg='wait=False'):
            common.system('true', wait=False)

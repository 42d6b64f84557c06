"""Writes DESIGN.md from tools/design_head.md, properties.jsonl, the property modules, seeded/ and known_findings.jsonl."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
orac = {}
cur = None
for l in open(V + '/tools/design_oracles.txt'):
    m = re.match(r'(C\d\d): (.*)', l)
    if m:
        cur = m.group(1)
        orac[cur] = m.group(2).strip()
    elif l.strip():
        orac[cur] += ' ' + l.strip()
o = [open(V + '/tools/design_head.md').read().rstrip() + '\n']
o.append('\n## 5. Properties, one by one\n')
for p in props:
    i = p['id']
    f = V + '/lib/props/%s.py' % i.lower()
    d = {}
    src = open(f).read()
    t = ast.parse(src)
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'NOTE', 'ASSUMPTIONS'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    subs = [n.name for n in t.body if isinstance(n, ast.FunctionDef) and any('sub(' in ast.unparse(x)[:5] for x in n.decorator_list)]
    o.append('### %s %s\n' % (i, p['title']))
    o.append('* Generated: %s.' % d['RULE'].rstrip('.'))
    o.append('* Oracle: %s' % orac.get(i, ''))
    o.append('* Sub-checks (lib/props/%s.py): %s.' % (i.lower(), ', '.join(subs)))
    o.append('* Beyond the tests: %s.' % p['why_tests_cant'])
    if d.get('NOTE'):
        o.append('* Bounds: %s.' % d['NOTE'])
    if d.get('ASSUMPTIONS'):
        o.append('* Assumptions: %s.' % '; '.join(d['ASSUMPTIONS']))
    o.append('')
o.append(open(V + '/tools/design_tail.md').read().rstrip() + '\n')
o.append('\n## 8. Planted bugs\n\nEach passes the stable tests; "caught by" is the sub-check which reports it in the quick tier (tools/sweep_seeded.py).\n')
o.append('| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
c = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
for s in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(s + '/meta.json'))
    k = os.path.basename(s)
    x = c.get(k)
    o.append('| %s | %s | %s | %s | %s |' % (k, m['property'], m['what_it_breaks'], m['needs'], ', '.join(x['subs']) if x and x['rc'] == 1 else 'MISSED' if x else '?'))
o.append('\n## 9. Defects found and repaired\n\nOne "fix:" commit each in /repo; the check named reports it again when the commit is reverted (see 4).\n')
for l in open(V + '/known_findings.jsonl'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        o.append('* %s %s %s' % m.groups())
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
print(len(o), 'blocks')

"""Write MANIFEST.json (and properties.jsonl) from tools/properties_src.py and the modules present."""
import json, os, runpy, ast
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.dirname(here)
P = runpy.run_path(os.path.join(here, 'properties_src.py'))['P']
with open(os.path.join(top, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
checks, na = [], []
for d in P:
    pid = d['id']
    mod = os.path.join(top, 'lib', 'props', pid.lower() + '.py')
    if not os.path.exists(mod):
        na.append(dict(property=pid, reason='no check has been built yet'))
        continue
    tree = ast.parse(open(mod).read())
    consts = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('RULE', 'TECHNIQUE', 'NOTE'):
            consts[n.targets[0].id] = ast.literal_eval(n.value)
    nsub = sum(any('sub' == getattr(getattr(x, 'func', None), 'id', '') for x in n.decorator_list)
               for n in tree.body if isinstance(n, ast.FunctionDef))
    checks.append(dict(
        property=pid,
        quick_cmd='python3 check.py %s --tier quick' % pid,
        thorough_cmd='python3 check.py %s --tier thorough' % pid,
        technique=consts.get('TECHNIQUE', 'property-based testing (Hypothesis) against an independent oracle'),
        level='exploration',
        level_note=consts.get('NOTE', '%d generated-input sub-checks against explicit oracles (reference model, round trip, '
                              'metamorphic or differential relation) run on the real code; no proof: only the explored '
                              'inputs are covered, numeric comparisons trust numpy/scipy up to the stated tolerances.' % nsub)))
m = dict(version=1, setup_cmd='python3 -m compileall -q lib check.py', checks=checks, not_applicable=na,
         notes='See DESIGN.md. Replay a failure: python3 check.py ID --replay replays/FILE')
with open(os.path.join(top, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
print(len(checks), 'checks,', len(na), 'without')

"""python3 dev/gen_manifest.py: MANIFEST.json from the check modules"""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {'translation_validation': 'symbolic execution of the real QNET code on symbolic operands; z3 decides entrywise '
                                  'equality with a reference semantics (translation validation per expression shape)',
        'model_checking': 'dynamic symbolic execution of the real Python functions on symbolic integers, all paths within '
                          'bounds, z3 decides each assertion'}
checks, have = [], set()
for f in sorted(glob.glob(V + '/checks/c[0-9]*.py')):
    m = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                m[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    p = m['PROPERTY']
    have.add(p)
    b = m['BOUNDS']
    b = b if isinstance(b, str) else 'quick: %s; thorough: %s' % (b['quick'], b['thorough'])
    cmd = '/opt/venv/bin/python -W ignore -m %s --tier ' % m['MODULE']
    checks.append(dict(property=p, quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
                       technique=m.get('TECHNIQUE', TECH.get(m['LEVEL'])), level=m['LEVEL'],
                       level_note='bounded: ' + b + '; nothing is claimed outside these bounds'))
NA = json.load(open(V + '/dev/not_applicable.json'))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
na = [dict(property=p, reason=NA.get(p, 'check not built yet')) for p in props if p not in have]
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])

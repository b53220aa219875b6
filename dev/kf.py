"""dev/kf.py find PROP 'what' CASE...  |  dev/kf.py fixed PROP COMMIT 'what'"""
import json, sys
P = '/verif/known_findings.json'
d = json.load(open(P))
if sys.argv[1] == 'find':
    for c in sys.argv[4:]:
        d['findings'] = [f for f in d['findings'] if (f['property'], f['case']) != (sys.argv[2], c)]
        d['findings'].append(dict(property=sys.argv[2], case=c, what=sys.argv[3]))
else:
    d['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[2:5]))
json.dump(d, open(P, 'w'), indent=1)

"""slow.py ID...: the slowest jobs, and those without an answer, of the last run"""
import json, sys
c = json.load(open('/verif/costs.json'))
for p in sys.argv[1:]:
    d = json.load(open('/verif/evidence/%s.json' % p))['coverage']
    names = [u['job'] for u in d['bounds'] + d['undecided']]
    t = sorted(((c.get(n.replace(' ', '|'), -1), n) for n in names), reverse=True)
    print(p, 'total', round(sum(max(0, x) for x, _ in t)), 'jobs', len(t), 'vacuous', len(d['without_edge_or_vacuous']))
    for x, n in t[:25]: print('  ', x, n)
    for u in d['undecided']: print('   ?', u)

#!/usr/bin/env python3
"""audit.py PROFILE N K: alter one place of each result; which places does no property notice?"""
import sys, os, json, shutil
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import runner
prof, n, k = sys.argv[1].split(','), int(sys.argv[2]), int(sys.argv[3])
r = runner.Run('ALL', 'quick', int(os.environ.get('VERIF_SEED', '1')))
try:
    d = r.build()
    pf = r.path('paths')
    r.pipeline([('random', w, n) for w in prof], d, cmd='audit', extra=[k, pf])
    paths = json.load(open(pf))
    bad = {x['case']['id']: x['slices'] for _, x in r.fails}
    tot, hit, by = Counter(), Counter(), {}
    for i, p in enumerate(paths):
        if p:
            tot[p] += 1
            if i + 1 in bad:
                hit[p] += 1
                by.setdefault(p, Counter()).update(s.split('/')[0].strip(' {}"') for s in bad[i + 1].split(','))
    for p in sorted(tot):
        print('%5d %5.2f %s   %s' % (tot[p], hit[p] / tot[p], p, dict(by.get(p, Counter()).most_common(4))))
finally:
    shutil.rmtree(r.work)

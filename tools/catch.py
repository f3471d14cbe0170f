#!/usr/bin/env python3
"""Which checks catch which planted bugs?

catch.py [-j N] [-all] [-seeds 1,2] [ids...]   Each bug in a scratch copy of /repo, against the quick
check of its property (-all: of every property), run from a scratch copy of /verif.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ['P%02d' % i for i in range(1, 29)]


def scratch(patch):
    tmp = tempfile.mkdtemp(prefix='catch.')
    subprocess.check_call(['cp', '-a', '/repo', tmp + '/repo'])
    if patch:
        subprocess.check_call(['git', '-C', tmp + '/repo', 'apply', patch])
    os.mkdir(tmp + '/verif')
    for d in ('spec', 'drv', 'lib', 'bin', 'known_findings.txt'):
        subprocess.check_call(['cp', '-a', VERIF + '/' + d, tmp + '/verif'])
    m = tmp + '/verif/drv/go.mod'
    t = open(m).read()
    assert '=> /repo' in t
    open(m, 'w').write(t.replace('=> /repo', '=> ' + tmp + '/repo'))
    return tmp


def one(bid, props, seeds):
    d = os.path.join(VERIF, 'seeded', bid)
    tmp = scratch(d + '/patch.diff' if os.path.exists(d + '/patch.diff') else (bid if os.path.exists(bid) else None))
    res = {}
    try:
        for p in props:
            for s in seeds:
                t0 = time.time()
                r = subprocess.run([tmp + '/verif/bin/check', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True, env=dict(os.environ, VERIF_SEED=str(s), VERIF_REPO=tmp + '/repo'))
                m = re.findall(r'broken: (.*)', r.stdout)
                res[p, s] = (r.returncode, (m[0] if m else r.stdout.strip().splitlines()[-1])[:200] if r.returncode else '',
                             time.time() - t0)
    finally:
        shutil.rmtree(tmp)
    return bid, res


def main(a):
    j, every, seeds, ids, props = 1, False, [1], [], None
    while a:
        x = a.pop(0)
        if x == '-j':
            j = int(a.pop(0))
        elif x == '-all':
            every = True
        elif x == '-p':
            props = a.pop(0).split(',')
        elif x == '-seeds':
            seeds = a.pop(0).split(',')
        else:
            ids.append(x)
    ids = ids or sorted(os.listdir(VERIF + '/seeded'))
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        fs = []
        for b in ids:
            mp = os.path.join(VERIF, 'seeded', b, 'meta.json')
            own = [json.load(open(mp))['property']] if os.path.exists(mp) else []
            fs.append(ex.submit(one, b, props or (ALL if every or not own else own), seeds))
        for f in concurrent.futures.as_completed(fs):
            bid, res = f.result()
            for (p, s), (rc, why, t) in sorted(res.items()):
                print(bid, p, 's%s' % s, {0: 'quiet', 1: 'CAUGHT'}.get(rc, 'RC %d' % rc), '%.0fs' % t, why, flush=True)


main(sys.argv[1:])

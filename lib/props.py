"""What each check explores."""
import os, re, time

from runner import Died

# property -> (plan of the quick tier, profiles of the thorough tier)
R = 'random'
L = 'lit'
PLACES = range(1, 16)    # of the family 'words'
PIPE = {
    'P01': ([('calls', 1, 0), ('calls', 2, 2000), ('items', 2, 0), ('deep', 30, 0), ('edit', 0, 0), ('glue', 0, 0), (R, 'all', 1000), (R, 'syntax', 700), (R, 'wild', 200), (R, 'subs', 200), (R, 'big', 100)],
            [('calls', 2, 0), ('items', 3, 0), ('scope', 1, 0), ('deep', 48, 0), ('edit', 0, 0), ('glue', 0, 0), (R, 'all', 3000), (R, 'syntax', 3000), (R, 'wild', 1000), (R, 'subs', 800), (R, 'big', 400)]),
    'P04': ([('calls', 1, 0), ('calls', 2, 3000), ('tail', 1, 0), ('deep', 12, 0), ('tail', 2, 8000), ('edit', 0, 0), ('glue', 0, 0), (R, 'syntax', 6000), (R, 'wild', 1000)]
            + [('words', 10 * p + n, 0) for p in PLACES for n in (1, 2, 3)] + [('words', 10 * p + 4, 1500) for p in PLACES]
            + [('words', 10 * p + 5, 700) for p in PLACES],
            [('calls', 2, 0), ('tail', 2, 0), ('deep', 24, 0), ('edit', 0, 0), ('glue', 0, 0), (R, 'syntax', 12000), (R, 'wild', 2000)]
            + [('words', 10 * p + n, 0) for p in PLACES for n in (1, 2, 3)] + [('words', 10 * p + 4, 8000) for p in PLACES]
            + [('words', 10 * p + 5, 3000) for p in PLACES]),
    'P05': ([('calls', 1, 0), ('items', 2, 0), ('items', 3, 1000), (R, 'clauses', 3000), (R, 'wild', 1500), (R, 'values', 800), (R, 'subs', 500), (R, 'big', 100)],
            [('calls', 2, 0), ('items', 3, 0), ('items', 4, 8000), (R, 'clauses', 5000), (R, 'wild', 5000), (R, 'values', 2000), (R, 'subs', 1500), (R, 'big', 400)]),
    'P06': ([('flat', 3, 0), ('flat', 4, 2000), ('tree', 3, 0), ('tree', 4, 1500), (R, 'cond', 2500), (R, 'subs', 300), (R, 'big', 60)],
            [('flat', 4, 0), ('flat', 5, 0), ('tree', 4, 0), (R, 'cond', 6000), (R, 'subs', 1000), (R, 'big', 240)]),
    'P07': ([('flat', 3, 0), ('flat', 4, 2500), (R, 'not', 3500), (R, 'subs', 300), (R, 'big', 60)],
            [('flat', 4, 0), ('flat', 5, 0), (R, 'not', 9000), (R, 'subs', 1000), (R, 'big', 240)]),
    'P08': ([('tree', 3, 0), ('tree', 4, 2500), (R, 'filter', 4000), (R, 'cor', 500), (R, 'big', 80)],
            [('tree', 4, 0), (R, 'filter', 9000), (R, 'cor', 2000), (R, 'subs', 1000), (R, 'big', 320)]),
    'P09': ([('tree', 3, 0), ('tree', 4, 2500), (R, 'filter', 3500), (R, 'cor', 500), (R, 'big', 80)],
            [('tree', 4, 0), (R, 'filter', 9000), (R, 'cor', 2000), (R, 'subs', 1000), (R, 'big', 320)]),
    'P10': ([('scope', 1, 0), ('scope', 2, 1500), ('nest', 1, 2000), ('nest', 2, 600), (R, 'names', 3500), (R, 'cor', 1500), (R, 'alias', 700), (R, 'agg', 700), (R, 'wild', 500), (R, 'big', 120)],
            [('scope', 2, 0), ('scope', 3, 10000), ('nest', 1, 0), ('nest', 2, 0), ('nest', 3, 10000), (R, 'names', 6000), (R, 'cor', 3000), (R, 'alias', 2000), (R, 'agg', 2000), (R, 'subs', 2000), (R, 'big', 480)]),
    'P11': ([('scope', 1, 0), ('scope', 2, 1500), ('nest', 1, 1000), (R, 'names', 4000), (R, 'subs', 1200), (R, 'clauses', 1000), (R, 'big', 120)],
            [('scope', 2, 0), ('scope', 3, 10000), ('nest', 1, 0), ('nest', 3, 10000), (R, 'names', 8000), (R, 'subs', 3000), (R, 'clauses', 3000), (R, 'big', 480)]),
    'P12': ([('nest', 1, 2000), ('items', 2, 0), ('items', 3, 1000), (R, 'subs', 2000), (R, 'cor', 1200), (R, 'alias', 1500), (R, 'agg', 1200), (R, 'big', 150)],
            [('nest', 1, 0), ('nest', 3, 0), ('items', 3, 0), ('items', 4, 8000), (R, 'subs', 5000), (R, 'cor', 3000), (R, 'alias', 4000), (R, 'agg', 3000), (R, 'big', 600)]),
    'P13': ([('scope', 1, 0), ('nest', 1, 2500), ('nest', 3, 1500), ('items', 2, 0), (R, 'names', 1500), (R, 'cor', 2500), (R, 'subs', 1000), (R, 'agg', 1000), (R, 'big', 150)],
            [('scope', 2, 0), ('nest', 1, 0), ('nest', 2, 0), ('nest', 3, 0), ('items', 3, 0), (R, 'names', 4000), (R, 'cor', 6000), (R, 'subs', 3000), (R, 'agg', 3000), (R, 'big', 600)]),
    'P14': ([('nest', 1, 1500), ('nest', 2, 500), ('nest', 3, 1500), (R, 'subs', 2500), (R, 'cor', 1200), (R, 'names', 1200), (R, 'big', 120)],
            [('nest', 1, 0), ('nest', 2, 0), ('nest', 3, 0), (R, 'subs', 7000), (R, 'cor', 3000), (R, 'names', 3000), (R, 'big', 480)]),
    'P15': ([('nest', 1, 1000), ('scope', 2, 1000), ('tree', 3, 0), (R, 'filter', 3500), (R, 'subs', 1200), (R, 'cor', 600), (R, 'big', 100)],
            [('nest', 1, 0), ('nest', 3, 0), ('scope', 2, 0), ('tree', 4, 0), (R, 'filter', 8000), (R, 'subs', 4000), (R, 'cor', 2000), (R, 'big', 400)]),
    'P16': ([('calls', 1, 0), ('items', 2, 0), ('items', 3, 2000), (R, 'agg', 5000), (R, 'alias', 800), (R, 'big', 120)], [('calls', 2, 0), ('items', 3, 0), ('items', 4, 10000), (R, 'agg', 12000), (R, 'alias', 3000), (R, 'big', 480)]),
    'P17': ([('calls', 1, 0), ('calls', 2, 1500), ('nest', 3, 500), (R, 'values', 2500), (R, 'subs', 1500), (R, 'agg', 800), (R, 'big', 80)],
            [('calls', 2, 0), ('nest', 3, 5000), (R, 'values', 7000), (R, 'subs', 4000), (R, 'agg', 3000), (R, 'big', 320)]),
    'P18': ([('calls', 1, 0), ('nest', 3, 600), (R, 'values', 1500), (R, 'subs', 700), (R, 'all', 700), (R, 'big', 60)],
            [('calls', 2, 0), ('nest', 3, 6000), ('scope', 2, 6000), (R, 'values', 5000), (R, 'subs', 2500), (R, 'all', 3000), (R, 'big', 240)]),
    'P19': ([('calls', 1, 0), ('calls', 2, 300), (R, 'all', 1200), (R, 'wild', 500), (R, 'clauses', 500), (R, 'values', 500), (R, 'syntax', 500), (R, 'big', 60)],
            [('calls', 2, 0), ('items', 2, 0), (R, 'all', 4000), (R, 'wild', 2000), (R, 'clauses', 2000), (R, 'values', 2000), (R, 'syntax', 2000), (R, 'big', 240)]),
    'P20': ([(L, 'pair', 2000), (L, 'date', 4000), (L, 'number', 3000), (L, 'radix', 0), (L, 'clock', 2000),
             (L, 'string', 1500), (L, 'int', 500), (L, 'float', 800), (L, 'hex', 200), (L, 'datetime', 2500),
             (L, 'datetime2', 800), (L, 'time', 800), (L, 'word', 300)],
            [(L, 'pair', 0), (L, 'date', 0), (L, 'number', 0), (L, 'clock', 0), (L, 'string', 8000), (L, 'int', 2000),
             (L, 'float', 4000), (L, 'hex', 1000), (L, 'datetime', 12000), (L, 'datetime2', 4000), (L, 'time', 3000),
             (L, 'word', 500)]),
    'P21': ([('nest', 1, 6000), ('nest', 2, 1500), ('nest', 3, 5000), (R, 'cor', 4000)], [('nest', 1, 0), ('nest', 2, 0), ('nest', 3, 0), (R, 'cor', 10000), (R, 'subs', 2000)]),
    'P24': ([('scope', 1, 0), ('nest', 1, 600), (R, 'names', 500), (R, 'subs', 250), (R, 'cor', 250), (R, 'values', 250), (R, 'all', 300), (R, 'big', 20)],
            [('scope', 2, 8000), ('nest', 1, 6000), ('nest', 3, 3000), (R, 'names', 2000), (R, 'subs', 1500), (R, 'cor', 1500), (R, 'values', 1500),
             (R, 'all', 2000), (R, 'big', 100)]),
    'P26': ([('tree', 3, 0), ('tree', 4, 1500), ('scope', 1, 0), ('nest', 1, 1000), (R, 'filter', 2500), (R, 'names', 600), (R, 'subs', 600), (R, 'cor', 800), (R, 'big', 60)],
            [('tree', 4, 0), ('scope', 2, 0), ('nest', 1, 8000), ('nest', 3, 6000), (R, 'filter', 8000), (R, 'names', 2000), (R, 'subs', 3000), (R, 'cor', 3000), (R, 'big', 240)]),
    'P27': ([('calls', 1, 0), ('nest', 3, 150), (R, 'all', 400), (R, 'values', 400), (R, 'clauses', 150), (R, 'agg', 150), (R, 'wild', 150), (R, 'subs', 100), (R, 'big', 10)],
            [('calls', 2, 4000), ('items', 2, 0), ('nest', 3, 3000), (R, 'all', 2000), (R, 'values', 2000), (R, 'clauses', 1000), (R, 'agg', 1000), (R, 'wild', 1000), (R, 'subs', 800), (R, 'big', 80)]),
    'P28': ([('calls', 1, 0), ('items', 2, 100), (R, 'all', 1500), (R, 'clauses', 500), (R, 'subs', 300), (R, 'values', 300), (R, 'agg', 300), (R, 'wild', 500), (R, 'big', 20)],
            [('calls', 2, 4000), ('items', 2, 0), ('nest', 3, 3000), (R, 'all', 6000), (R, 'clauses', 3000), (R, 'subs', 2000), (R, 'values', 2000), (R, 'agg', 2000), (R, 'wild', 3000), (R, 'big', 80)]),
    'P22': ([('items', 2, 0), ('items', 3, 3000), (R, 'alias', 4000), (R, 'agg', 1000), (R, 'big', 120)], [('items', 3, 0), ('items', 4, 40000), (R, 'alias', 9000), (R, 'agg', 4000), (R, 'big', 480)]),
}
# texts that are judged character by character: property -> (profiles, cases in quick, in thorough, spoilt copies of each)
TEXT = {
    'P04': (['all', 'syntax', 'clauses', 'values', 'agg'], 1500, 6000, 3),
    'P05': (['all', 'clauses'], 500, 3000, 2),
    'P06': (['cond'], 400, 2000, 2), 'P07': (['not'], 400, 2000, 2),
    'P08': (['filter'], 400, 2000, 2), 'P09': (['filter'], 400, 2000, 2),
    'P10': (['names', 'cor', 'alias'], 800, 4000, 3), 'P11': (['names', 'subs'], 500, 3000, 2),
    'P12': (['subs', 'alias'], 500, 3000, 2), 'P13': (['names', 'cor'], 500, 3000, 2),
    'P14': (['subs', 'names'], 500, 3000, 2), 'P15': (['filter', 'subs'], 500, 3000, 2),
    'P16': (['agg'], 800, 4000, 3), 'P17': (['all', 'values'], 500, 2500, 2),
    'P21': (['cor'], 600, 3000, 3), 'P22': (['alias', 'agg'], 600, 3000, 2),
    'P24': (['all', 'names'], 300, 2000, 2), 'P26': (['filter'], 300, 2000, 2),
}
# models of how the library gets there: property -> (module, mistakes that TLC has to find)
DESIGN = {
    'P07': ('SoqlNegate', ['last', 'all']),
    'P08': ('SoqlPushdown', []),
    'P09': ('SoqlPushdown', ['weak']),
}
SCALE = {'P01': 1, 'P27': 1, 'P28': 1, 'P04': 1, 'P18': 2, 'P19': 2, 'P20': 1}
ASSUME = [
    'names and literals come from the finite vocabularies of spec/SoqlGen.tla',
    'object aliases are distinct from object and relationship names',
]


def texts(run, drv, seed, col):
    t = TEXT.get(run.prop)
    if t and not run.fails:
        run.pipeline([(R, w, t[col] // len(t[0])) for w in t[0]], drv, seed=seed, cmd='text', extra=[t[3]], batch=40)


def pipe(prop, cmd='pipe', extra=()):
    def go(run):
        quick, thorough = PIPE[prop]
        drv = run.build()
        run.assume = ASSUME
        if prop in DESIGN:
            mod, wrong = DESIGN[prop]
            run.model(mod, mod + '_quick' if run.tier == 'quick' else None)
            for v in wrong:
                run.model(mod, mod + '_' + v, violates='is violated')
        if run.tier == 'quick':
            run.pipeline([(f, w, int(SCALE.get(prop, 1.5) * n)) for f, w, n in quick], drv, cmd=cmd, extra=extra)
            texts(run, drv, run.seed, 1)
        else:
            k = 0
            while not run.fails:
                plan = [p for p in thorough if k == 0 or p[0] == R or p[2]]
                run.pipeline(plan, drv, seed=run.seed * 1000 + k, cmd=cmd, extra=extra)
                texts(run, drv, run.seed * 1000 + k, 2)
                k += 1
                el = time.time() - run.t0
                if el + 1.3 * el / k > 600:
                    break
        return 'model_checking'
    return go


def p02(run):
    drv = run.build()
    run.assume = ['a program holds at most some hundred results',
                  'the time of the call (date, elapsed time) is not part of the contents']
    run.model('SoqlSession')
    for v in ('cache', 'cow', 'residue', 'counter'):
        run.model('SoqlSession', 'SoqlSession_' + v, violates='Isolated is violated')
    if run.tier == 'quick':
        run.sessions(drv, ['short', 'long'], depth=4, groups=18, long=27, steps=100)
        return 'model_checking'
    k = 0
    while not run.fails and time.time() - run.t0 < 500:
        run.sessions(drv, ['short', 'long'], depth=4 if k else 5, groups=40, long=40, steps=200, seed=run.seed * 1000 + k)
        k += 1
    return 'model_checking'


def p03(run):
    drv = run.build('drvrace', ['-race'], CGO_ENABLED='1')
    run.assume = ['the race detector sees every unordered access of the runs it watches']
    quick = run.tier == 'quick'
    run.model('SoqlConc', 'SoqlConc_quick' if quick else None)
    run.model('SoqlConc', 'SoqlConc_none', violates='is violated')
    run.model('SoqlConc', 'SoqlConc_flag', violates='is violated')
    if quick:
        run.sessions(drv, ['conc'], groups=40, conc=400)
        return 'model_checking'
    k = 0
    while not run.fails and time.time() - run.t0 < 500:
        run.sessions(drv, ['conc'], groups=60, conc=400, seed=run.seed * 1000 + k)
        k += 1
    return 'model_checking'


def p23(run):
    drv = run.build()
    n, phases = (1000, 5) if run.tier == 'quick' else (8000, 6)
    run.assume = ['200 kB of difference are noise of the measurement', 'names come from a finite vocabulary']
    for w in ('all', 'cond', 'values'):
        cases, _ = run.generate([(R, w, n)])
        obs = run.path('obs')
        os.mkdir(obs)
        b = int(run.drive(drv, 'footprint', cases, obs + '/o', run.seed, phases).split()[1])
        run.judge(obs, b, 1, 'footprint')
        run.cov['texts'] = run.cov.get('texts', 0) + 16 * n
    return 'model_checking'


def p25(run):
    """The texts through the library here, on a 32-bit build, and through the JavaScript entry point."""
    run.assume = ['a 32-bit build of the library runs on this machine', 'node runs the WebAssembly module as a browser does']
    drv = run.build()
    natives = [drv, run.build('drv386', GOARCH='386')]
    wasm, glue = run.wasm()
    plan = [(R, 'all', 1500), (R, 'clauses', 400), (R, 'values', 1000), (R, 'syntax', 500), (R, 'subs', 300), (R, 'cor', 300), (R, 'big', 15)]
    k = 1 if run.tier == 'quick' else 4
    if run.tier != 'quick':
        plan += [('calls', 1, 0), ('edit', 0, 0), ('glue', 0, 0), ('tail', 1, 0)]
    r = 0
    while not run.fails:
        cases, _ = run.generate([(f, w, n * k) for f, w, n in plan], run.seed * 1000 + r if r else None)
        texts, obs = run.path('texts'), run.path('obs')
        run.drive(drv, 'entrytexts', cases, texts, run.seed + 7777 * r, 2)
        outs = []
        for i, d in enumerate(natives):
            outs.append(run.path('native%d' % i))
            try:
                run.drive(d, 'entryrun', texts, outs[-1])
            except Died as e:
                run.died(e, 'entry')
                return 'model_checking'
        crashed = any(re.search(r'"out":"(panic|timeout)"', open(o).read()) for o in outs)
        js = '-' if crashed else run.node('wasm_run.js', glue, wasm, texts)
        os.mkdir(obs)
        b = int(run.drive(drv, 'entryobs', texts, 100, obs + '/o', js, *outs).split()[1])
        run.judge(obs, b, 1, 'entry')
        r += 1
        if run.tier == 'quick' or time.time() - run.t0 > 400:
            break
    return 'model_checking'


PROPS = {p: pipe(p) for p in PIPE}
PROPS.update(P02=p02, P03=p03, P23=p23, P25=p25)
PROPS['P18'] = pipe('P18', extra=['rt'])
PROPS['P27'] = pipe('P27', extra=['json'])
PROPS['P28'] = pipe('P28', 'place', [4])
PROPS['P20'] = pipe('P20', 'lits')
PROPS['P01'] = pipe('P01', 'total', [8])
PROPS['P19'] = pipe('P19', 'variants')

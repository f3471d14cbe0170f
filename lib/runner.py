"""Orchestration of the checks: generate (TLC) -> run the real code (driver)
-> check the recorded behaviour against the specification (TLC)."""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback

ROOT = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
SPEC = os.path.join(ROOT, 'spec')
DRV = os.path.join(ROOT, 'drv')
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA = '/opt/veriftools/tla'
CP = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'


def decode(s):
    return re.sub(r'u\{([0-9a-f]+)\}', lambda m: chr(int(m[1], 16)) if int(m[1], 16) < 0x110000 else m[0], s)


class CheckError(Exception):
    pass


class Died(Exception):
    """The process that ran the implementation was ended by the Go runtime."""


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = self.transitions = self.traces = 0
        self.cov = {'samples': []}
        self.assume = []
        self.fails = []           # (summary, replay dict)
        self.n = 0

    # ---------------------------------------------------------------- tools
    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    def goenv(self, **kw):
        e = dict(os.environ)
        e.update(GOFLAGS='-mod=readonly -buildvcs=false', GOPROXY='off', GOTOOLCHAIN='local',
                 CGO_ENABLED='0', GOWORK='off', GOSUMDB='off')
        e.setdefault('HOME', '/root')
        e.setdefault('GOCACHE', '/root/.cache/go-build')
        e.update(kw)
        return e

    def build(self, name='drv', args=(), **env):
        out = os.path.join(self.work, name)
        p = subprocess.run(['go', 'build', '-o', out, *args, '.'], cwd=DRV, env=self.goenv(**env),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError('the driver does not build:\n' + p.stdout[-4000:])
        return out

    def wasm(self):
        """The WebAssembly module of /repo, and the script of the Go distribution that loads it."""
        out = self.path('go.wasm')
        p = subprocess.run(['go', 'build', '-o', out, './wasm'], cwd=REPO, env=self.goenv(GOOS='js', GOARCH='wasm'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError('the WebAssembly module does not build:\n' + p.stdout[-4000:])
        root = subprocess.run(['go', 'env', 'GOROOT'], env=self.goenv(), stdout=subprocess.PIPE, text=True).stdout.strip()
        for d in ('lib', 'misc'):
            if os.path.exists(os.path.join(root, d, 'wasm', 'wasm_exec.js')):
                return out, os.path.join(root, d, 'wasm', 'wasm_exec.js')
        raise CheckError('no wasm_exec.js in ' + root)

    def node(self, script, glue, wasm, texts, n=6, timeout=600):
        """Calls the JavaScript entry point with every text, in n processes."""
        outs = [self.path('wasm.out%d' % k) for k in range(n)]
        ps = [subprocess.Popen(['node', '--stack-size=4000', os.path.join(ROOT, 'lib', script), glue, wasm, texts, o, str(k), str(n)],
                               cwd=self.work, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors='replace')
              for k, o in enumerate(outs)]
        try:
            for p in ps:
                _, err = p.communicate(timeout=timeout)
                if p.returncode != 0:
                    raise CheckError('%s: exit %s\n%s' % (script, p.returncode, err[-4000:]))
        finally:
            for p in ps:
                p.kill()
        return ','.join(outs)

    def drive(self, drv, *args, timeout=600, env=None, ok=(0,)):
        env = dict(env or os.environ, V_JOURNAL=self.path('journal'))
        p = subprocess.run([drv, *map(str, args)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors='replace', timeout=timeout, cwd=self.work, env=env)
        if p.returncode == 2 and re.search(r'^(fatal error|runtime:|panic:)', p.stderr, re.M) \
                and not re.search(r'^goroutine \d+ .*\n(?:panic\(.*\n.*\n|runtime\..*\n.*\n)*main\.', p.stderr, re.M):
            raise Died(p.stderr)
        if p.returncode not in ok:
            raise CheckError('driver %s: exit %s\n%s' % (args, p.returncode, (p.stdout + p.stderr)[-4000:]))
        return p.stdout

    def tlc(self, mod, cfg=None, workers=8, env=None, heap='6g', timeout=850, opts=(), expect=(0,)):
        self.n += 1
        meta = os.path.join(self.work, 'meta%d' % self.n)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss128m', '-Djava.io.tmpdir=' + self.work,
               '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
               '-config', cfg or mod + '.cfg', *opts, mod + '.tla']
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace', timeout=timeout)
        out = p.stdout
        shutil.rmtree(meta, ignore_errors=True)
        if p.returncode not in expect:
            raise CheckError('TLC %s: exit %d\n%s' % (mod, p.returncode, '\n'.join(
                l for l in out.splitlines() if not l.startswith(('Parsing', 'Semantic', 'Linting')))[-3000:]))
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        elif p.returncode == 0:
            raise CheckError('TLC %s: no state count\n%s' % (mod, out[-2000:]))
        return p.returncode, out

    def path(self, *a):
        return os.path.join(self.work, *a)

    # ------------------------------------------------------------- pipeline
    def generate(self, plan, seed=None):
        """plan: [(family, arg, n)] -> list of cases"""
        self.n += 1
        out = self.path('gen%d' % self.n)
        pf = out + '.plan'
        json.dump([{'f': f, 'w': w, 'n': n} for f, w, n in plan], open(pf, 'w'))
        self.tlc('GenRun', env={'V_SEED': self.seed if seed is None else seed, 'V_PLAN': pf, 'V_OUT': out})
        cases = out + '.cases'
        files = [f for f in os.listdir(self.work) if re.match(re.escape(os.path.basename(out)) + r'\.\d+\.\d+$', f)]
        files.sort(key=lambda f: tuple(map(int, f.split('.')[-2:])))
        n = 0
        with open(cases, 'w') as w:
            for f in files:
                for line in open(self.path(f)):
                    w.write(line)
                    n += 1
                os.unlink(self.path(f))
        if n == 0:
            raise CheckError('no cases were generated')
        return cases, n

    def trace(self, obs, batches, prop=None, mod='SoqlTrace', env=None):
        e = {'V_OBS': obs, 'V_PROP': prop or self.prop, 'V_CHUNKS': 8, 'V_BATCHES': batches}
        e.update(env or {})
        rc, out = self.tlc(mod, env=e, expect=(0, 75))
        if rc == 75:
            return self.unreadable(obs, batches, mod, e, out)
        fails = re.findall(r'^"FAIL\|(\d+)\|(.*)"$', out, re.M)
        done = [list(map(int, x.split('|'))) for x in re.findall(r'^"DONE\|([\d|]+)"$', out, re.M)]
        tot = [sum(c) for c in zip(*done)] if done else [0, 0, 0, 0]
        return [(int(i), s.replace('\\"', '"')) for i, s in fails], tot

    def unreadable(self, obs, batches, mod, env, out):
        """The specification cannot even be evaluated on some observation (no result
        of the unchanged code is like that): find it, one file and one line at a time."""
        self.log('an observation is outside of what the specification can read')
        one = self.path('one')

        def bad(lines):
            with open(one + '.0', 'w') as f:
                f.writelines(lines)
            return self.tlc(mod, env=dict(env, V_OBS=one, V_CHUNKS=1, V_BATCHES=1), workers=1, expect=(0, 75))[0] == 75

        lines = [l for b in range(batches) for l in open('%s.%d' % (obs, b))]
        if not bad(lines):
            raise CheckError('TLC failed only once:\n' + out[-3000:])
        while len(lines) > 1:
            h = len(lines) // 2
            lines = lines[:h] if bad(lines[:h]) else lines[h:]
        return [(json.loads(lines[0])['id'], '{"unreadable"}')], [0, 0, 0, 1]

    def pipeline(self, plan, drv, seed=None, cmd='pipe', extra=(), batch=20):
        cases, n = self.generate(plan, seed)
        self.log('generated', n, 'cases')
        obs = self.path('obs')
        shutil.rmtree(obs, ignore_errors=True)
        os.mkdir(obs)
        s = self.seed if seed is None else seed
        args = [cmd, cases, obs + '/o', s, batch, *extra]
        try:
            b = int(self.drive(drv, *args).split()[1])
        except Died as e:
            return self.died(e, cmd)
        self.log('parsed them with the implementation')
        self.cov.setdefault('plan', []).extend([list(p) for p in plan])
        return self.judge(obs, b, n, cmd)

    def judge(self, obs, b, n, cmd):
        fails, tot = self.trace(obs + '/o', b)
        self.log('checked: ok %d, error %d, syntax %d, bad %d' % tuple(tot))
        bad = dict(fails)
        seen, shown, total = set(), [], 0
        for k in range(b):
            for line in open('%s/o.%d' % (obs, k)):
                o = json.loads(line)
                o['text'] = decode(o['text'])
                total += 1
                seen.add(o['text'])
                if o['id'] in bad:
                    self.fails.append(('%s: %s' % (bad[o['id']], o['text']),
                                       {'kind': cmd, 'slices': bad[o['id']], 'input': o['text'],
                                        'case': {k: o[k] for k in ('id', 'T', 'cs', 'tpl', 'texts', 'threads', 'fresh', 'race', 'phases') if k in o},
                                        'outcome': o['out'], 'error': o['err']}))
                elif len(shown) < 3 and o['id'] % 97 == 1:
                    shown.append({'text': o['text'], 'outcome': o['out']})
        crashed = sum(1 for _, r in self.fails if r['outcome'] in ('panic', 'timeout'))
        if any('unreadable' in x for x in bad.values()):
            self.traces += total
            return tot
        if total < n or tot[3] != len(bad) or sum(tot[:3]) + crashed < total and not crashed:
            raise CheckError('inconsistent totals: %s of %d (%d), %d failures: %s' % (tot, total, n, len(bad), self.fails[:3]))
        self.traces += total
        c = self.cov
        for k, v in zip(('accepted', 'rejected_semantic', 'rejected_syntax'), tot):
            c[k] = c.get(k, 0) + v
        c['distinct_texts'] = c.get('distinct_texts', 0) + len(seen)
        c['samples'] = (c['samples'] + shown)[:6]
        shutil.rmtree(obs)
        return tot

    def model(self, mod, cfg=None, violates=None):
        """Check a model exhaustively; or see that TLC finds the planted mistake."""
        rc, out = self.tlc(mod, cfg=(cfg or mod) + '.cfg', expect=(0,) if not violates else (12, 13))
        if violates and not re.search(violates, out):
            raise CheckError('%s: the mistake in the model was not found:\n%s' % (cfg, out[-2000:]))
        self.cov.setdefault('models', []).append(cfg or mod)

    def sessions(self, drv, kind, depth=0, groups=12, long=0, steps=0, conc=0, seed=None):
        self.n += 1
        out = self.path('s%d' % self.n)
        self.tlc('SessionRun', env={'V_SEED': self.seed if seed is None else seed, 'V_OUT': out, 'V_DEPTH': depth,
                                    'V_GROUPS': groups, 'V_LONG': long, 'V_STEPS': steps, 'V_CONC': conc})
        for k in kind:
            n = sum(1 for _ in open(out + '.' + k))
            obs = self.path('obs')
            shutil.rmtree(obs, ignore_errors=True)
            os.mkdir(obs)
            b = int(self.drive(drv, 'session', out + '.texts', out + '.' + k, obs + '/o', 20).split()[1])
            self.log('ran', n, k, 'programs')
            self.cov[k + '_programs'] = self.cov.get(k + '_programs', 0) + n
            self.judge(obs, b, n, 'session')

    def died(self, e, cmd):
        """The last texts parsed by a process that did not survive."""
        texts = []
        for f in sorted(os.listdir(self.work)):
            if f.startswith('journal.'):
                t = open(self.path(f), errors='replace').read()
                if t:
                    texts.append(t)
        why = [l for l in str(e).splitlines() if re.match(r'(fatal error|runtime:|panic:)', l)][:3]
        self.fails.append(('the process ended (%s) while parsing %s' % ('; '.join(why), json.dumps(texts)[:1000]),
                           {'kind': cmd, 'slices': 'died', 'input': texts[0] if texts else '', 'texts': texts,
                            'outcome': 'died', 'error': str(e)[:4000]}))
        self.traces += 1

    # -------------------------------------------------------------- reports
    def known(self):
        out = []
        p = os.path.join(ROOT, 'known_findings.txt')
        for line in open(p):
            m = re.match(r'known: property=(\S+) input=(".*") (.*)$', line)
            if m and m.group(1) == self.prop:
                out.append((json.loads(m.group(2)), m.group(3)))
        return out

    def finish(self, level):
        known = self.known()
        real = []
        for what, inp in [(w, i) for i, w in known]:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        texts = {i for i, _ in known}
        for s, r in self.fails:
            if r.get('input') in texts:
                continue
            real.append((s, r))
        real.sort(key=lambda x: len(x[0]))
        self.cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
        if level != 'model_checking':
            self.cov.setdefault('evaluations', self.traces)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': self.cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(real)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        tmp = os.path.join(ROOT, 'evidence', '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(ROOT, 'evidence', self.prop + '.json'))
        if real:
            d = os.path.join(ROOT, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, '%s-%s-%d.json' % (self.prop, self.tier, self.seed))
            with open(p, 'w') as f:
                json.dump({'property': self.prop, 'seed': self.seed, 'failures': [r for _, r in real[:20]]}, f, indent=1)
            for s, _ in real[:5]:
                print('  broken:', s[:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            return 1
        print('OK property=%s %s cases=%d states=%d wall=%.1fs' % (
            self.prop, self.tier, self.traces, self.states, time.time() - self.t0))
        return 0


def main(argv):
    import props
    if not argv or argv[0] not in props.PROPS:
        print('usage: check PROPERTY [quick|thorough]; properties:', ' '.join(sorted(props.PROPS)))
        return 2
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    run = Run(prop, tier, seed)
    try:
        level = props.PROPS[prop](run)
        return run.finish(level)
    except (CheckError, subprocess.TimeoutExpired) as e:
        if run.fails:
            print('gave up after the first failures:', str(e)[-2000:])
            return run.finish('model_checking')
        print('CHECK FAILED property=%s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('CHECK FAILED property=%s' % prop)
        return 2
    finally:
        shutil.rmtree(run.work, ignore_errors=True)

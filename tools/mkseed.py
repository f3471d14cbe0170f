#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/seeds.py and confirm each of them.

mkseed.py [ids...]   (re)builds and confirms; works in a scratch copy of /repo.
"""
import json, os, re, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds

VERIF = os.path.dirname(HERE)
BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]

SH = '''#!/bin/bash
# Run with cwd = the repository, built. Exit 0: it behaves; nonzero: it does not.
here="$(cd "$(dirname "$0")" && pwd)"
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off CGO_ENABLED=%s
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH"
tmp="$(mktemp -d)"
printf '{"Replace": {"%%s/zz_demo/main.go": "%%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
timeout 250 go build %s-overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo && (ulimit -v %s; timeout 120 "$tmp/demo")
rc=$?
rm -r "$tmp"
exit $rc
'''
GO = '''package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

var _ = json.Marshal
var _ = reflect.DeepEqual
var _ = strings.Join
var _ = runtime.GC
var _ sync.Mutex
var _ time.Time
var _ SoqlQuery

func check(ok bool, what ...interface{}) {
	if !ok {
		fmt.Println(what...)
		os.Exit(1)
	}
}

func parse(s string) *SoqlQuery {
	q, err := parser.Parse(s)
	check(err == nil, s, err)
	return q
}

func rejected(s string) {
	_, err := parser.Parse(s)
	check(err != nil, "accepted:", s)
}

// The condition in postfix form.
func show(cs []SoqlCondition) string {
	var sb strings.Builder
	for _, c := range cs {
		if c.Opcode == SoqlConditionOpcode_FieldInfo {
			fmt.Fprintf(&sb, "%s%v ", strings.Join(c.Value.Name, "."), c.Value.Value)
		} else {
			sb.WriteString(c.Opcode.String() + " ")
		}
	}
	return strings.ReplaceAll(strings.TrimSpace(sb.String()), "<nil>", "")
}

func main() {
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True, capture_output=True, **kw)


def main(ids):
    bad = 0
    for s in seeds.SEEDS:
        if ids and s['id'] not in ids:
            continue
        if not ids and s.get('done') :
            continue
        tmp = tempfile.mkdtemp(prefix='seed.')
        try:
            subprocess.check_call(['cp', '-a', '/repo/.', tmp])
            orig = set(sh(f"git blame -s {BASE}..HEAD --root -- /dev/null", tmp).stdout)
            for f, old, new in s['edits']:
                p = os.path.join(tmp, f)
                t = open(p).read()
                if t.count(old) != 1:
                    raise SystemExit(f"{s['id']}: {t.count(old)} matches in {f}: {old!r}")
                open(p, 'w').write(t.replace(old, new))
            diff = sh('git diff', tmp).stdout
            sh('go version', tmp)
            r = sh('gofmt -l soql wasm', tmp, env=dict(os.environ, PATH='/usr/local/go/bin:' + os.environ['PATH']))
            notes = []
            if r.stdout.strip():
                notes.append('gofmt ' + r.stdout.strip())
            d = os.path.join(VERIF, 'seeded', s['id'])
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/main.go', 'w').write(GO + s['demo'].strip('\n') + '\n}\n')
            race = s.get('race')
            open(d + '/demo.sh', 'w').write(s['sh'] if 'sh' in s else
                                            SH % (('1' if race else '0') + (' GOARCH=' + s['goarch'] if 'goarch' in s else ''), '-race ' if race else '', 'unlimited' if race else '16000000'))
            if 'sh' in s:
                os.unlink(d + '/main.go')
                open(d + '/demo.js', 'w').write(s['demo'])
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            # removed lines that are not of the original repository
            for f in {e[0] for e in s['edits']}:
                blame = sh(f'git blame -s -l HEAD -- {f}', tmp).stdout.splitlines()
                ours = {i + 1 for i, l in enumerate(blame) if not (BASE in l[:42] or l.startswith('^') )}
                ln = 0
                inn = False
                for l in sh(f'git diff -U0 -- {f}', tmp).stdout.splitlines():
                    m = re.match(r'@@ -(\d+)', l)
                    if m:
                        ln = int(m.group(1)); inn = True
                    elif inn and l.startswith('-'):
                        if ln in ours:
                            notes.append(f'line {ln} of {f} is ours')
                        ln += 1
            env = '. /opt/vp/env.sh; cd %s; ' % tmp
            b = sh(f"bash -c '{env} go build $(go list ./... | grep -v /wasm) && go vet ./soql/... 2>&1 | grep -v \"^#\" | head -3; go test ./... 2>&1 | tail -5'", tmp)
            if 'FAIL' in b.stdout or 'FAIL' in b.stderr or 'build failed' in b.stderr:
                notes.append('TESTS ' + (b.stdout + b.stderr)[-600:])
            if b.stderr.strip() and 'wasm' not in b.stderr:
                notes.append('ERR ' + b.stderr[-400:])
            c0 = sh(f'bash {d}/demo.sh', '/repo')
            c1 = sh(f'bash {d}/demo.sh', tmp)
            if c0.returncode != 0:
                notes.append('CLEAN DEMO FAILS ' + (c0.stdout + c0.stderr)[-500:])
            if c1.returncode == 0:
                notes.append('DEMO PASSES WITH BUG')
            if 'build' in c1.stderr and 'cannot' in c1.stderr:
                notes.append(c1.stderr[-500:])
            bad += bool(notes)
            print(s['id'], s['property'], 'ok' if not notes else notes, '|', (c1.stdout + c1.stderr).strip().replace('\n', ' ')[:150], flush=True)
        finally:
            shutil.rmtree(tmp)
    return bad


sys.exit(bool(main(sys.argv[1:])))

#!/usr/bin/env python3
"""Writes /verif/seeded/<id> from the descriptions in tools/seeds/*.py and checks each in a scratch copy.
usage: seeds.py [-n] [id...]     -n: skip the repository's own tests"""
import sys, os, json, subprocess, shutil, glob
SCR = '/tmp/mut/repo'
SEEDS = {}
def seed(id, prop, pkg, edits, demo, needs, breaks, extra=None):
    SEEDS[id] = dict(prop=prop, pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, extra=extra or {})
def sh(cmd, cwd=SCR, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)
DEMO = r'''#!/bin/bash
# runs demo.go.txt as a test of package %(pkg)s; fails when the property is broken
d="$(cd "$(dirname "$0")" && pwd)"; r="$PWD"
. /opt/vp/env.sh; cd "$r"
t="$(mktemp -d)"; trap 'rm -r "$t"' EXIT
cp "$d/demo.go.txt" "$t/zz_demo_test.go"
python3 - "$r" "$t" %(pkg)s <<'P'
import sys,glob,json
r,t,p=sys.argv[1:]
m={f:'' for f in glob.glob(r+'/'+p+'/*_test.go')}
m[r+'/'+p+'/zz_demo_test.go']=t+'/zz_demo_test.go'
json.dump({'Replace':m},open(t+'/o.json','w'))
P
go test -overlay "$t/o.json" %(flags)s-vet=off -count=1 -timeout 250s -run '^TestDemo$' ./%(pkg)s
'''
def main():
    args = sys.argv[1:]
    skip = '-n' in args
    args = [a for a in args if a != '-n']
    for f in sorted(glob.glob('/verif/tools/seeds/*.py')):
        exec(compile(open(f).read(), f, 'exec'), dict(seed=seed))
    base = set(json.load(open('/opt/vp/BASELINE.json')) if 0 else [])
    for id, s in SEEDS.items():
        if args and id not in args:
            continue
        sh('git checkout -q -- . && git clean -fdq')
        sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
        bad = False
        for f, a, b in s['edits']:
            p = os.path.join(SCR, f)
            x = open(p).read()
            if x.count(a) != 1:
                print(id, 'edit does not apply once:', f, repr(a[:60]), x.count(a)); bad = True; break
            open(p, 'w').write(x.replace(a, b))
        if bad:
            continue
        r = sh('. /opt/vp/env.sh; cd %s; gofmt -l $(git diff --name-only); go build ./... && go vet $(git diff --name-only | xargs -n1 dirname | sort -u | sed "s#^#./#") 2>&1 | grep -i undefined' % SCR)
        if r.stderr.strip() or 'go' in r.stdout:
            print(id, 'build:', r.stdout, r.stderr); 
        d = '/verif/seeded/' + id
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
        open(d + '/demo.go.txt', 'w').write(s['demo'])
        for n, c in s['extra'].items():
            open(d + '/' + n, 'w').write(c)
        open(d + '/demo.sh', 'w').write(s['extra'].get('demo.sh') or DEMO % dict(pkg=s['pkg'], flags=''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r1 = sh('bash %s/demo.sh' % d)
        t = ''
        if not skip:
            r = sh('sed "s#cd /repo#cd %s#" /opt/vp/env.sh > /tmp/mut/env.sh; sed "s#/opt/vp/env.sh#/tmp/mut/env.sh#" /opt/vp/test.sh > /tmp/mut/test.sh; bash /tmp/mut/test.sh /tmp/mut/out.json' % SCR)
            try:
                o = json.load(open('/tmp/mut/out.json'))
                b = json.load(open('/opt/vp/BASELINE.json'))
                stable = b.get('stable') or b.get('passed') or b.get('tests') or b
                passed = set(o.get('passed') or o.get('pass') or [])
                miss = [x for x in stable if x not in passed]
                t = 'tests ok' if not miss else 'TESTS BROKEN %s' % miss[:5]
            except Exception as e:
                t = 'TESTS? %s' % e
        sh('git checkout -q -- .')
        r2 = sh('bash %s/demo.sh' % d)
        print(id, 'demo with patch', r1.returncode, 'without', r2.returncode, t)
        if r1.returncode == 0 or r2.returncode != 0:
            print(r1.stdout[-1500:], r1.stderr[-800:], '--- clean:', r2.stdout[-1500:], r2.stderr[-800:])
        elif '[build failed]' in r1.stdout:
            print('DEMO BUILD FAILS', r1.stdout[-800:])
main()

#!/usr/bin/env python3
"""Runs the check of one property: contract verification of /repo's current source with govc,
plus a concrete replay search for a failing input.  usage: check.py PROPERTY [quick|thorough]"""
import json, os, subprocess, sys, time, glob, tempfile, shutil, re, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')

def goenv():
    env = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
    for kv in out.decode('utf8', 'replace').split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            env[k] = v
    return env

def build_govc():
    b = os.path.join(VERIF, 'bin', 'govc')
    srcs = glob.glob(os.path.join(VERIF, 'govc', '*.go')) + [os.path.join(VERIF, 'govc', 'go.mod')]
    h = hashlib.sha256()
    for s in sorted(srcs):
        h.update(open(s, 'rb').read())
    stamp = os.path.join(VERIF, 'bin', 'govc.stamp')
    if os.path.exists(b) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return b
    os.makedirs(os.path.join(VERIF, 'bin'), exist_ok=True)
    env = dict(os.environ)
    env['PATH'] = '/opt/veriftools/go1.26.10/bin:' + env['PATH']
    env.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GONOSUMDB='*', GONOSUMCHECK='1', GOFLAGS_EXTRA='')
    for k in ('GOROOT', 'GOMODCACHE'):
        env.pop(k, None)
    tmp = b + '.%d' % os.getpid()
    r = subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=os.path.join(VERIF, 'govc'), env=env, capture_output=True, text=True)
    if r.returncode != 0:
        print('cannot build govc:', r.stdout, r.stderr)
        return None
    os.replace(tmp, b)
    open(stamp, 'w').write(h.hexdigest())
    return b

def harness_jobs(prop, tmp):
    """one go test job per package that has harness files for the property"""
    base = os.path.join(VERIF, 'harness')
    jobs = []
    for d, _, fs in os.walk(base):
        mine = [f for f in fs if re.match(prop.lower() + r'(_\w+)?_test\.go$', f)]
        if not mine:
            continue
        pk = os.path.relpath(d, base)
        rep = {}
        for f in glob.glob(os.path.join(REPO, pk, '*_test.go')):
            rep[f] = ''
        for f in mine + [f for f in fs if f.startswith('common')]:
            rep[os.path.join(REPO, pk, 'zz_verif_' + f)] = os.path.join(d, f)
        if os.path.exists(os.path.join(d, 'standins')):
            # stand-ins for functions of dependencies that need files this sandbox does not have
            deps = os.path.join(base, '_deps')
            cache = subprocess.run(['go', 'env', 'GOMODCACHE'], cwd=REPO, env=goenv(), capture_output=True, text=True).stdout.strip()
            for dd, _, ff in os.walk(deps):
                for f in ff:
                    rep[os.path.join(cache, os.path.relpath(os.path.join(dd, f), deps))] = os.path.join(dd, f)
        name = re.search(r'(?m)^package (\w+)', open(os.path.join(d, mine[0])).read()).group(1)
        ht = os.path.join(tmp, 'h_%s_test.go' % pk.replace('/', '_'))
        open(ht, 'w').write(open(os.path.join(base, 'common.go.txt')).read().replace('PACKAGE', name))
        rep[os.path.join(REPO, pk, 'zz_verif_helpers_test.go')] = ht
        ov = os.path.join(tmp, 'ov_%s.json' % pk.replace('/', '_'))
        json.dump({'Replace': rep}, open(ov, 'w'))
        jobs.append((pk, ov))
    return jobs

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    env = goenv()
    govc = build_govc()
    res, gout = None, ''
    procs = []
    limit = 800
    hsecs = 60 if tier == 'quick' else 300
    rf = os.path.join(tmp, 'res.json')
    t1, t2 = (10, 60) if tier == 'quick' else (20, 150)
    gp = None
    if govc:
        cmd = [govc, '-repo', REPO, '-contracts', os.path.join(VERIF, 'contracts'), '-prop', prop, '-out', rf, '-t1', str(t1), '-t2', str(t2)]
        gp = subprocess.Popen(cmd, cwd=REPO, env=env, stdout=open(os.path.join(tmp, 'govc.out'), 'w'), stderr=subprocess.STDOUT)
    hr = []
    henv = dict(env)
    henv['VERIF_SEED'] = str(seed)
    henv['VERIF_SECS'] = str(hsecs // 6 if tier == 'quick' else hsecs)
    henv['VERIF_TIER'] = tier
    for i, (pk, ov) in enumerate(harness_jobs(prop, tmp)):
        of = os.path.join(tmp, 'h%d.out' % i)
        race = []
        if prop == 'C29':
            race, henv['CGO_ENABLED'] = ['-race'], '1'
        p = subprocess.Popen(['go', 'test', *race, '-overlay', ov, '-vet=off', '-count=1', '-v', '-timeout', '600s', '-run', '^TestVerif%s' % prop, './' + pk],
                             cwd=REPO, env=henv, stdout=open(of, 'w'), stderr=subprocess.STDOUT)
        hr.append((pk, p, of))
    def wait(p):
        left = max(5, limit - (time.time() - t0))
        try:
            p.wait(left)
            return True
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return False
    notes, hfail, samples = [], [], []
    evals = 0
    for pk, p, of in hr:
        done = wait(p)
        out = open(of, errors='replace').read()
        for m in re.finditer(r'VERIF-COUNT (\d+)', out):
            evals += int(m.group(1))
        for m in re.finditer(r'VERIF-SAMPLE (.*)', out):
            if len(samples) < 5:
                samples.append(m.group(1)[:300])
        if '[build failed]' in out or '[setup failed]' in out or 'no test files' in out:
            notes.append('replay search for %s does not build against this tree: %s' % (pk, out[-600:]))
        elif not done:
            notes.append('replay search for %s ran out of time' % pk)
        elif p.returncode != 0:
            hfail.append((pk, out))
        elif 'no tests to run' in out:
            notes.append('replay search for %s: no tests' % pk)
    if gp:
        if not wait(gp):
            notes.append('the verifier ran out of time')
        gout = open(os.path.join(tmp, 'govc.out'), errors='replace').read()
        try:
            res = json.load(open(rf))
        except Exception as e:
            res = None
    failed, skipped = [], []
    cons = res['contracts'] or [] if res else []
    obs = res['obligations'] or [] if res else []
    if res is None or res.get('load_err'):
        failed.append('verifier gave no result: ' + (res or {}).get('load_err', gout[-800:]))
    for c in cons:
        e = c.get('err')
        if not e:
            continue
        if e.startswith('no function'):
            skipped.append('%s: %s' % (c['name'], e))
            continue
        failed.append('contract %s on %s: not decided: %s' % (c['name'], c['target'], e))
    for o in obs:
        if o['status'] != 'discharged':
            failed.append('obligation %s / %s at %s: %s (%s)' % (o['contract'], o['label'], o.get('pos', ''), o['status'], o['backend']))
    nobs = len([o for o in obs if not o.get('cover')])
    if res is not None and nobs == 0 and not res.get('load_err'):
        failed.append('no obligations were generated for %s' % prop)
    dropped = res.get('dropped') or [] if res else []
    mine = [d for d in dropped]
    viol = 1 if (hfail or failed) else 0
    trusted = []
    if res:
        trusted = ['dependency model: ' + t if not t.startswith(('assume:', 'external:', 'callback:')) else t for t in res['trusted'] or []]
    inl = sorted({i for c in cons for i in (c.get('inlined') or [])})
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=0, violations=viol,
      coverage=dict(
        obligations=nobs, discharged=len([o for o in obs if o['status'] == 'discharged' and not o.get('cover')]),
        reachability_checks=len([o for o in obs if o.get('cover')]),
        checker_cmd='bin/govc -repo %s -contracts contracts -prop %s' % (REPO, prop),
        trusted_base=['govc (the condition generator in /verif/govc)', 'z3, cvc5', 'go/ssa', *trusted],
        functions_under_contract=sorted({c['target'] for c in cons if c.get('target')}),
        contracts=[c['name'] for c in cons], functions_inlined=inl,
        backends=res['backends'] if res else {}, solver_secs=round(res['solver_secs'], 2) if res else 0,
        obligation_names=sorted({'%s / %s' % (o['contract'], o['label']) for o in obs})[:400],
        bounded_replay_search=dict(label='bounded, not counted as proved', cases=evals, samples=samples),
        contracts_not_applicable_to_this_tree=skipped + mine, notes=notes),
      assumptions=sorted(t for t in trusted if t.startswith(('assume:', 'external:', 'callback:'))) + GENERAL)
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for n in notes + skipped:
        print('note:', n)
    print('%s: %d obligations, %d discharged, %d concrete cases, %.1fs' % (prop, nobs, ev['coverage']['discharged'], evals, ev['wall_s']))
    rc = 0
    if hfail or failed:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, prop + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s\n' % prop)
            for pk, out in hfail:
                keep = [l for l in out.splitlines() if not l.startswith(('VERIF-SAMPLE', 'VERIF-COUNT'))]
                f.write('\nfailing input found by running the code in %s (seed %d; rerun: VERIF_SEED=%d python3 check.py %s):\n%s\n' % (pk, seed, seed, prop, '\n'.join(keep)[-6000:]))
            f.write('\nobligations not accepted:\n' + '\n'.join(failed) + '\n')
            if failed:
                f.write('\nverifier output:\n' + gout[-6000:] + '\n')
        for x in failed[:12]:
            print('failed:', x[:400])
        for pk, out in hfail:
            for l in out.splitlines():
                if 'VERIF-FAIL' in l:
                    print(l.strip()[:500])
                    break
        print('VIOLATION property=%s replay=%s%s' % (prop, os.path.relpath(rp, VERIF), '' if hfail else ' no-failing-input-found'))
        rc = 1
    shutil.rmtree(tmp, ignore_errors=True)
    return rc

GENERAL = [
  'pointer arguments of a contract are non-nil and do not alias unless the contract says so',
  'strings and byte slices are at most 2^40 bytes long',
  'machine integers are modelled exactly as bit vectors; termination is not proved',
  'Poseidon is an uninterpreted function into the field (collision-free only where a contract says inj); SHA-256 is collision-free',
  'numbers passed as arguments are non-negative and below 2^256',
  'package-level variables keep the values their initialisers give them',
]

if __name__ == '__main__':
    sys.exit(main())

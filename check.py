#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property on /repo's working tree.

Exit 0: every obligation discharged (or, for a function outside the verifier's
subset, the labelled bounded stand-in passed); exit 1 with a VIOLATION line
otherwise."""
import json, os, pickle, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
PYVT = os.environ.get('PYVT', '/opt/veriftools/pyvenv/bin/python')
if not os.path.exists(PYVT):
    PYVT = 'python3-vt'
SHARDS = 5
SITE = '/opt/venv/lib/python3.12/site-packages'


def env():
    e = dict(os.environ)
    e['PYTHONPATH'] = HERE + ':' + SITE
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e['TZ'] = 'UTC'
    e['LANG'] = 'C.UTF-8'
    return e


def spawn(mod, args, cwd):
    return subprocess.Popen([PYVT, '-W', 'ignore', os.path.join(HERE, 'pyded', mod + '.py')] + [str(a) for a in args],
                            cwd=cwd, env=env(), stdout=open(os.path.join(cwd, mod + '.log'), 'a'),
                            stderr=subprocess.STDOUT, start_new_session=True)


def wait(p, limit):
    try:
        p.wait(limit)
        return True
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        return False


def load(path):
    try:
        with open(path, 'rb') as f:
            return pickle.load(f)
    except Exception:
        return None


def main(argv):
    sys.path.insert(0, HERE)
    prop = argv[0]
    tier = 'thorough' if '--thorough' in argv else os.environ.get('VERIF_TIER', 'quick')
    if '--quick' in argv or tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    only = argv[argv.index('--only') + 1:] if '--only' in argv else []
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='pyded-')
    try:
        return decide(prop, tier, seed, only, work, t0, '-v' in argv)
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, only, work, t0, verbose):
    proof_budget, search_budget = (330, 25) if tier == 'quick' else (2400, 600)
    pout, sout = os.path.join(work, 'p'), os.path.join(work, 's')
    pps = [spawn('prover', [prop, pout + str(i), tier, proof_budget, '%d/%d' % (i, SHARDS)] + only, work) for i in range(SHARDS)]
    sp = spawn('searcher', [prop, sout, tier, search_budget, seed], work)
    wait(sp, search_budget * 4 + 60)
    sr = load(sout)
    end = time.time() + proof_budget + 60
    prs = []
    failed, undecided = [], []
    pr = dict(contracts=[], assumed=[], backends={}, solver_time=0.0, queries=0, wall=0, error=None)
    for i, pp in enumerate(pps):
        wait(pp, max(1, end - time.time()))
        p1 = load(pout + str(i))
        if p1 is None:
            undecided.append(('prover', 'a proof process produced no result: ' + tail(os.path.join(work, 'prover.log'))))
            continue
        if p1['error']:
            undecided.append(('prover', p1['error']))
            pr['error'] = p1['error']
        for k in ('contracts', 'assumed'):
            pr[k] = pr[k] + p1[k]
        for k in ('solver_time', 'queries'):
            pr[k] += p1[k]
        for k, v in p1['backends'].items():
            pr['backends'][k] = pr['backends'].get(k, 0) + v
    partial = []
    for c in pr['contracts']:
        for f in c['failed']:
            # what an exploration that left the verifier's subset could not
            # discharge is a lead for the search, not yet a verdict: the
            # bounded stand-in decides that contract
            (failed if c['status'] == 'ok' else partial).append((c['name'], f))
        if c['status'] != 'ok':
            undecided.append((c['name'], '%s: %s' % (c['status'], c.get('why'))))
    failure = sr and sr['failure']
    searches = [sr] if sr else []
    if (failed or partial) and not failure:
        # replay the counter-models, then search longer
        mfile = os.path.join(work, 'm')
        with open(mfile, 'wb') as f:
            pickle.dump([(n, x['model']) for n, x in failed + partial if x['model']], f)
        s2 = os.path.join(work, 's2')
        p2 = spawn('searcher', [prop, s2, tier, search_budget * 3, seed + 1000, mfile], work)
        wait(p2, search_budget * 12 + 60)
        r2 = load(s2)
        if r2:
            searches.append(r2)
            failure = r2['failure']
    elif undecided and not failure:
        # bounded stand-in: a larger search
        s2 = os.path.join(work, 's2')
        p2 = spawn('searcher', [prop, s2, tier, search_budget * 2, seed + 2000], work)
        wait(p2, search_budget * 10 + 60)
        r2 = load(s2)
        if r2:
            searches.append(r2)
            failure = r2['failure']
    from pyded.api import findings
    lines = []
    for k, text in sorted(findings(prop).items()):
        if any(k in s['known'] for s in searches):
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, text))
    EV = os.environ.get('PYDED_EVIDENCE', os.path.join(HERE, 'evidence'))
    rdir = os.path.join(EV, 'replays')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + '.json')
    violations = 0
    rc = 0
    if failure:
        violations = 1
        rc = 1
        with open(rpath, 'w') as f:
            json.dump(dict(property=prop, kind='failing input on the real code', tier=tier, **failure,
                           failed_obligations=[dict(name=x['name'], status=x['status'], detail=x['detail'][:1500]) for _, x in (failed + partial)[:20]],
                           replay='python3 %s %s' % (os.path.join(HERE, 'tools', 'replay.py'), rpath)),
                      f, indent=1, default=repr)
        lines.append('failing input (%s): %s -- %s' % (failure['trial'], failure['obligation'], failure['info'][:500]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, rpath))
    elif failed:
        violations = 1
        rc = 1
        with open(rpath, 'w') as f:
            json.dump(dict(property=prop, kind='undischarged obligation', tier=tier,
                           obligations=[dict(contract=n, name=x['name'], status=x['status'], detail=x['detail'],
                                             model=repr(x['model'])) for n, x in failed[:50]],
                           searched=[dict(trials=s['trials'], checks=s['checks']) for s in searches]),
                      f, indent=1, default=repr)
        for n, x in failed[:5]:
            lines.append('undischarged obligation: %s [%s]%s' % (x['name'], x['status'], x['detail'][:300]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath))
    elif os.path.exists(rpath):
        os.unlink(rpath)
    sys.path.insert(0, HERE)
    level = 'proof'
    executed = sorted(set(x for c in pr['contracts'] for x in c['executed']))
    total = sum(c['n'] for c in pr['contracts'])
    disch = sum(c['discharged'] for c in pr['contracts'])
    proved_contracts = [c for c in pr['contracts'] if c['status'] == 'ok' and not c['failed']]
    if not proved_contracts:
        level = 'other'
    meta = load_meta(prop)
    cov = dict(
        obligations=total, discharged=disch,
        checker_cmd='python3 /verif/check.py %s --%s  (pyded VC generator over /repo source; z3 %s API, cvc5 1.1.2)' % (prop, tier, '5.3'),
        trusted_base=sorted(set(pr['assumed']) | set(meta.get('trusted', []))) + ENGINE_TRUST,
        functions_under_contract=executed,
        contracts=[dict(name=c['name'], status=c['status'], obligations=c['n'], discharged=c['discharged'],
                        paths=c.get('paths'), loops_cut=c.get('loops_cut'), wall_s=round(c['wall'], 2),
                        distinct_obligations=len(c['names'])) for c in pr['contracts']],
        obligation_names=sorted(set(n for c in pr['contracts'] for n in c['names']))[:400],
        backends=pr['backends'], solver_time_s=round(pr['solver_time'], 2), solver_queries=pr['queries'],
        bounded_stand_ins=[dict(contract=n, reason=str(w)[-700:]) for n, w in undecided] + meta.get('bounded', []),
        evaluations=sum(s['trials'] for s in searches), distinct_nontrivial=sum(s['distinct'] for s in searches),
        concrete_checks=sum(s['checks'] for s in searches),
        rule='concrete cross-check on the unmodified code: random and enumerated trials; a trial is non-trivial when at '
             'least one contract obligation was evaluated in it and its inputs were not seen before',
        samples=[x for s in searches for x in s['samples']][:6] or ['none'],
        search_errors=[x for s in searches for x in s['harness_errors']][:3] + [s['error'] for s in searches if s['error']],
        explanation='' if level == 'proof' else 'no contract of this property was fully discharged on this tree; the bounded stand-in decided',
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=sorted(set(pr['assumed']) | set(meta.get('assumptions', []))),
              wall_s=round(time.time() - t0, 2), violations=violations)
    with open(os.path.join(EV, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    print('%s: %d obligations, %d discharged, %d contracts (%d proved), %d trials, %.1f s' % (
        prop, total, disch, len(pr['contracts']), len(proved_contracts), cov['evaluations'], time.time() - t0))
    for n, w in undecided:
        print('UNDECIDED (bounded stand-in used): %s: %s' % (n, str(w).strip().splitlines()[-1][:300]))
    if verbose:
        for c in pr['contracts']:
            print('  %-45s %s obl=%d/%d paths=%s restarts=%s %.1fs' % (c['name'], c['status'], c['discharged'], c['n'], c.get('paths'), c.get('restarts'), c['wall']))
            for k, w in c['dropped'].items():
                print('     dropped', k, w)
            for f in c['failed'][:6]:
                print('     FAILED', f['name'], f['status'], f['detail'][:300])
            if c['status'] != 'ok':
                print(c.get('why'))
        if pr['error']:
            print(pr['error'])
        for s in searches:
            print('  search:', s['trials'], s['checks'], s['distinct'], s['discards'], s['per'], s['error'])
            for x in s['harness_errors'][:1]:
                print(x[0], x[1][-900:])
            for x in s['failures'][:2]:
                print(x['tb'][-900:], str(x['inputs'])[:1500])
        print(tail(os.path.join(work, 'prover.log')), tail(os.path.join(work, 'searcher.log')))
    if any(s['harness_errors'] or s['error'] for s in searches):
        print('note: %d search error(s), see evidence' % sum(len(s['harness_errors']) + bool(s['error']) for s in searches))
    for x in lines:
        print(x)
    return rc


ENGINE_TRUST = [
    'pyded: AST instrumentation, symbolic value semantics and VC generation (/verif/pyded), cross-checked by running the repository test suite instrumented',
    'CPython 3.12 semantics of native operations on concrete values',
    'z3 and cvc5',
]


def tail(path, n=1500):
    try:
        return open(path, errors='replace').read()[-n:]
    except OSError:
        return ''


def load_meta(prop):
    try:
        with open(os.path.join(HERE, 'contracts', 'meta.json')) as f:
            return json.load(f).get(prop, {})
    except (OSError, ValueError):
        return {}


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

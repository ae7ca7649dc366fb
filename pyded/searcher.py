"""Search process: evaluate the contracts and the trials of a property on the
unmodified code of /repo.  Usage: searcher.py PROP OUT.pickle TIER BUDGET SEED [MODELS.pickle]"""
import base64, importlib, os, pickle, random, signal, sys, time, traceback


class Hang(BaseException):
    pass


def in_repo(tb, root):
    """is there a frame of the repository in the traceback (other than tests)?"""
    for fr, _ in traceback.walk_tb(tb):
        if fr.f_code.co_filename.startswith(root + '/epsilon'):
            return True
    return False


def run_one(fn, h, root, tlimit, api):
    """None, or a failure dict"""
    def onalarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, tlimit)
    try:
        fn(h)
        if h.swallowed is not None:
            raise h.swallowed
        return None
    except api.Discard:
        return 'discard'
    except api.Violation as v:
        return dict(obligation=v.name, info=str(v.info), tb=traceback.format_exc()[-2500:])
    except Hang as x:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if in_repo(x.__traceback__, root):
            return dict(obligation='terminates', info='did not finish within %s s' % tlimit, tb=traceback.format_exc()[-2500:])
        return 'discard'
    except Exception as x:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if in_repo(x.__traceback__, root):
            return dict(obligation='no unexpected exception', info=repr(x), tb=traceback.format_exc()[-2500:])
        return dict(harness_error=traceback.format_exc()[-2500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            h.done()
        except Exception:
            pass


def show(inputs):
    out = {}
    for k, v in inputs.items():
        try:
            out[k] = repr(v)[:600]
        except Exception as e:
            out[k] = '<unrepresentable>'
    return out


def main(prop, out, tier, budget, seed, models=None):
    t0 = time.time()
    from . import transform, api
    transform.install_plain()
    res = dict(failure=None, trials=0, checks=0, distinct=0, discards=0, samples=[], harness_errors=[], error=None, per={},
               failures=[], known=[])
    try:
        importlib.import_module('contracts.' + prop.lower())
        jobs = []
        for c in api.CONTRACTS.get(prop, ()):
            if c.concrete:
                jobs.append(('contract ' + c.name, c.fn, False, 1.0))
        for s in api.SEARCHES.get(prop, ()):
            jobs.append(('search ' + s.name, s.fn, s.once, s.weight))
        distinct = set()
        api.Trial.findings = api.findings(prop)

        def go(name, fn, rng, i, model=None, tlimit=8.0):
            h = api.Odd.world = api.Trial(rng, model)
            h.i = i
            h.thorough = tier == 'thorough'
            f = run_one(fn, h, transform.PKG_ROOT, tlimit, api)
            res['trials'] += 1
            res['checks'] += h.checked
            per = res['per'].setdefault(name, [0, 0])
            per[0] += 1
            per[1] += h.checked
            if f == 'discard':
                res['discards'] += 1
                return None
            if f is None:
                if h.checked:
                    k = hash((name, str(show(h.inputs)))) if h.inputs else (name, i)
                    if k not in distinct:
                        distinct.add(k)
                        if len(res['samples']) < 6 or (i == 3 and len(res['samples']) < 12):
                            res['samples'].append({'trial': name, 'inputs': show(h.inputs)})
                return None
            if 'harness_error' in f:
                if len(res['harness_errors']) < 5:
                    res['harness_errors'].append((name, f['harness_error']))
                return None
            f.update(trial=name, index=i, seed=seed, inputs=show(h.inputs))
            return f

        def fail(f):
            res['failures'].append(f)
            if res['failure'] is None:
                res['failure'] = f
        # 1. counter-models of failed obligations
        for cname, model in models or ():
            for name, fn, once, w in jobs:
                if name == 'contract ' + cname:
                    for i in range(12):
                        f = go(name, fn, random.Random('%s:m:%d' % (name, i)), i, model)
                        if f:
                            f['model'] = base64.b64encode(pickle.dumps(model)).decode()
                            fail(f)
                            break
        # 2. deterministic enumerations
        for name, fn, once, w in jobs:
            if once:
                f = go(name, fn, random.Random('%d:%s' % (seed, name)), 0, tlimit=max(20.0, budget))
                if f:
                    fail(f)
        # 3. random trials, interleaved
        rnd = [(n, f, w) for n, f, once, w in jobs if not once]
        if rnd and not res['failure']:
            tot = sum(w for _, _, w in rnd)
            spent = {n: 0.0 for n, _, _ in rnd}
            count = {n: 0 for n, _, _ in rnd}
            start = time.time()
            end = start + budget
            dead = set()
            maxtrials = 8000 if tier == 'quick' else 4000000
            while time.time() < end and len(dead) < len(rnd):
                progress = False
                for n, fn, w in rnd:
                    if n in dead:
                        continue
                    el = time.time() - start
                    if count[n] > 20 and spent[n] > budget * w / tot and spent[n] > el * w / tot * 1.2:
                        continue
                    t1 = time.time()
                    for _ in range(5):
                        i = count[n]
                        count[n] += 1
                        progress = True
                        f = go(n, fn, random.Random('%d:%s:%d' % (seed, n, i)), i)
                        if f:
                            fail(f)
                            dead.add(n)
                            break
                    spent[n] += time.time() - t1
                    if count[n] >= maxtrials:
                        dead.add(n)
                if not progress:
                    break
                if res['failure']:
                    break
        res['distinct'] = len(distinct)
        res['known'] = sorted(api.Trial.seen)
    except BaseException as x:
        res['error'] = traceback.format_exc()[-3000:]
        # a module of the repository that no longer imports is caught by its tests
    res['wall'] = time.time() - t0
    with open(out, 'wb') as f:
        pickle.dump(res, f)


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import pyded.searcher
    ms = None
    if len(sys.argv) > 6:
        with open(sys.argv[6], 'rb') as f:
            ms = pickle.load(f)
    pyded.searcher.main(sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4]), int(sys.argv[5]), ms)
    sys.stdout.flush()
    os._exit(0)

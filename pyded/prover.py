"""Proof process: discharge every obligation of a property's contracts on the
instrumented source of /repo.  Usage: prover.py PROP OUT.pickle TIER BUDGET"""
import importlib, os, pickle, sys, time, traceback
sys.setrecursionlimit(20000)


def where(x):
    fs = [f for f in traceback.extract_tb(x.__traceback__) if '/pyded/' not in f.filename]
    return ' < '.join('%s:%s %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in fs[-4:]) + ': '


def main(prop, out, tier, budget, shard=(0, 1), only=None):
    t0 = time.time()
    from . import core, transform, ops
    e = core.Engine()
    transform.install()
    from .sym import Sym
    from . import api
    if tier == 'thorough':
        e.goal_timeout = 60000
        e.cand_timeout = 15000
    res = dict(contracts=[], error=None)
    executed = {}
    mon = sys.monitoring
    mon.use_tool_id(3, 'pyded')

    def started(code, off):
        if code.co_filename.startswith(transform.PKG_ROOT + '/epsilon') and e.active:
            if '_pd_comp' not in code.co_name and code.co_name != '<module>':
                executed.setdefault(cur[0], set()).add('%s:%s' % (
                    os.path.relpath(code.co_filename, transform.PKG_ROOT), code.co_qualname.replace('.<locals>', '')))
            return
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, started)
    cur = ['']
    try:
        ops.install_lib_models()
        from twisted.internet import defer
        defer.DebugInfo.__del__ = lambda self: None     # reporting of unhandled errors at collection time
        from . import libmodels
        libmodels.install()
        mod = importlib.import_module('contracts.' + prop.lower())
        cs = [c for c in api.CONTRACTS.get(prop, ()) if c.symbolic]
        cs = [c for i, c in enumerate(cs) if i % shard[1] == shard[0] and not (only and c.name not in only)]
        mon.set_events(3, mon.events.PY_START)
        for n, c in enumerate(cs):
            left = budget - (time.time() - t0)
            e.deadline = time.time() + max(5, left if n == len(cs) - 1 else min(left, max(left * 0.6, left / (len(cs) - n) * 2)))
            save = e.cand_timeout, e.goal_timeout
            for attempt in (1, 2, 3):
                cur[0] = c.name
                t1 = time.time()
                r = dict(name=c.name, functions=list(c.functions))
                e.assumed_now = set()
                first = len(e.obligations)
                try:
                    def run():
                        h = Sym()
                        h.thorough = tier == 'thorough'
                        c.fn(h)
                    r.update(e.explore(c.name, run))
                    r['status'] = 'ok'
                except core.Unsupported as x:
                    r['status'] = 'unsupported'
                    r['why'] = where(x) + str(x)
                    if os.environ.get('PYDED_DEBUG'):
                        traceback.print_exc()
                except core.EngineBug as x:
                    r['status'] = 'engine'
                    r['why'] = ''.join(traceback.format_exception(x))[-3000:]
                except RecursionError as x:
                    r['status'] = 'unsupported'
                    r['why'] = 'recursion'
                except BaseException as x:
                    r['status'] = 'engine'
                    r['why'] = ''.join(traceback.format_exception(x))[-3000:]
                if attempt > 1 and r['status'] in ('unsupported', 'engine'):
                    # no answer with more time: the previous one stands
                    e.obligations[first:] = prev[1]
                    r = prev[0]
                    break
                obs = e.obligations[first:]
                r['n'] = len(obs)
                r['discharged'] = sum(o.status == 'proved' for o in obs)
                r['names'] = sorted(set(o.name for o in obs))
                r['failed'] = [dict(name=o.name, status=o.status, detail=o.detail[:4000], model=o.model) for o in obs
                               if o.status != 'proved']
                r['dropped'] = {str(k): {n: w for n, w in li.why.items()} for k, li in e.loopinfo.items() if li.why}
                r['loops_cut'] = [k[0] for k, li in e.loopinfo.items() if li.havoc or li.cut]
                r['wall'] = time.time() - t1
                r['executed'] = sorted(executed.get(c.name, ()))
                if r['status'] == 'ok' and (r['n'] == 0 or not r['covered']):
                    r['status'] = 'vacuous'
                    r['why'] = 'no obligation, or no path reached the end of the contract'
                # solver time-outs depend on the machine: try once more with more time before giving up
                bad = r['failed'] or r['status'] == 'vacuous'
                slow = any(f['status'] == 'unknown' for f in r['failed']) or any(
                    w[1] == 'unknown' for d in r['dropped'].values() for w in d.values())
                if attempt == 3 or not (bad and slow) or time.time() - t0 > budget * 0.5:
                    break
                prev = r, e.obligations[first:]
                del e.obligations[first:]
                e.cand_timeout, e.goal_timeout = e.cand_timeout * 4, e.goal_timeout * 2
            e.cand_timeout, e.goal_timeout = save
            r['attempts'] = attempt
            res['contracts'].append(r)
    except BaseException as x:
        res['error'] = ''.join(traceback.format_exception(x))[-3000:]
    res['assumed'] = sorted(e.assumed)
    res['backends'] = e.backend_counts
    res['solver_time'] = e.solver_time
    res['queries'] = e.queries
    res['wall'] = time.time() - t0
    with open(out, 'wb') as f:
        try:
            pickle.dump(res, f)
        except Exception:
            for c in res['contracts']:
                for x in c['failed']:
                    x['model'] = None
            f.seek(0)
            f.truncate()
            pickle.dump(res, f)


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import pyded.prover
    pyded.prover.main(sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4]),
                      tuple(int(x) for x in sys.argv[5].split('/')), sys.argv[6:] or None)

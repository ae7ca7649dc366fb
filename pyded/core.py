"""pyded core: path exploration, verification-condition generation and discharge.

The real functions of /repo are instrumented mechanically (transform.py) and
executed over symbolic values.  Every branch whose condition is not constant is
explored both ways (by re-execution with a decision prefix); loops over
symbolic data are cut with inductive invariants; every `ensure` becomes a
verification condition  path-condition => goal  discharged by z3 (cvc5 as a
second back end).
"""
import os, subprocess, sys, tempfile, time
import z3
z3.z3.Z3_DEBUG = False


class EngineSignal(BaseException):
    """Anything that must never be visible to the program under verification."""


class PathEnd(EngineSignal):
    pass


class Unsupported(EngineSignal):
    """The code left the verifier's subset."""


class LoopRestart(EngineSignal):
    """Havoc set grew or an invariant candidate was dropped: explore again."""


class EngineBug(EngineSignal):
    pass


class Prog(Exception):
    """Raised by models: the program sees `exc`."""

    def __init__(self, exc):
        self.exc = exc


class Obligation(object):
    __slots__ = ('name', 'status', 'backend', 'time', 'detail', 'model', 'trail')

    def __init__(self, name, status, backend, t, detail='', model=None):
        self.name, self.status, self.backend, self.time = name, status, backend, t
        self.detail, self.model = detail, model


E = None        # the running engine (one per process)


def eng():
    return E


_info = {}


def info(t):
    """(contains a quantifier, the uninterpreted symbols) of a term"""
    k = t.get_id()
    r = _info.get(k)
    if r is not None:
        return r[1]
    if len(_info) > 400000:
        _info.clear()
    stack = [t]
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in _info:
            stack.pop()
            continue
        if z3.is_quantifier(x):
            ch = [x.body()]
        else:
            ch = x.children()
        todo = [y for y in ch if y.get_id() not in _info]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        q = z3.is_quantifier(x)
        cs = frozenset()
        if len(ch) == 1:
            cs = _info[ch[0].get_id()][1][1]
        elif ch:
            cs = frozenset().union(*[_info[y.get_id()][1][1] for y in ch])
        for y in ch:
            q = q or _info[y.get_id()][1][0]
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            cs = cs | {x.decl().name()}
        _info[i] = (x, (q, cs))             # x is kept: ids are not reused
    return _info[k][1]


def is_quant(t):
    """Does term t contain a quantifier?"""
    return info(t)[0]


def consts(t):
    """the uninterpreted symbols of a term"""
    return info(t)[1]


class Engine(object):
    feas_timeout = 1500
    goal_timeout = 15000
    cand_timeout = 5000
    max_paths = 4000
    deadline = None

    def __init__(self):
        global E
        E = self
        self.solver_time = 0.0
        self.queries = 0
        self.obligations = []
        self.axioms = []          # global background axioms (lists of z3 terms)
        self.assumed = set()      # names of assumed models used
        self.instrumented = set()  # functions executed under instrumentation
        self.notes = set()
        self.alt_backends = True
        self.backend_counts = {}
        self.reset_harness('none')

    # ---------------------------------------------------------------- harness
    def reset_harness(self, name):
        self.harness = name
        self.loopinfo = {}
        self.classmodels = {}
        self.summaries = {}
        self.aborting = None
        self.active = False

    def start_path(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.pc = []              # all assertions of this path
        self.heavy = {}           # index in pc -> 1, or 2 if it is left out of the second attempt at a goal too
        self.small = []
        self.s = z3.Solver()
        self.s.set('timeout', self.feas_timeout)
        self.nvars = {}
        self.heap = {}
        self.objs = {}            # id(obj) -> (const, obj)
        self.objlist = []
        self.loopcount = {}
        self.aborting = None
        self.in_quant = 0
        self.depth = 0
        self.roots = []
        self.symattrs = {}
        self.invariants = []
        self.named = {}           # input name -> (kind, term...)  for models
        self.ghost = {}
        self.joins = []
        self.alloc = z3.Int('alloc0')
        self.models = {}
        self.resets = []
        self.events = []
        self.add(self.alloc >= 0)

    def explore(self, name, fn):
        """Run harness fn over all paths.  Returns dict with the outcome."""
        self.reset_harness(name)
        first = len(self.obligations)
        restarts = 0
        while True:
            del self.obligations[first:]
            work = [[]]
            npaths = nended = 0
            covered = False
            try:
                while work:
                    if self.deadline and time.time() > self.deadline:
                        raise Unsupported('time budget for this property used up')
                    prefix = work.pop()
                    self.work = work
                    self.start_path(prefix)
                    npaths += 1
                    if npaths > self.max_paths:
                        raise Unsupported('more than %d paths' % self.max_paths)
                    self.active = True
                    try:
                        fn()
                        if self.aborting is not None:
                            raise self.aborting
                        covered = True
                        nended += 1
                    except PathEnd:
                        pass
                    except EngineSignal:
                        raise
                    except BaseException as e:
                        if self.aborting is not None:
                            if isinstance(self.aborting, PathEnd):
                                continue
                            raise self.aborting
                        if any(o.status != 'proved' and o.name.startswith(self.harness + '/') for o in self.obligations):
                            continue        # the contract went on after a failed obligation it relies on
                        self.active = True
                        if self.contradictory():
                            continue        # nothing runs here
                        raise EngineBug('harness raised %r' % (e,)) from e
                    finally:
                        self.active = False
                        for r in reversed(self.resets):
                            r()
                        self.resets = []
                break
            except LoopRestart:
                restarts += 1
                if restarts > 60:
                    raise Unsupported('loop analysis did not stabilise')
        return dict(paths=npaths, completed=nended, restarts=restarts,
                    covered=covered, obligations=len(self.obligations) - first)

    # --------------------------------------------------------------- signals
    def abort(self, sig):
        self.aborting = sig
        raise sig

    def unsupported(self, msg):
        if self.active and self.aborting is None and self.pc and self.contradictory():
            self.abort(PathEnd())           # nothing runs here
        self.abort(Unsupported(msg))

    def contradictory(self, timeout=4000):
        s = z3.Solver()
        s.set('timeout', timeout)
        for a in self.pc:
            if not is_quant(a):
                s.add(a)
        return self._check(s) == z3.unsat

    def check_abort(self):
        if self.aborting is not None:
            raise self.aborting

    # ------------------------------------------------------------ assertions
    def fresh(self, base, sort):
        n = self.nvars.get(base, 0)
        self.nvars[base] = n + 1
        return z3.Const('%s!%d' % (base, n), sort)

    def add(self, t, heavy=False):
        """an assertion of this path; heavy ones are left out of feasibility checks (which may
        then explore paths that cannot be taken) and of the first attempt at a goal"""
        self.pc.append(t)
        if heavy:
            self.heavy[len(self.pc) - 1] = int(heavy)
        elif not is_quant(t):
            self.s.add(t)
            self.small.append((consts(t), t))

    def assume(self, t):
        t = to_bool_term(t)
        if z3.is_true(t):
            return
        ts = z3.simplify(t)
        if z3.is_false(ts):
            self.abort(PathEnd())
        self.add(t)

    def _check(self, solver, *extra):
        t0 = time.time()
        if extra:
            solver.push()
            for x in extra:
                solver.add(x)
        try:
            r = solver.check()
        except z3.Z3Exception:
            r = z3.unknown
        if extra:
            solver.pop()
        self.queries += 1
        self.solver_time += time.time() - t0
        return r

    def feasible(self, *extra):
        return self._check(self.s, *extra) != z3.unsat

    def either(self, t):
        """can t, and can its negation hold?  One of the two does unless this path cannot be taken at all"""
        self.s.set('timeout', 100)
        ts = (t, z3.Not(t))
        r = [self._check(self.s, x) for x in ts]
        self.s.set('timeout', self.feas_timeout)
        for i in (0, 1):
            if r[i] == z3.unknown and r[1 - i] != z3.unsat:
                r[i] = self._check(self.s, ts[i])
        return r[0] != z3.unsat, r[1] != z3.unsat

    def quick(self, t):
        """True or False if the assertions about the constants of t alone settle it"""
        if is_quant(t):
            return None
        cs = consts(t)
        if not cs or len(cs) > 6:
            return None
        s = z3.Solver()
        s.set('timeout', 100)
        for c, a in self.small:
            if c <= cs:
                s.add(a)
        if self._check(s, t) == z3.unsat:
            return False
        if self._check(s, z3.Not(t)) == z3.unsat:
            return True
        return None

    def decide(self, cond):
        """Branch on a boolean term."""
        self.check_abort()
        t = to_bool_term(cond)
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if not self.active:
            raise EngineBug('decide outside a path: %s' % t)
        if self.in_quant:
            self.abort(EngineBug('branch under a quantifier: %s' % t))
        if self.deadline and time.time() > self.deadline:
            self.unsupported('time budget for this property used up')
        i = len(self.trail)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            q = self.quick(t)
            if q is not None:
                ct, cf = q, not q
            elif is_quant(t):
                ct = cf = True
            else:
                ct, cf = self.either(t)
            if ct and cf:
                self.work.append(self.trail + [False])
                c = True
            elif ct:
                c = True
            elif cf:
                c = False
            else:
                self.abort(PathEnd())
        self.trail.append(c)
        self.add(t if c else z3.Not(t))
        return c

    def choose(self, n, label='choice'):
        """Nondeterministic concrete choice in range(n)."""
        self.check_abort()
        i = len(self.trail)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            for k in range(n - 1, 0, -1):
                self.work.append(self.trail + [k])
            c = 0
        self.trail.append(c)
        return c

    @property
    def replaying(self):
        return len(self.trail) < len(self.prefix)

    # ------------------------------------------------------------------ goals
    def prove(self, goal, timeout=None, alts=True):
        """Is pc => goal valid?  returns (status, backend, secs, model/detail)."""
        alt_timeout = timeout or self.goal_timeout
        timeout = timeout or self.ghost.get('goal_timeout') or self.goal_timeout
        goal = to_bool_term(goal)
        g = z3.simplify(goal)
        t0 = time.time()
        if z3.is_true(g):
            return 'proved', 'eval', 0.0, None
        for level in sorted(set(self.heavy.values())) if not is_quant(goal) else ():
            s = z3.Solver()
            s.set('timeout', 1500 * level)
            for i, a in enumerate(self.pc):
                if self.heavy.get(i, 0) < level and not is_quant(a):
                    s.add(a)
            s.add(z3.Not(goal))
            if self._check(s) == z3.unsat:
                return 'proved', 'z3', time.time() - t0, None
        s = z3.Solver()
        s.set('timeout', timeout)
        for a in self.axioms:
            s.add(a)
        for a in self.pc:
            s.add(a)
        if is_quant(goal):
            # skolemise the goal by hand and add the matching instances of the hypotheses
            hyps, goal2, consts = self.skolemise(goal)
            for h in hyps:
                s.add(h)
            s.add(z3.Not(goal2))
            if consts:
                for a in self.pc + hyps:
                    for x in self.instances(a, consts):
                        s.add(x)
        else:
            s.add(z3.Not(goal))
        quant = any(is_quant(a) for a in s.assertions())
        if quant:
            # ground part only, then pattern instantiation only; both are sound for "proved"
            s1 = z3.Solver()
            s1.set('timeout', 1500)
            for a in s.assertions():
                if not is_quant(a):
                    s1.add(a)
            if self._check(s1) == z3.unsat:
                return 'proved', 'z3', time.time() - t0, None
            s1 = z3.Solver()
            s1.set('timeout', timeout)
            s1.set('smt.mbqi', False)
            s1.set('auto_config', False)
            for a in s.assertions():
                s1.add(a)
            if self._check(s1) == z3.unsat:
                return 'proved', 'z3', time.time() - t0, None
        r = self._check(s)
        dt = time.time() - t0
        if r == z3.unsat:
            return 'proved', 'z3', dt, None
        if r == z3.sat:
            m = s.model()
            return 'refuted', 'z3', dt, m
        if alts and self.alt_backends:
            for be in ('cvc5', 'z3-seed'):
                rr = self._alt(s, be, alt_timeout)
                if rr == 'unsat':
                    return 'proved', be, time.time() - t0, None
                if rr == 'sat':
                    break
        return 'unknown', 'z3', time.time() - t0, s.reason_unknown()

    def skolemise(self, goal):
        hyps, consts = [], []
        while True:
            if z3.is_quantifier(goal) and goal.is_forall():
                vs = [self.fresh('sk', goal.var_sort(i)) for i in range(goal.num_vars())]
                consts.extend(vs)
                goal = z3.substitute_vars(goal.body(), *reversed(vs))
            elif z3.is_not(goal) and z3.is_quantifier(goal.arg(0)) and goal.arg(0).is_exists():
                q = goal.arg(0)
                vs = [self.fresh('sk', q.var_sort(i)) for i in range(q.num_vars())]
                consts.extend(vs)
                goal = z3.Not(z3.substitute_vars(q.body(), *reversed(vs)))
            elif z3.is_not(goal) and z3.is_not(goal.arg(0)):
                goal = goal.arg(0).arg(0)
            elif z3.is_implies(goal):
                hyps.append(goal.arg(0))
                goal = goal.arg(1)
            elif z3.is_not(goal) and z3.is_and(goal.arg(0)) and goal.arg(0).num_args() == 1:
                goal = z3.Not(goal.arg(0).arg(0))
            else:
                return hyps, goal, consts

    def instances(self, a, consts):
        if z3.is_and(a):
            for i in range(a.num_args()):
                for x in self.instances(a.arg(i), consts):
                    yield x
        elif z3.is_quantifier(a) and a.is_forall() and a.num_vars() == 1:
            for c in consts:
                if c.sort() == a.var_sort(0):
                    yield z3.substitute_vars(a.body(), c)

    def _alt(self, s, be, timeout):
        t0 = time.time()
        try:
            if be == 'z3-seed':
                s2 = z3.Solver()
                s2.set('timeout', timeout)
                s2.set('random_seed', 7)
                s2.set('smt.mbqi', False)
                for a in s.assertions():
                    s2.add(a)
                r = s2.check()
                return str(r)
            txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            try:
                p = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % timeout, f.name],
                                   capture_output=True, text=True, timeout=timeout / 1000 + 5)
                out = p.stdout.strip().splitlines()
                return out[0] if out and out[0] in ('sat', 'unsat') else 'unknown'
            finally:
                os.unlink(f.name)
        except Exception as e:
            return 'unknown'
        finally:
            self.solver_time += time.time() - t0
            self.queries += 1

    def ensure(self, name, goal, detail=''):
        """An obligation: on this path, goal holds."""
        self.check_abort()
        full = '%s/%s' % (self.harness, name)
        if self.replaying:
            return
        status, be, dt, extra = self.prove(goal)
        o = Obligation(full, status, be, dt, detail)
        if status == 'refuted':
            o.model = self.extract_model(extra)
            o.detail += ' counter-model: %r' % (o.model,)
        elif status == 'unknown':
            o.detail += ' solver: %s' % (extra,)
            # a candidate input from the quantifier-free part
            o.model = self.qf_model(goal)
        o.trail = list(self.trail)
        self.obligations.append(o)
        self.backend_counts[be] = self.backend_counts.get(be, 0) + 1
        if status == 'proved':
            # later obligations of the path may use it
            t = to_bool_term(goal)
            if z3.is_false(z3.simplify(t)):
                self.abort(PathEnd())       # the path cannot be taken
            if not z3.is_true(t):
                self.add(t)
        return status == 'proved'

    def qf_model(self, goal):
        try:
            s = z3.Solver()
            s.set('timeout', 2000)
            for a in self.pc:
                if not is_quant(a):
                    s.add(a)
            g = to_bool_term(goal)
            if not is_quant(g):
                s.add(z3.Not(g))
            if self._check(s) == z3.sat:
                return self.extract_model(s.model())
        except Exception:
            pass
        return None

    def extract_model(self, m):
        out = {}
        for name, (kind, term) in self.named.items():
            try:
                v = m.eval(term, model_completion=True)
                out[name] = kind.concrete(v)
            except Exception as e:
                out[name] = None
        return out

    # --------------------------------------------------------- object identity
    def objref(self, obj):
        """The reference constant of a concrete Python object."""
        k = id(obj)
        if k not in self.objs:
            self.objs[k] = (-(len(self.objlist) + 1), obj)
            self.objlist.append(obj)
        return z3.IntVal(self.objs[k][0])


def to_bool_term(c):
    if c is True or c is False:
        return z3.BoolVal(c)
    if isinstance(c, z3.BoolRef) or z3.is_quantifier(c):
        return c
    t = getattr(c, '_pd_bool', None)
    if t is not None:
        return t()
    if isinstance(c, int):
        return z3.BoolVal(bool(c))
    raise EngineBug('not a boolean: %r' % (c,))

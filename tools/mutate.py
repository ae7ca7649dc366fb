#!/usr/bin/env python3
"""mutate.py [FILE...]: small changes (one operator, constant, statement or branch at a time) to the repository's modules,
in scratch copies; those that pass the stable tests are given to the checks of the properties anchored in the file.
Prints, for each, which check reports it, or SURVIVES (to be read by a person: many survivors change nothing that matters)."""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from seedtest import run, tests
REPO = os.environ.get('PYDED_REPO', '/repo')
PYVT = '/opt/veriftools/pyvenv/bin/python'


def props():
    out = {}
    for l in open(os.path.join(H, 'properties.jsonl')):
        d = json.loads(l)
        for f in d['anchors']['files']:
            out.setdefault(f, []).append(d['id'])
    return out


CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is, ast.NotEq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult}


def mutants(src):
    """(description, new source)"""
    tree = ast.parse(src)
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    nodes = list(ast.walk(tree))

    def emit(desc, node, mutate):
        # mutate in place on a deep copy, located by index
        i = nodes.index(node)
        t2 = copy.deepcopy(tree)
        n2 = list(ast.walk(t2))[i]
        mutate(n2, t2)
        try:
            s = ast.unparse(ast.fix_missing_locations(t2))
        except Exception:
            return None
        return ('%d: %s' % (getattr(node, 'lineno', 0), desc), s)

    def infunc(n):
        while n in parents:
            n = parents[n]
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                return True
        return False

    def isdoc(n):
        p = parents.get(n)
        return isinstance(p, ast.Expr)
    for n in nodes:
        if not infunc(n):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for r in CMP.get(type(n.ops[0]), ()):
                yield emit('%s: %s' % (ast.unparse(n), r.__name__), n, lambda m, t, r=r: m.ops.__setitem__(0, r()))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            yield emit('%s: %s' % (ast.unparse(n)[:60], BIN[type(n.op)].__name__), n, lambda m, t: setattr(m, 'op', BIN[type(m.op)]()))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                yield emit('constant %r -> %r' % (n.value, n.value + d), n, lambda m, t, d=d: setattr(m, 'value', m.value + d))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield emit('constant %r flipped' % n.value, n, lambda m, t: setattr(m, 'value', not m.value))
        elif isinstance(n, ast.Constant) and type(n.value) is str and not isdoc(n) and n.value and not isinstance(parents.get(n), ast.JoinedStr):
            yield emit('constant %r changed' % n.value[:40], n, lambda m, t: setattr(m, 'value', m.value[:-1] if len(m.value) > 1 else ''))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield emit('condition negated: %s' % ast.unparse(n.test)[:60], n, lambda m, t: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
            if isinstance(n, ast.If):
                yield emit('always: if %s' % ast.unparse(n.test)[:60], n, lambda m, t: setattr(m, 'test', ast.Constant(True)))
                yield emit('never: if %s' % ast.unparse(n.test)[:60], n, lambda m, t: setattr(m, 'test', ast.Constant(False)))
            if isinstance(n.test, ast.BoolOp):
                yield emit('and/or: %s' % ast.unparse(n.test)[:60], n, lambda m, t: setattr(m.test, 'op', ast.Or() if isinstance(m.test.op, ast.And) else ast.And()))
            if isinstance(n.test, ast.Compare) and isinstance(n.test.ops[0], (ast.IsNot, ast.Is)) and isinstance(n.test.comparators[0], ast.Constant) and n.test.comparators[0].value is None:
                if isinstance(n.test.ops[0], ast.IsNot):
                    yield emit('truth of %s' % ast.unparse(n.test)[:60], n, lambda m, t: setattr(m, 'test', m.test.left))
                else:
                    yield emit('falsity of %s' % ast.unparse(n.test)[:60], n, lambda m, t: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test.left)))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            p = parents[n]
            for f in ('body', 'orelse', 'finalbody'):
                if n in (getattr(p, f, None) or ()) and isinstance(getattr(p, f), list):
                    j = getattr(p, f).index(n)

                    def drop(m, t, f=f, j=j):
                        getattr(m, f)[j] = ast.Pass()
                    yield emit('dropped (in %d): %s' % (n.lineno, ast.unparse(n)[:60]), p, drop)
                    ss = getattr(p, f)
                    if j + 1 < len(ss) and not isinstance(ss[j + 1], (ast.FunctionDef, ast.ClassDef)):
                        def swap(m, t, f=f, j=j):
                            x = getattr(m, f)
                            x[j], x[j + 1] = x[j + 1], x[j]
                        yield emit('swapped (in %d): %s <-> %s' % (n.lineno, ast.unparse(n)[:40], ast.unparse(ss[j + 1])[:40]), p, swap)
        elif isinstance(n, ast.Return) and n.value is not None:
            yield emit('returns None: %s' % ast.unparse(n)[:60], n, lambda m, t: setattr(m, 'value', ast.Constant(None)))
        elif isinstance(n, ast.Slice):
            for f in ('lower', 'upper'):
                if getattr(n, f) is not None:
                    yield emit('slice bound dropped: %s' % ast.unparse(n), n, lambda m, t, f=f: setattr(m, f, None))
        elif isinstance(n, ast.Call) and len(n.args) >= 1 and isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'dict', 'int', 'str', 'float', 'sorted', 'reversed', 'abs', 'min', 'max'):
            yield emit('call dropped: %s' % ast.unparse(n)[:60], n, lambda m, t: (setattr(m, 'func', ast.parse('(lambda *a: a[0])').body[0].value)))
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            yield emit('handler widened: %s' % ast.unparse(n.type), n, lambda m, t: setattr(m, 'type', ast.Name('Exception', ast.Load())))
        elif isinstance(n, ast.Try) and n.finalbody:
            def nofinal(m, t):
                m.body = m.body + m.finalbody
                m.finalbody = []
                if not m.handlers:
                    m.handlers = [ast.ExceptHandler(ast.Name('ZeroDivisionError', ast.Load()), None, [ast.Raise()])]
            yield emit('finally only on success', n, nofinal)


def one(x):
    path, desc, src, ps = x
    work = tempfile.mkdtemp(prefix='mut-')
    try:
        root = work + '/repo'
        shutil.copytree(REPO, root, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        open(os.path.join(root, path), 'w').write(src)
        try:
            bad = tests(root, work)
        except Exception:
            return None
        if bad:
            return None
        env = {'PYDED_REPO': root, 'PYDED_EVIDENCE': work + '/ev', 'PYTHONPATH': H + ':/opt/venv/lib/python3.12/site-packages', 'TZ': 'UTC', 'PYTHONHASHSEED': '0'}
        for p in ps:
            import pickle
            o = os.path.join(work, 's')
            run([PYVT, '-W', 'ignore', os.path.join(H, 'pyded', 'searcher.py'), p, o, 'quick', '12', '1'], H, env, 200)
            try:
                r = pickle.load(open(o, 'rb'))
            except Exception:
                continue
            if r['failure']:
                return '%s %s: caught by the search of %s' % (path, desc, p)
        if '--search-only' in sys.argv:
            return '%s %s: SURVIVES search' % (path, desc)
        for p in ps:
            rc, out = run(['python3', os.path.join(H, 'check.py'), p], H, env)
            if rc:
                v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
                return '%s %s: caught by %s%s' % (path, desc, p, ' (nofail)' if v and 'no-failing' in v[0] else '')
        return '%s %s: SURVIVES' % (path, desc)
    except BaseException as e:
        return '%s %s: %r' % (path, desc, e)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    P = props()
    files = [a for a in argv if not a.startswith('-')] or sorted(P)
    todo = []
    for f in files:
        src = open(os.path.join(REPO, f)).read()
        seen = set()
        for m in mutants(src):
            if m is None or m[1] in seen:
                continue
            seen.add(m[1])
            todo.append((f, m[0], m[1], P[f]))
    only = [a[len('--only='):] for a in argv if a.startswith('--only=')]
    if only:
        # the survivors of an earlier run
        left = set(l.split(': SURVIVES')[0] for l in open(only[0]) if ': SURVIVES' in l)
        todo = [x for x in todo if '%s %s' % x[:2] in left]
    print(len(todo), 'mutants', flush=True)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        for r in ex.map(one, todo):
            if r:
                print(r, flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])

#!/usr/bin/env python3
"""refactest.py [NAME...]: apply each behaviour-preserving edit of tools/refactors to a scratch copy of the repository,
confirm that the stable tests still pass, and run the checks of the properties concerned: they must stay quiet."""
import glob, os, shutil, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from concurrent.futures import ThreadPoolExecutor
from seedtest import run, tests


def one(x):
    name, props, path, edits = x
    work = tempfile.mkdtemp(prefix='refac-')
    try:
        root = work + '/repo'
        shutil.copytree(os.environ.get('PYDED_REPO', '/repo'), root, symlinks=True)
        f = os.path.join(root, path)
        s = open(f).read()
        for old, new in edits:
            if old not in s:
                return '%s: TEXT NOT FOUND %r' % (name, old[:80])
            s = s.replace(old, new)
        compile(s, f, 'exec')
        open(f, 'w').write(s)
        bad = tests(root, work)
        out = ['%-22s %s' % (name, 'tests ok' if not bad else 'TESTS FAIL %s' % bad[:4])]
        for p in props:
            rc, o = run(['python3', os.path.join(H, 'check.py'), p, '-v'], H, {'PYDED_REPO': root, 'PYDED_EVIDENCE': work + '/ev'})
            w = [l for l in o.splitlines() if l.startswith(('failing input', 'UNDECIDED', 'undischarged', 'VIOLATION'))]
            out.append('%s %s' % (p, 'proved' if rc == 0 and not w else 'quiet' if rc == 0 else '*** rc=%d' % rc))
            out += ['\n      ' + l[:400] for l in w]
        return ' '.join(out)
    except BaseException as e:
        return '%s: %r' % (name, e)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    todo = []
    for f in sorted(glob.glob(os.path.join(H, 'tools', 'refactors', '*.py'))):
        g = {}
        exec(compile(open(f).read(), f, 'exec'), g)
        todo += g['R']
    if argv:
        todo = [x for x in todo if x[0] in argv or any(p in argv for p in x[1])]
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as ex:
        for r in ex.map(one, todo):
            print(r, flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])

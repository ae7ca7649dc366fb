#!/usr/bin/env python3
"""seeds.py [ID...]: (re)generate seeded/<id>/ from the definitions in tools/seeddefs/*.py
(each calls seed(id, property, file, [(old, new)...], needs, breaks, demo))."""
import difflib, glob, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TZ=UTC
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
S = {}


def seed(id, prop, file, edits, needs, breaks, demo):
    assert id not in S, id
    files = {}
    if edits and len(edits[0]) == 2:
        edits = [(file, a, b) for a, b in edits]
    for f, a, b in edits:
        old, new = files.get(f) or (open(os.environ.get('PYDED_REPO', '/repo') + '/' + f, newline='').read(),) * 2
        assert new.count(a) == 1, (id, f, new.count(a), a)
        files[f] = (old, new.replace(a, b))
    patch = ''
    for f, (old, new) in files.items():
        d = list(difflib.unified_diff(old.splitlines(True), new.splitlines(True), 'a/' + f, 'b/' + f))
        out = ''
        for l in d:
            out += l if l.endswith('\n') else l + '\n\\ No newline at end of file\n'
        patch += out
    S[id] = (prop, patch, needs, breaks, demo)


for f in sorted(glob.glob(H + '/tools/seeddefs/*.py')):
    exec(compile(open(f).read(), f, 'exec'), {'seed': seed})
want = sys.argv[1:]
for id, (prop, patch, needs, breaks, demo) in S.items():
    if want and id not in want:
        continue
    d = H + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w', newline='').write(patch)
    open(d + '/demo.sh', 'w').write(DEMO)
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
print(len(S), 'seeds')

#!/usr/bin/env python3
"""seedtest.py [--no-check] [--refactor] DIR...: in scratch copies of /repo, confirm that a planted bug applies, passes
the stable tests and is shown by its demo, then run the property's check against it.  With --refactor the patch is a
behaviour-preserving edit: the demo is skipped and the checks named in meta.json must stay quiet."""
import json, os, re, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def run(cmd, cwd, env=None, t=1200):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def tests(root, work):
    s = open('/opt/vp/test.sh').read().replace('/repo', root)
    sh = os.path.join(work, 'test.sh')
    open(sh, 'w').write(s)
    out = os.path.join(work, 'out.json')
    run(['bash', sh, out], work)
    p = set(json.load(open(out))['passed'])
    return [x for x in BASE if x not in p]


def main(argv):
    check = '--no-check' not in argv
    refac = '--refactor' in argv
    bad = 0
    for d in [a for a in argv if not a.startswith('--')]:
        d = os.path.abspath(d)
        meta = json.load(open(d + '/meta.json'))
        work = tempfile.mkdtemp(prefix='seed-')
        try:
            root = work + '/repo'
            shutil.copytree(os.environ.get('PYDED_REPO', '/repo'), root, symlinks=True)
            msg = []
            if not refac:
                rc, out = run(['bash', d + '/demo.sh'], root, t=300)
                msg.append('demo clean %s' % ('ok' if rc == 0 else 'FAILS ' + out[-300:]))
            rc, out = run(['git', 'apply', '--whitespace=nowarn', d + '/patch.diff'], root)
            if rc:
                print(os.path.basename(d), 'PATCH DOES NOT APPLY', out[-300:])
                bad += 1
                continue
            f = tests(root, work)
            msg.append('tests ok' if not f else 'TESTS FAIL ' + str(f[:3]))
            if not refac:
                rc, out = run(['bash', d + '/demo.sh'], root, t=300)
                msg.append('demo buggy ok' if rc != 0 else 'DEMO DOES NOT SHOW IT')
            if check:
                ids = meta['property'] if isinstance(meta['property'], list) else [meta['property']]
                for i in ids:
                    rc, out = run(['python3', os.path.join(H, 'check.py'), i, '--quick'], H,
                                  {'PYDED_REPO': root, 'PYDED_EVIDENCE': work + '/ev'})
                    v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
                    w = [l for l in out.splitlines() if l.startswith(('failing input', 'UNDECIDED', 'undischarged'))]
                    msg.append('%s rc=%d %s | %s' % (i, rc, 'nofail' if v and 'no-failing' in v[0] else 'CAUGHT' if v else 'quiet',
                                                  ' ; '.join(w)[:260]))
            print(os.path.basename(d), '|', ' | '.join(msg), flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main(sys.argv[1:])

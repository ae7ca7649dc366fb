#!/bin/bash
# prove.sh PROP [contract names...]: run only the proof half, in one process, with debugging output
cd ${VERIFDIR:-$(dirname $(dirname $(realpath $0)))} && PYDED_DEBUG=${PYDED_DEBUG:-1} PYTHONPATH=.:/opt/venv/lib/python3.12/site-packages PYTHONDONTWRITEBYTECODE=1 TZ=UTC PYTHONHASHSEED=0 \
 /opt/veriftools/pyvenv/bin/python -W ignore - "$@" <<'P'
import sys,pickle,tempfile
import pyded.prover as p
p.main(sys.argv[1],'/tmp/prove.out','quick',300,(0,1),sys.argv[2:] or None)
r=pickle.load(open('/tmp/prove.out','rb'))
if r['error']: print(r['error'])
for c in r['contracts']:
    print('%-45s %s obl=%d/%d paths=%s restarts=%s %.1fs' % (c['name'], c['status'], c['discharged'], c['n'], c.get('paths'), c.get('restarts'), c['wall']))
    for k,w in c['dropped'].items(): print('   dropped',k,w)
    for f in c['failed'][:8]: print('   FAILED',f['name'],f['status'],f['detail'][:600])
    if c['status']!='ok': print(c.get('why'))
print('assumed',r['assumed'],'backends',r['backends'])
P

#!/bin/bash
# mkseed.sh ID PROP "needs" "breaks" : make seeded/ID from the changes in scratch worktree /tmp/w and the demo /tmp/demo.py
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/w diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo empty diff; exit 1; }
cp /tmp/demo.py $d/demo.py
cat > $d/demo.sh <<'D'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TZ=UTC
exec /opt/venv/bin/python -W ignore "$here/demo.py"
D
python3 - "$@" > $d/meta.json <<'P'
import json,sys
print(json.dumps(dict(property=sys.argv[2], needs=sys.argv[3], what_it_breaks=sys.argv[4]), indent=1))
P
git -C /tmp/w checkout -q -- .

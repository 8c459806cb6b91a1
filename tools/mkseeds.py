"""python3 tools/mkseeds.py SPEC.py: SPEC defines SEEDS = [(id, property, file, [(old, new), ...], demo, needs, breaks)];
writes seeded/<id> with a patch against /repo's HEAD."""
import json, os, shutil, subprocess, sys, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''from datetime import datetime, timedelta
import numpy as np
import gnome.scripting as gs
from gnome.movers import SimpleMover
from gnome.model import Model
t = datetime(2020, 1, 1)
'''
for i, p, f, edits, demo, needs, breaks in runpy.run_path(sys.argv[1])['SEEDS']:
    d = os.path.join(H, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    if isinstance(f, str):
        edits = [(f, a, b) for a, b in edits]
    for ff, a, b in edits:
        path = '/repo/py_gnome/' + ff
        s = open(path, encoding='utf8').read()
        assert s.count(a) == 1, (i, ff, s.count(a), a)
        open(path, 'w', encoding='utf8').write(s.replace(a, b))
    diff = subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout
    subprocess.run('git -C /repo checkout -q -- .', shell=True)
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.py', 'w').write((PRE if not demo.startswith('#nopre') else '') + demo.lstrip('\n'))
    shutil.rmtree(d + '/gridded', ignore_errors=True)
    shutil.copytree(H + '/shim/gridded', d + '/gridded', ignore=shutil.ignore_patterns('__pycache__'))
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the behaviour is right; anything else: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export TMPDIR=$(mktemp -d) TZ=UTC PYTHONDONTWRITEBYTECODE=1
trap 'rm -rf -- "$TMPDIR"' EXIT
export HOME=$TMPDIR
cd "$TMPDIR"
PYTHONPATH=/repo/py_gnome:$here /opt/venv/bin/python -W ignore "$here/demo.py"
''')
    json.dump(dict(property=p, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print('laid out', i)

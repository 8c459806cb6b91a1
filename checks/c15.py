"""C15  a save is all or nothing, at every point where it can fail or be interrupted."""
import itertools
import json
import os
import subprocess
import sys

from vp.core import Part, Violation, check, scratch_dir, VERIF

PROPERTY = 'C15'
LEVEL = 'model_checking'
NOTE = 'every file operation of a save (open, write, truncate, rename, remove, ...) is made to fail, to be cut short, to fail from then on, or to be the last of the process; the file is examined after each'
ASSUMPTIONS = ['the process fails or dies, the machine does not: no reordering of writes by the file system', 'one save at a time to one file',
               'faults are injected at the C library boundary (LD_PRELOAD), in a scratch directory']

_SO = None


def shim():
    global _SO
    if _SO is None:
        d = os.path.join(os.environ['VP_SCRATCH'], 'fault-so')
        so = os.path.join(d, 'fault.so')
        os.makedirs(d, exist_ok=True)
        if not os.path.exists(so):
            tmp = '%s.%d' % (so, os.getpid())
            subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', tmp, os.path.join(VERIF, 'csrc', 'fault.c'), '-ldl'])
            os.rename(tmp, so)
        _SO = so
    return _SO


def run(case):
    so = shim()
    env = dict(os.environ, LD_PRELOAD=so, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-m', 'vp.faultchild', so] + list(case), env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    line = [l for l in p.stdout.splitlines() if l.startswith('RESULT ')]
    if not line:
        raise Violation('the saving process ended with status %s\n%s' % (p.returncode, p.stderr[-2000:]))
    r = json.loads(line[-1][7:])
    check(not r['bad'], '%d of %d fault points: %s', len(r['bad']), r['points'], r['bad'][:3])
    check(r['points'] > 3, 'only %d file operations seen: the injection does not work', r['points'])
    return dict(states=r['points'], transitions=r['points'], sig=(case, sorted(r['outcomes'].items())))


def cases(tier):
    def it():
        from vp.faultobjs import OBJECTS
        for o in OBJECTS:
            for mode in ('fail', 'kill', 'torn', 'short', 'failon'):
                for st, loc in (('absent', 'file'), ('exists', 'file'), ('exists', 'append'), ('exists', 'dir')):
                    if tier == 'quick' and o != 'wind':
                        if o == 'mid_unc' or mode in ('torn', 'failon') or loc == 'dir':
                            continue
                        if o == 'mid' and (mode == 'short' or (st, loc) != ('exists', 'file')):
                            continue
                        if o == 'model' and loc == 'file' and mode == 'short':
                            continue
                    yield (o, st, loc, mode)
    return it


def parts(tier):
    return [Part('faults', cases(tier), run, timeout=600, setup=shim, rule='object x state of the file x location x kind of fault, every fault point')]

"""Exhaustive-exploration driver shared by every check.

A check is a module ``checks/<id>.py`` with

  PROPERTY, LEVEL, NOTE, ASSUMPTIONS
  parts(tier) -> list of Part

A Part is a finite, explicitly enumerated space of cases (inputs, operation
sequences, histories, fault points) and a function which executes ONE case on
the real code, compares every step with an oracle and raises ``Violation`` on
disagreement.  The whole space is enumerated (never sampled), sharded over the
cores by case index.  An exception out of the real code, a crash of the process
or a hang is a violation as well.
"""
import gc
import hashlib
import itertools
import json
import mmap
import multiprocessing
import os
import pickle
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """the real code disagrees with the oracle.  ``key`` identifies the input,
    call site or history for the known-findings file."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key


class CaseTimeout(BaseException):
    pass


def check(cond, msg, *args, **kw):
    if not cond:
        raise Violation(msg % args if args else msg, kw.get('key'))


class Part(object):
    """name: short name.
    cases: callable () -> iterable of picklable/repr-able cases (deterministic).
    run: callable (case) -> None | dict(states=, transitions=, sig=, trivial=).
    timeout: seconds allowed for one case before it counts as a hang.
    procs: how many worker processes (None: all cores)."""

    def __init__(self, name, cases, run, timeout=120, procs=None, rule='',
                 setup=None, chunk=1):
        self.name = name
        self.cases = cases
        self.run = run
        self.timeout = timeout
        self.procs = procs
        self.rule = rule
        self.setup = setup
        self.chunk = chunk


def seqs(alphabet, depth, mindepth=0):
    """all operation sequences over alphabet with length mindepth..depth,
    shortest first"""
    for n in range(mindepth, depth + 1):
        for s in itertools.product(alphabet, repeat=n):
            yield s


def maximal_seqs(alphabet, depth):
    """only the sequences of exactly ``depth``: a checker that looks after every
    step covers all shorter ones as prefixes"""
    return itertools.product(alphabet, repeat=depth)


def _alarm(sig, frm):
    raise CaseTimeout()


class _Stats(object):
    def __init__(self):
        self.evals = 0
        self.states = 0
        self.transitions = 0
        self.sigs = set()
        self.violations = []
        self.samples = []
        self.capped = False

    def merge(self, o):
        self.evals += o.evals
        self.states += o.states
        self.transitions += o.transitions
        self.sigs |= o.sigs
        self.violations += o.violations
        self.samples += o.samples
        self.capped = self.capped or o.capped


def sig_hash(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


def run_one(part, case, stats, index):
    stats.evals += 1
    try:
        signal.setitimer(signal.ITIMER_REAL, part.timeout)
        try:
            r = part.run(case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as v:
        stats.violations.append((part.name, index, repr(case), v.msg, v.key))
        stats.sigs.add(sig_hash(('V', v.msg)))
        stats.states += 1
        stats.transitions += 1
        return
    except CaseTimeout:
        stats.violations.append((part.name, index, repr(case),
                                 'did not return within %g s' % part.timeout, 'hang'))
        return
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        stats.violations.append((part.name, index, repr(case),
                                 'unexpected exception %s: %s\n%s'
                                 % (type(e).__name__, e, tb[-3000:]),
                                 'exc:' + type(e).__name__))
        return
    if r is None:
        r = {}
    stats.states += r.get('states', 1)
    stats.transitions += r.get('transitions', 1)
    if not r.get('trivial'):
        stats.sigs.add(sig_hash(r['sig'] if 'sig' in r else case))
    if len(stats.samples) < 2:
        stats.samples.append('%s: %s -> %s' % (part.name, repr(case)[:400],
                                               repr(r.get('show', r.get('sig', 'held')))[:200]))


MAXV = 25


def _worker(w, n, part, progress, outfile, deadline):
    signal.signal(signal.SIGALRM, _alarm)
    if not os.environ.get('VERIF_VERBOSE'):
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
    st = _Stats()
    listed = set(k.get('key') for k in load_known())
    try:
        if part.setup:
            part.setup()
        for i, case in enumerate(part.cases()):
            if (i // part.chunk) % n != w:
                continue
            struct.pack_into('q', progress, w * 8, i)
            run_one(part, case, st, i)
            if len(st.violations) >= MAXV:
                # a listed finding must not keep the rest from being explored
                seen, keep = set(), []
                for v in st.violations:
                    if v[4] not in listed or v[4] not in seen:
                        keep.append(v)
                    seen.add(v[4])
                st.violations = keep
                if len(keep) >= MAXV:
                    break
            if time.time() > deadline:
                st.capped = True
                break
        struct.pack_into('q', progress, w * 8, -2)
    except BaseException as e:
        st.violations.append((part.name, -1, 'enumeration', 'harness could not set up the part: %s\n%s'
                              % (e, traceback.format_exc()[-3000:]), 'exc:' + type(e).__name__))
        struct.pack_into('q', progress, w * 8, -2)
    with open(outfile, 'wb') as fd:
        pickle.dump(st, fd)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def ncores():
    try:
        return max(1, len(os.sched_getaffinity(0)))
    except Exception:
        return 4


def run_part(part, scratch, deadline):
    n = part.procs or ncores()
    progress = mmap.mmap(-1, 8 * n)
    for w in range(n):
        struct.pack_into('q', progress, w * 8, -1)
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    gc.collect()
    for w in range(n):
        out = os.path.join(scratch, '%s.%d' % (part.name.replace('/', '_'), w))
        pid = os.fork()
        if pid == 0:
            try:
                _worker(w, n, part, progress, out, deadline)
            finally:
                os._exit(3)
        pids[pid] = (w, out)
    total = _Stats()
    while pids:
        pid, status = os.wait()
        if pid not in pids:
            continue
        w, out = pids.pop(pid)
        if status == 0 and os.path.exists(out):
            with open(out, 'rb') as fd:
                total.merge(pickle.load(fd))
        else:
            idx = struct.unpack_from('q', progress, w * 8)[0]
            case = None
            if idx >= 0:
                for i, c in enumerate(part.cases()):
                    if i == idx:
                        case = c
                        break
            total.evals += 1
            total.violations.append(
                (part.name, idx, repr(case),
                 'the process died (wait status %d) while executing this case' % status,
                 'crash'))
    return total


# ------------------------------------------------------------- known findings
def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as fd:
        return json.load(fd).get('known', [])


def is_known(known, pid, v):
    part, idx, case, msg, key = v
    for k in known:
        if k['property'] != pid or k.get('part', part) != part:
            continue
        if key is not None and k.get('key') == key:
            return k
    return None


# --------------------------------------------------------------------- driver
def main(mod, tier, seed, only=None):
    t0 = time.time()
    pid = mod.PROPERTY
    cap = float(os.environ.get('VERIF_CAP', '600' if tier == 'quick' else '14400'))
    deadline = t0 + cap
    scratch = os.environ['VP_SCRATCH']
    total = _Stats()
    per_part = {}
    rules = []
    try:
        for part in mod.parts(tier):
            if only and part.name not in only:
                continue
            t1 = time.time()
            st = run_part(part, scratch, deadline)
            per_part[part.name] = {
                'cases': st.evals, 'states': st.states, 'transitions': st.transitions,
                'distinct_outcomes': len(st.sigs), 'complete': not st.capped,
                'wall_s': round(time.time() - t1, 2)}
            if part.rule:
                rules.append('%s: %s' % (part.name, part.rule))
            st.samples = st.samples[:3]
            total.merge(st)
            if os.environ.get('VERIF_FAILFAST') and [v for v in st.violations if not is_known(load_known(), pid, v)]:
                break
            if os.environ.get('VERIF_VERBOSE'):
                print('  part', part.name, per_part[part.name], 'violations', len(st.violations), flush=True)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    known = load_known()
    new, old = [], {}
    for v in sorted(total.violations, key=lambda v: (v[0], v[1])):
        k = is_known(known, pid, v)
        if k:
            old.setdefault(k['what'], 0)
            old[k['what']] += 1
        else:
            new.append(v)
    cov = {'exhaustive': not total.capped and not new, 'samples': total.samples[:12],
           'parts': per_part}
    if mod.LEVEL == 'model_checking':
        cov.update(states=total.states, transitions=total.transitions,
                   traces_validated_against_impl=total.evals,
                   distinct_outcomes=len(total.sigs))
    else:
        cov.update(evaluations=total.evals, distinct_nontrivial=len(total.sigs),
                   rule='; '.join(rules) or mod.NOTE)
    if rules:
        cov['bounds'] = rules
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fd:
        json.dump(ev, fd, indent=1)
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if new:
        rd = os.path.join(VERIF, 'replay')
        os.makedirs(rd, exist_ok=True)
        seen = {}
        for v in new:
            seen.setdefault((v[0], v[4], v[3][:60]), v)
        for j, v in enumerate(list(seen.values())[:8]):
            path = os.path.join(rd, '%s-%d.json' % (pid, j))
            with open(path, 'w') as fd:
                json.dump({'property': pid, 'tier': tier, 'part': v[0], 'index': v[1],
                           'case': v[2], 'what': v[3], 'key': v[4],
                           'how': 'cd /verif && /opt/venv/bin/python -m vp.run %s --replay %s'
                                  % (pid, path)}, fd, indent=1)
            print('--- %s part %s case %s' % (pid, v[0], v[2][:600]))
            print('    %s' % v[3][:1500].replace('\n', '\n    '))
            print('    key=%r' % (v[4],))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.stdout.flush()
        return 1
    print('%s held: %d cases, %d states, %d transitions, %d distinct outcomes, %.1f s%s'
          % (pid, total.evals, total.states, total.transitions, len(total.sigs),
             time.time() - t0, ' (CAPPED by time)' if total.capped else ''))
    return 0


def replay(mod, path):
    with open(path) as fd:
        r = json.load(fd)
    signal.signal(signal.SIGALRM, _alarm)
    scratch = os.environ['VP_SCRATCH']
    try:
        for part in mod.parts(r['tier']):
            if part.name != r['part']:
                continue
            if part.setup:
                part.setup()
            for i, case in enumerate(part.cases()):
                if i == r['index']:
                    st = _Stats()
                    run_one(part, case, st, i)
                    if st.violations:
                        print(st.violations[0][3])
                        print('VIOLATION property=%s replay=%s' % (mod.PROPERTY, path))
                        return 1
                    print('the case holds now')
                    return 0
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    print('case not found')
    return 2


def scratch_dir(name=''):
    """a fresh private directory inside the run's scratch area"""
    import tempfile
    return tempfile.mkdtemp(prefix=name + '-', dir=os.environ['VP_SCRATCH'])

"""C13  the element cache gives back exactly what was saved for a step, and nothing else."""
import copy
import gc
import itertools
import os

from vp.core import Part, check, seqs, scratch_dir
from vp.g import *
from vp.scen import SCENARIOS
from gnome.utilities.cache import ElementCache, CacheError
from gnome.spill_container import SpillContainerData, SpillContainerPairData

PROPERTY = 'C13'
LEVEL = 'model_checking'
NOTE = 'every sequence of save/load/rewind/alter operations on the real cache against a reference map from step to state'
ASSUMPTIONS = []


def state(n, unc, mb):
    """element data of n elements, optionally with the uncertainty twin and a mass balance"""
    out = []
    for u in ((False, True) if unc else (False,)):
        base = 100 * n + (50 if u else 0)
        d = {'positions': np.arange(n * 3, dtype=np.float64).reshape(n, 3) + base,
             'id': np.arange(n, dtype=np.uint32),
             'status_codes': np.full(n, 2, np.int16),
             'mass': np.linspace(0, 1, n) + base,
             'mass_components': np.ones((n, 2)) * base}
        sc = SpillContainerData(d, uncertain=u)
        sc.current_time_stamp = T0 + mins(n)
        if mb:
            sc.mass_balance = {'floating': float(base), 'evaporated': .25, 'n': 3}
        out.append(sc)
    return SpillContainerPairData(*out)


STATES = {'empty': (0, False, False), 'two': (2, False, True), 'unc': (2, True, True), 'unc0': (0, True, False), 'three': (3, False, True), 'uncb': (5, True, True), 'big': (20000, False, True), 'uncbig': (9000, True, True)}


def shot(pair):
    out = []
    for sc in pair.items():
        d = \
            {k: (a.shape, str(a.dtype), a.tobytes()) for k, a in sc.data_arrays.items()}
        d['#mb'] = dict(sc.mass_balance or {})
        d['#t'] = sc.current_time_stamp
        d['#u'] = bool(sc.uncertain)
        out.append(d)
    return out


def compare(got, want, what):
    g = shot(got)
    check(len(g) == len(want) and got.uncertain == (len(want) == 2), '%s: %d element sets, expected %d', what, len(g), len(want))
    for a, b in zip(g, want):
        check(set(a) == set(b), '%s: arrays %s', what, sorted(set(a) ^ set(b)))
        for k in a:
            check(a[k] == b[k], '%s: %s is %s, expected %s', what, k, a[k], b[k])


def direct(case):
    kind, enabled, ops = case
    unc = kind.startswith('unc')
    kw = {}
    if kind.endswith('dir'):
        d = scratch_dir('cache')
        kw['cache_dir'] = d
    c = ElementCache(enabled=enabled, **kw)
    other = ElementCache(enabled=True)
    keep = state(4, True, True)
    other.save_timestep(7, keep)
    ref = {}
    last = None            # number of the most recent step
    nxt = 0
    live = None
    loaded = None
    trans = 0
    names = ['unc', 'uncb', 'unc0', 'uncbig'] if unc else ['two', 'three', 'empty', 'big']
    for op in ops:
        trans += 1
        if op.startswith('save'):
            live = state(*STATES[names[int(op[4])]])
            c.save_timestep(nxt, live)
            ref[nxt] = (shot(live), c.enabled)
            last = nxt
            nxt += 1
        elif op == 'again':          # the last step is stored again
            if last is None:
                return dict(trivial=True)
            live = state(*STATES[names[(last + 1) % 2]])
            c.save_timestep(last, live)
            ref[last] = (shot(live), c.enabled)
        elif op.startswith('over'):          # an earlier step is stored again, perhaps without its uncertainty twin
            k = int(op[4])
            if k >= nxt:
                return dict(trivial=True)
            live = state(*STATES[['two', 'uncb', 'three'][(k + trans) % 3]])
            c.save_timestep(k, live)
            ref[k] = (shot(live), c.enabled)
            last = k
        elif op == 'switch':
            c.enabled = not c.enabled
        elif op == 'rewind':
            c.rewind()
            ref = {}
            last, nxt = None, 0
        elif op == 'alter':          # the run goes on and changes its arrays in place
            if live is None:
                return dict(trivial=True)
            for sc in live.items():
                for a in sc.data_arrays.values():
                    a[...] = 77
                (sc.mass_balance or {})['floating'] = -1.
        elif op == 'spoil':          # whoever loaded a step changes what he got
            if loaded is None:
                return dict(trivial=True)
            for sc in loaded.items():
                for a in sc.data_arrays.values():
                    a[...] = 88
                sc.mass_balance['floating'] = -2.
                sc.mass_balance.pop('evaporated', None)
        elif op == 'del':            # another cache goes away
            other = None
            gc.collect()
        elif op == 'rewind_other':
            if other is None:
                return dict(trivial=True)
            other.rewind()
            other = None
        elif op.startswith('load'):
            k = int(op[4:])
            loaded = look(c, ref, last, k)
    for k in range(-1, nxt + 2):
        look(c, ref, last, k)
        look(c, ref, last, k)
    if other is not None:
        compare(other.load_timestep(7), shot(state(4, True, True)), 'the other cache')
    return dict(states=nxt + 1, transitions=trans, sig=(kind, enabled, last, nxt, ops[-2:]))


def look(c, ref, last, k):
    if k in ref and (ref[k][1] or k == last):
        got = c.load_timestep(k)
        compare(got, ref[k][0], 'step %d' % k)
        return got
    try:
        c.load_timestep(k)
    except CacheError:
        return None
    check(False, 'step %d was loaded although it is not stored', k)


OPS = ['save0', 'save1', 'save2', 'again', 'rewind', 'alter', 'load0', 'load1', 'spoil']


def direct_cases(depth):
    def it():
        for kind in ('cert', 'unc'):
            for enabled in (True, False):
                for s in seqs(OPS, depth):
                    yield (kind, enabled, s)
        for kind in ('cert', 'unc'):
            for enabled in (True, False):
                for s in seqs(['save0', 'save1', 'over0', 'over1', 'switch', 'rewind'], depth + 1, 2):
                    yield (kind, enabled, s)
        for kind in ('cert', 'unc', 'certdir', 'uncdir'):
            for enabled in (True, False):
                for s in seqs(['save0', 'save1', 'rewind', 'del', 'rewind_other', 'load0', 'spoil'], depth - 1, 1):
                    yield (kind, enabled, s)
    return it


def long_cases(tier):
    ns = (9, 11, 33, 101, 128) if tier == 'quick' else (9, 10, 11, 12, 33, 64, 99, 100, 101, 128, 130, 257, 1001)
    for kind in ('cert', 'unc', 'certdir'):
        for enabled in (True, False):
            for n in ns:
                a = tuple('save%d' % (i % 3) for i in range(n))
                yield kind, enabled, a
                yield kind, enabled, a + tuple('load%d' % i for i in range(n))
                yield kind, enabled, a + tuple('load%d' % i for i in range(n - 1, -1, -1)) + ('spoil',)
                yield kind, enabled, tuple(x for i in range(n) for x in ('save%d' % (i % 3), 'alter', 'load%d' % (i // 2), 'spoil'))
                yield kind, enabled, a + ('rewind',) + a[1:n // 2]
                yield kind, enabled, tuple(x for i in range(n) for x in ('save%d' % (i % 3),) * 3 + ('switch',) * (i % 4 == 3))
            for s in itertools.product(('save0', 'save3', 'load0', 'rewind', 'alter'), repeat=4):
                if 'save3' in s:
                    yield kind, enabled, s


def far(case):
    """steps late in a long run"""
    kind, enabled, first, second = case
    c = ElementCache(enabled=enabled)
    a, b = state(2, kind == 'unc', True), state(3, kind == 'unc', True)
    c.save_timestep(first, a)
    wa = shot(a)
    c.save_timestep(second, b)
    wb = shot(b)
    for k, w in ((second, wb), (first, wa)):
        if enabled or k == second:
            compare(c.load_timestep(k), w, 'step %d (saved %d, %d)' % (k, first, second))
    return dict(states=2, transitions=4)


FAR = [0, 1, 9, 10, 99, 100, 255, 256, 999, 1000, 1001, 9999, 10000, 32767, 32768, 65535, 65536, 100000, 999999, 1000000, 1999999]


def through_model(case):
    """every step of a run is found again in the cache, as it was when the step was made"""
    name, unc, ops = case
    s = SCENARIOS[name]
    cfg = dict(s.default)
    cfg['unc'] = unc
    m = s.build(cfg)
    m.cache_enabled = True
    seen = {}
    st = 0
    for op in ops:
        if op == 'step':
            try:
                m.step()
            except StopIteration:
                pass
            else:
                seen[m.current_time_step] = snap(m)
        elif op == 'two':
            for _ in range(2):
                try:
                    m.step()
                except StopIteration:
                    break
                seen[m.current_time_step] = snap(m)
        elif op == 'rewind':
            m.rewind()
            seen = {}
        elif op == 'unc':
            m.uncertain = not m.uncertain
            seen = {}
        elif op == 'full':
            m.full_run(rewind=True)
            seen = dict((k, None) for k in range(m.num_time_steps))
            seen[m.current_time_step] = snap(m)
        for k in range(m.num_time_steps):
            st += 1
            if k in seen:
                got = m._cache.load_timestep(k)
                if seen[k] is None:
                    seen[k] = [dict((a, (sc[a].shape, str(sc[a].dtype), sc[a].tobytes())) for a in sc.data_arrays) for sc in got.items()]
                    continue
                check(len(got.items()) == len(seen[k]), 'step %d: %d element sets', k, len(got.items()))
                for sc, w in zip(got.items(), seen[k]):
                    for a in sc.data_arrays:
                        x = (sc[a].shape, str(sc[a].dtype), sc[a].tobytes())
                        check(x == w[a], 'step %d: %s is %s in the cache, was %s', k, a, x, w[a])
                    check({a for a in w if not a.startswith('#')} == set(sc.data_arrays), 'step %d: arrays %s', k, set(sc.data_arrays) ^ set(w))
                    if w.get('#time'):
                        check(sc.current_time_stamp == w['#time'], 'step %d: time %s, expected %s', k, sc.current_time_stamp, w['#time'])
                        mb = repr(sorted((a, v if not isinstance(v, np.ndarray) else v.tolist()) for a, v in sc.mass_balance.items()))
                        check(eval(mb, {'np': np, 'nan': float('nan'), 'inf': float('inf')}) == eval(w['#mass_balance'], {'np': np, 'nan': float('nan'), 'inf': float('inf')}),
                              'step %d: mass balance %s, expected %s', k, mb, w['#mass_balance'])
            else:
                try:
                    m._cache.load_timestep(k)
                except CacheError:
                    pass
                else:
                    check(False, 'step %d is in the cache although it was not made', k)
    return dict(states=st, transitions=len(ops), sig=case)


def model_cases(depth):
    def it():
        for name in SCENARIOS:
            for unc in (False, True):
                for s in itertools.product(['step', 'two', 'rewind', 'unc', 'full'], repeat=depth if name != 'weather' else depth - 1):
                    yield (name, unc, s)
    return it


def parts(tier):
    q = tier == 'quick'
    return [Part('operations', direct_cases(4 if q else 5), direct, chunk=20, rule='all sequences of save/load/rewind/alter'),
            Part('long', lambda: long_cases(tier), direct, chunk=4, rule='up to %d saved steps, up to 20000 elements' % (128 if q else 1001)),
            Part('far', lambda: ((k, e, a, b) for k in ('cert', 'unc') for e in (True, False) for a in FAR for b in FAR if a != b), far, rule='pairs of step numbers up to two million'),
            Part('runs', model_cases(3 if q else 4), through_model, rule='all sequences of stepping a model with its cache on')]

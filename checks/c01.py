"""C01  run control: step counting, model time, end of run, rewinds, for every
sequence of run-control operations."""
from vp.core import Part, check, Violation, seqs
from vp.g import *
from datetime import datetime

PROPERTY = 'C01'
LEVEL = 'model_checking'
NOTE = 'all run-control operation sequences on the real Model against a small reference machine'
ASSUMPTIONS = ['durations keep the sign of the run direction (the model rejects the rest by design)']


class Ref(object):
    """the run as a user understands it"""

    def __init__(self, start, dt, dur, back):
        self.start, self.dt, self.dur, self.back, self.k = start, abs(dt), abs(dur), back, -1
        self.unc = False
        self.ended = False      # the last operation ran into the end of the run

    def n(self):
        return 1 + int(self.dur // self.dt)

    def time(self, k=None):
        k = self.k if k is None else k
        k = max(k, 0)
        return self.start + (-1 if self.back else 1) * secs(k * self.dt)


CONFIGS = [  # start offset, dt, duration, backwards
    (900, 3600, False),
    (900, 3000, False),       # duration is not a multiple of the time step
    (1800, 1799, False),      # shorter than one step: only the initial state
    (700, 2100, True),
    (900, 3000, True),
    (60, 180, False),
    # below: long ones, fewer sequences
    (43200, 216000, False),
    (36000, 100000, True),
]
SHORT = 6


def mk(cfg, unc=False):
    dt, dur, back = cfg
    m = Model(start_time=T0, duration=secs(dur), time_step=secs(dt), run_backwards=back,
              uncertain=unc)
    m.spills += gs.point_line_spill(num_elements=3, start_position=(0., 0., 0.),
                                    release_time=T0)
    m.movers += SimpleMover((1., 0., 0.))
    return m, Ref(T0, dt, dur, back)


def observe(m, r, what, case):
    check(m.num_time_steps == r.n(), '%s: num_time_steps %s, expected %s', what, m.num_time_steps, r.n())
    check(m.current_time_step == r.k, '%s: current step %s, expected %s', what, m.current_time_step, r.k)
    check(m.model_time == r.time(), '%s: model time %s, expected %s', what, m.model_time, r.time())
    check(m.start_time == r.start, '%s: start_time %s', what, m.start_time)
    check(abs(m.duration.total_seconds()) == r.dur, '%s: duration %s', what, m.duration)
    check((m.time_step < 0) == r.back and abs(m.time_step) == r.dt, '%s: time_step %s', what, m.time_step)
    if r.k >= 0:
        for sc in m.spills.items():
            check(sc.current_time_stamp == r.time() or (r.ended and sc.current_time_stamp is None), '%s: elements are stamped %s, expected %s',
                  what, sc.current_time_stamp, r.time())
            want = r.k * r.dt
            # released at the start: all of them have the age of the run
            check(len(sc['age']) == (3 if r.start == T0 else 0) or r.start != T0,
                  '%s: %d elements', what, len(sc['age']))
            if r.start == T0:
                check((sc['age'] == want).all(), '%s: age %s, expected %s', what, sc['age'], want)
    else:
        for sc in m.spills.items():
            check(len(sc) == 0, '%s: %d elements in a rewound model', what, len(sc))


def one_step(m, r, what, via):
    last = r.k >= r.n() - 1 and r.k >= 0
    try:
        out = m.step() if via == 'step' else next(m)
    except StopIteration:
        check(last, '%s: run ended at step %d of %d', what, r.k, r.n())
        r.ended = True
        return False
    check(not last, '%s: stepped past the end (%d steps)', what, r.n())
    r.k += 1
    check(out['step_num'] == r.k, '%s: step_num %s, expected %s', what, out['step_num'], r.k)
    check(out['step_time'] == r.time().isoformat(timespec='minutes'), '%s: step_time %s', what, out['step_time'])
    return True


def full(m, r, what, rewind):
    if rewind:
        r.k = -1
    out = m.full_run(rewind=rewind)
    want = list(range(r.k + 1, r.n()))
    if r.k == -1 and not want:
        want = [0]
    got = [o['step_num'] for o in out]
    check(got == want, '%s: steps reported %s, expected %s', what, got, want)
    times = [o['step_time'] for o in out]
    check(times == [r.time(k).isoformat(timespec='minutes') for k in want], '%s: times %s', what, times)
    if want:
        r.k = want[-1]
    r.ended = True


def apply(op, m, r):
    ended, r.ended = r.ended, False
    if op in ('longer', 'shorter', 'unc', 'rmmover', 'start', 'back'):
        r.ended = ended
    if op == 'step' or op == 'next':
        one_step(m, r, op, op)
    elif op == 'rewind':
        m.rewind()
        r.k = -1
    elif op == 'full':
        full(m, r, op, True)
    elif op == 'rest':
        full(m, r, op, False)
    elif op == 'iter':
        got = [o['step_num'] for o in m]
        check(got == list(range(r.n())), 'iter: %s', got)
        r.k = r.n() - 1
        r.ended = True
    elif op == 'longer' or op == 'shorter':
        old = r.dur
        r.dur = old + 2 * r.dt if op == 'longer' else max(0, old - r.dt)
        m.duration = secs(-r.dur if r.back else r.dur)
        if r.dur < old:
            r.k = -1
    elif op == 'dt':
        r.dt = {900: 1200, 1200: 900, 1800: 600, 600: 1800, 700: 1050, 1050: 700, 60: 61, 61: 60, 43200: 36000, 36000: 43200}[r.dt]
        m.time_step = (-1 if r.back else 1) * r.dt
        r.k = -1
    elif op == 'dtd':
        r.dt = {900: 1200, 1200: 900, 1800: 600, 600: 1800, 700: 1050, 1050: 700, 60: 61, 61: 60, 43200: 36000, 36000: 43200}[r.dt]
        m.time_step = secs((-1 if r.back else 1) * r.dt)
        r.k = -1
    elif op == 'start':
        r.start = T0 - secs(300) if r.start == T0 and not r.back else T0
        if r.back:
            r.start = T0
        m.start_time = r.start
        r.k = -1
    elif op == 'back':
        if r.start != T0:
            return      # the spill would precede the start: rejected by design
        r.back = not r.back
        m.run_backwards = r.back
        r.k = -1
    elif op == 'unc':
        r.unc = not r.unc
        m.uncertain = r.unc
        r.k = -1
        check(len(m.spills.items()) == (2 if r.unc else 1), 'unc: %d element sets', len(m.spills.items()))
    elif op == 'map':
        m.map = gs.GnomeMap()
        r.k = -1
    elif op == 'mover':
        m.movers += SimpleMover((0., 1., 0.))
        r.k = -1
    elif op == 'rmmover':
        if len(m.movers) > 1:
            del m.movers[-1]
            r.k = -1
    else:
        raise AssertionError(op)


OPS = ['step', 'rewind', 'full', 'rest', 'longer', 'shorter', 'dt', 'back', 'unc', 'start',
       'mover', 'iter']
SMALL = ['step', 'next', 'rest', 'longer', 'shorter', 'rewind']
WIDE = OPS + ['map', 'dtd', 'rmmover', 'next']


def run(case):
    ci, ops = case
    m, r = mk(CONFIGS[ci])
    observe(m, r, 'initial', case)
    trace = []
    for i, op in enumerate(ops):
        apply(op, m, r)
        observe(m, r, 'after %s' % (ops[:i + 1],), case)
        trace.append((r.k, r.n()))
    return {'states': len(ops) + 1, 'transitions': len(ops), 'sig': (ci, tuple(trace)), 'show': trace}


# ---------------------------------------------------------------- every length of run and step
DTS = [1, 7, 59, 60, 61, 299, 300, 600, 900, 1000, 1800, 3599, 3600, 5400, 7200, 21600, 43200, 86399, 86400, 90000, 604800]
STARTS = [T0, datetime(2020, 2, 28, 23, 50), datetime(2019, 12, 31, 23, 59, 59), datetime(1999, 12, 31, 12, 0), datetime(2038, 1, 19, 3, 0),
          datetime(2023, 2, 28, 22, 0, 1), datetime(1971, 1, 1)]
WAYS = ['ctor', 'ctor seconds', 'dt dur', 'dur dt', 'start last', 'dict']


def len_cases(tier):
    for dt in DTS:
        durs = sorted(set([0, 1, dt - 1, dt, dt + 1, 2 * dt - 1, 2 * dt, 3 * dt + dt // 2, 11 * dt - 1, 11 * dt, 59, 3600, 86399, 86400, 86401, 3 * 86400, 31 * 86400, 366 * 86400 + 1]))
        for dur in durs:
            n = dur // dt
            for i, st in enumerate(STARTS):
                for j, way in enumerate(WAYS):
                    if tier == 'quick' and i and j and (i + j) % 3:
                        continue
                    if n > (40 if i or j else 400) and tier == 'quick' or n > 3000:
                        if (i + j) % 4:
                            continue
                    for back in (False, True):
                        yield dt, dur, st, way, back


def len_run(case):
    dt, dur, st, way, back = case
    sg = -1 if back else 1
    if way == 'ctor':
        m = Model(start_time=st, duration=secs(dur), time_step=secs(dt), run_backwards=back)
    elif way == 'ctor seconds':
        m = Model(start_time=st, duration=secs(dur), time_step=dt, run_backwards=back)
    else:
        m = Model(start_time=st if way != 'start last' else T0, run_backwards=back)
        if way == 'dt dur':
            m.time_step = sg * dt
            m.duration = secs(sg * dur)
        elif way == 'dur dt':
            m.duration = secs(sg * dur)
            m.time_step = secs(sg * dt)
        elif way == 'start last':
            m.time_step = secs(sg * dt)
            m.duration = secs(sg * dur)
            m.start_time = st
        else:
            m.update_from_dict({'time_step': sg * dt, 'duration': sg * dur})
    r = Ref(st, dt, dur, back)
    observe(m, r, 'set up', case)
    n = r.n()
    if n > 400:
        return dict(states=1, sig=(dt, dur, way, back))
    for k in range(n):
        check(one_step(m, r, 'step %d' % k, 'step'), 'ended at %d of %d', k, n)
        check(m.model_time == r.time(k) and m.current_time_step == k, 'step %d: at %s (step %s), expected %s', k, m.model_time, m.current_time_step, r.time(k))
    check(not one_step(m, r, 'the end', 'step'), 'not at the end')
    # the loop says the same
    if n <= 40:
        got = [(o['step_num'], o['step_time']) for o in m]
        check(got == [(k, r.time(k).isoformat(timespec='minutes')) for k in range(n)], 'steps of the loop %s', got)
    return dict(states=2 * n, transitions=2 * n, sig=(dt, dur, way, back))


def parts(tier):
    if tier == 'quick':
        d, dw, ds = 3, 2, 5
    else:
        d, dw, ds = 5, 4, 7

    def cases_a():
        for ci in range(SHORT):
            for s in seqs(OPS, d, d):
                yield ci, s

    def cases_w():
        for ci in range(SHORT):
            for s in seqs(WIDE, dw, dw):
                # explored from a run in progress: two steps in
                yield ci, ('step', 'step') + s

    def cases_s():
        for ci in (0, 1, 4):
            for s in seqs(SMALL, ds, ds):
                yield ci, s
    return [Part('lengths', lambda: len_cases(tier), len_run, rule='time step x duration (around the multiples of the step, a day, months, a year) x start x way to set it x direction, every step of the run'),
            Part('control', cases_a, run, rule='all sequences of %d of %d operations x %d configurations' % (d, len(OPS), SHORT)),
            Part('days', lambda: ((ci, p + s) for ci in range(SHORT, len(CONFIGS)) for p in ((), ('step',)) for s in seqs(OPS, d - 1, d - 1)), run, rule='all sequences of %d of %d operations on runs of several days' % (d - 1, len(OPS))),
            Part('midrun', cases_w, run, rule='all sequences of %d of %d operations from a run in progress' % (dw, len(WIDE))),
            Part('stepping', cases_s, run, rule='all sequences of %d of %d stepping operations x 3 configurations' % (ds, len(SMALL)))]

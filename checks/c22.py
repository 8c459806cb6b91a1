"""C22  every mover carries every element exactly as its law says."""
import itertools
import math
import os
from datetime import datetime

from vp.core import Part, check
from vp.g import *
from gnome.maps.map import GnomeMap
from gnome.environment import Wind
from gnome.environment.environment import Environment
from gnome.utilities.inf_datetime import InfTime, MinusInfTime
from gnome.movers import RiseVelocityMover, RandomMover3D
from gnome.movers.py_current_movers import CurrentMover
from gnome.movers.py_wind_movers import WindMover
from gnome.spills.release import Release
from gnome.spills.spill import Spill

PROPERTY = 'C22'
LEVEL = 'model_checking'
NOTE = 'all sets of movers, active ranges, step lengths, directions and kinds of elements, run on the real Model; every element compared with an independent integration after every step'
ASSUMPTIONS = ['a metre is 8.9992801e-06 degrees of latitude (flat earth at the latitude of the element)',
               'the wind and current of PointWindMover and SimpleMover are those at the start of the step']
DEG = 8.9992801e-06


class Field(Environment):
    """a current or wind known in closed form, with the interface of the gridded ones"""
    data_start = MinusInfTime()
    data_stop = InfTime()
    data_file = None

    def __init__(self, f, ref='current'):
        super(Field, self).__init__()
        self.f = f
        self._ref_as = ref

    def __eq__(self, other):
        return self is other

    __hash__ = None

    def at(self, points, time, *args, **kw):
        points = np.asarray(points)
        s = (time - T0).total_seconds()
        return np.array([self.f(p[0], p[1], p[2], s) for p in points], dtype=float).reshape(-1, 3)


def shear(x, y, z, s):
    return (.4 + .02 * y + s * 1e-4, -.3 + .05 * x, 0.)


def swirl(x, y, z, s):
    return (2. - s * 2e-4, 3. + .1 * x, 0.)


SERIES = [(-7200, (4., 100.)), (-3600, (9., 200.)), (0, (5., 300.)), (1800, (8., 60.)), (3600, (2., 170.)), (7200, (11., 10.))]


def wind_uv(s):
    def uv(v):
        return (-v[0] * math.sin(math.radians(v[1])), -v[0] * math.cos(math.radians(v[1])))
    if s <= SERIES[0][0]:
        return uv(SERIES[0][1])
    for (a, va), (b, vb) in zip(SERIES, SERIES[1:]):
        if a <= s <= b:
            f = (s - a) / float(b - a)
            ua, ub = uv(va), uv(vb)
            return (ua[0] + f * (ub[0] - ua[0]), ua[1] + f * (ub[1] - ua[1]))
    return uv(SERIES[-1][1])


def series_wind():
    from gnome.basic_types import datetime_value_2d
    ts = np.zeros(len(SERIES), dtype=datetime_value_2d)
    for i, (s, v) in enumerate(SERIES):
        ts[i]['time'] = T0 + secs(s)
        ts[i]['value'] = v
    return Wind(timeseries=ts, units='m/s', extrapolation_is_allowed=True)


def to_deg(d, lat):
    return np.array((d[0] * DEG / math.cos(math.radians(lat)), d[1] * DEG, d[2]))


def rk(f, method, p, s, dt):
    """metres carried in one step by the velocity f(p, s)"""
    p = np.asarray(p, float)

    def at(q, t):
        return np.array(f(q[0], q[1], q[2], t), float)
    v0 = at(p, s)
    if method == 'Euler':
        return v0 * dt
    if method == 'RK2':
        return dt / 2. * (v0 + at(p + to_deg(v0 * dt, p[1]), s + dt))
    v1 = at(p + to_deg(v0 * dt / 2., p[1]), s + dt / 2.)
    v2 = at(p + to_deg(v1 * dt / 2., p[1]), s + dt / 2.)
    v3 = at(p + to_deg(v2 * dt, p[1]), s + dt)
    return dt / 6. * (v0 + 2 * v1 + 2 * v2 + v3)


# name: (make, reference(position, windage, rise velocity, seconds, dt) -> metres or None if it does not act on submerged oil)
W1 = (7., 200.)


def w1(x, y, z, s):
    return (-7. * math.sin(math.radians(200.)), -7. * math.cos(math.radians(200.)), 0.)


def wser(x, y, z, s):
    return wind_uv(s) + (0.,)


MOVERS = {
    'simple': (lambda **k: SimpleMover((.5, -.3, 0.), **k), lambda p, w, r, s, dt: np.array((.5, -.3, 0.)) * dt),
    'down': (lambda **k: SimpleMover((0., .2, .001), **k), lambda p, w, r, s, dt: np.array((0., .2, .001)) * dt),
    'wind': (lambda **k: PointWindMover(constant_wind(7, 200, 'm/s'), **k),
             lambda p, w, r, s, dt: np.array(w1(0, 0, 0, s)) * dt * w * (p[2] <= 0)),
    'windseries': (lambda **k: PointWindMover(series_wind(), **k),
                   lambda p, w, r, s, dt: np.array(wser(0, 0, 0, s)) * dt * w * (p[2] <= 0)),
    'pywind': (lambda **k: WindMover(wind=series_wind(), scale_value=.7, **k),
               lambda p, w, r, s, dt: rk(wser, 'RK2', p, s, dt) * w * .7 * (p[2] <= 0)),
    'current2': (lambda **k: CurrentMover(current=Field(shear), default_num_method='RK2', **k),
                 lambda p, w, r, s, dt: rk(shear, 'RK2', p, s, dt)),
    'current4': (lambda **k: CurrentMover(current=Field(shear), default_num_method='RK4', scale_value=-1.5, **k),
                 lambda p, w, r, s, dt: rk(shear, 'RK4', p, s, dt) * -1.5),
    'rise': (lambda **k: RiseVelocityMover(**k), lambda p, w, r, s, dt: np.array((0., 0., -r * dt))),
}
EXTRA = {
    'current1': (lambda **k: CurrentMover(current=Field(swirl), default_num_method='Euler', **k),
                 lambda p, w, r, s, dt: rk(swirl, 'Euler', p, s, dt)),
    'pywind1': (lambda **k: WindMover(wind=series_wind(), default_num_method='Euler', **k),
                lambda p, w, r, s, dt: rk(wser, 'Euler', p, s, dt) * w * (p[2] <= 0)),
    'pywind4': (lambda **k: WindMover(wind=Field(swirl, 'wind'), default_num_method='RK4', **k),
                lambda p, w, r, s, dt: rk(swirl, 'RK4', p, s, dt) * w * (p[2] <= 0)),
}
ALL = dict(MOVERS, **EXTRA)

ELEMS = [(0., 0., 0.), (10., 60., 0.), (-150., -75., 0.), (3., 30., 4.), (3., 30.5, 25.), (20., 45., 0.)]
RISE = [.0, .001, .002, .003, .05, .0005]
ON_LAND = 5         # this one is ashore
NSTEP = 4


def build(names, dt, back, unc, windage, opts, n=4):
    sg = -1 if back else 1
    m = Model(start_time=T0, duration=secs(sg * dt * n), time_step=secs(sg * dt), map=GnomeMap(), uncertain=unc, run_backwards=back)
    for i, p in enumerate(ELEMS):
        m.spills += Spill(release=Release(release_time=T0, num_elements=1, custom_positions=[p]),
                          substance=None, amount=1, units='kg')
    for sp in m.spills:
        sp.substance.windage_range = windage[0]
        sp.substance.windage_persist = windage[1]
    mv = []
    for n_ in names:
        o = ALL[n_][0](**opts.get(n_, {}))
        m.movers += o
        mv.append(o)
    return m, mv


def active(opt, t, dt):
    if not opt.get('on', True):
        return False
    a = opt.get('active_range')
    if a is None:
        return True
    mid = t + secs(dt / 2.)
    return a[0] <= mid <= a[1]


def run(case):
    names, dt, back, unc, windage, opts = case
    opts = {k: dict(v) for k, v in opts}
    m, mv = build(names, dt, back, unc, windage, opts, NSTEP)
    m.rewind()
    m.step()
    sg = -1 if back else 1
    for sc in m.spills.items():
        if 'rise_vel' in sc:
            sc['rise_vel'][:] = RISE
        sc['status_codes'][ON_LAND] = oil_status.on_land
    ref = [np.array(p) for p in ELEMS]
    path = [1e-6] * len(ref)
    wnow = {}
    t = T0
    states = 0
    while True:
        try:
            m.step()
        except StopIteration:
            break
        sc = m.spills.items()[0]
        s = (t - T0).total_seconds()
        for i in range(len(ref)):
            if i == ON_LAND:
                continue
            w = float(sc['windages'][i]) if 'windages' in sc else 0.
            if 'windages' in sc:
                (lo, hi), per = windage
                acts = any(active(opts.get(n, {}), t, sg * dt) for n in names if 'wind' in n)
                # new every step, within a range that makes the spread independent of the step; or kept for ever
                k = math.sqrt(per / float(dt)) if 0 < per <= 900 and acts else 1.
                mid, half = (lo + hi) / 2., (hi - lo) / 2. * k
                check(abs(w - mid) <= half + 1e-9, 'step at %s: windage %s of element %d is outside %s +- %s', t, w, i, mid, half)
                if i in wnow and hi > lo:
                    keep = not (0 < per <= 900 and acts)
                    check((w == wnow[i]) == keep, 'step at %s: windage of element %d was %s and is %s (persistence %s)', t, i, wnow[i], w, per)
                wnow[i] = w
            d = np.zeros(3)
            for n in names:
                if active(opts.get(n, {}), t, sg * dt):
                    one = to_deg(ALL[n][1](ref[i], w, RISE[i], s, sg * dt), ref[i][1])
                    d = d + one
                    path[i] += max(abs(one[0]), abs(one[1]))
            ref[i] = ref[i] + d
            if ref[i][2] < 0:
                ref[i][2] = 0.
        t += secs(sg * dt)
        got = sc['positions']
        check(len(got) == len(ref), 'step at %s: %d elements', t, len(got))
        for i, r in enumerate(ref):
            e = np.abs(got[i] - r)
            tol = 2e-5 * path[i] + 1e-11
            check(e[0] <= tol and e[1] <= tol and e[2] <= 1e-9 + 1e-7 * abs(r[2]), 'after the step to %s element %d is at %s, expected %s (off by %s)', t, i, got[i].tolist(), r.tolist(), e.tolist())
            states += 1
        check(m.model_time == t, 'model time %s', m.model_time)
    return dict(states=states, transitions=states, sig=(names, [np.round(r, 6).tolist() for r in ref]))


LATTICE = [(x, y, z) for x in (-179.99, -120., -60.5, 0., 33., 100., 179.99) for y in (-78., -60., -30., -.001, 0., 15., 45., 70.)
           for z in (0., 200.)]


def place_run(case):
    """the same laws all over the earth, for many elements, for many steps"""
    global ELEMS, RISE, NSTEP
    where, nstep, sub = case
    keep = ELEMS, RISE, NSTEP
    ELEMS = LATTICE if where == 'earth' else [ELEMS[i % 6] for i in range(260)]
    RISE = [.001 * (i % 7) for i in range(len(ELEMS))]
    NSTEP = nstep
    try:
        return run(sub)
    finally:
        ELEMS, RISE, NSTEP = keep


def place_cases(tier):
    for n in ALL:
        for back in (False, True):
            for dt in (900, 21600) if tier == 'quick' else (300, 900, 3600, 21600, 86400):
                yield 'earth', 3, ((n,), dt, back, False, FIX, ())
            yield 'crowd', 3, ((n,), 900, back, True, FIX, ())
            if tier != 'quick':
                yield 'crowd', 200, ((n,), 900, back, True, FIX, ())
    yield 'earth', 40, (('simple', 'windseries', 'rise'), 3600, False, False, FIX, ())
    yield 'earth', 30, (('current2', 'pywind'), 3600, True, False, FIX, ())
    yield 'earth', 30, (('current4', 'wind'), 3600, False, True, FIX, ())
    yield 'crowd', 30, (tuple(MOVERS), 900, False, False, FIX, ())


WIN = [None]
FIX = ((.03, .03), -1)


def subsets_cases(tier):
    names = list(MOVERS)
    for k in range(len(names) + 1):
        for s in itertools.combinations(names, k):
            for back in (False, True):
                yield (s, 900, back, len(s) % 2 == 0, FIX, ())
    for n in ALL:
        for dt in (60, 300, 600, 900, 1800, 3600) if tier == 'quick' else (60, 150, 300, 450, 600, 900, 1200, 1800, 3600, 7200):
            for back in (False, True):
                for unc in (False, True):
                    for wd in (FIX, ((.0, .0), -1), ((.01, .04), -1), ((.01, .04), 900), ((.02, .02), 900), ((.01, .04), 300), ((.01, .04), 90000)):
                        if wd is not FIX and 'wind' not in n:
                            continue
                        yield ((n,), dt, back, unc, wd, ())
    for p in itertools.permutations(['simple', 'windseries', 'current2', 'pywind'], 3):
        yield (p, 900, False, False, FIX, ())


def window_cases(tier):
    """active ranges against the middle of the steps, both ends included"""
    names = list(ALL) if tier != 'quick' else ['simple', 'windseries', 'pywind', 'current2', 'rise']
    for n in names:
        for back in (False, True):
            sg = -1 if back else 1
            times = [-5000, 0, 449, 450, 451, 900, 1350, 1351, 1800, 2249, 2250, 3150, 3600, 9000]
            for a, b in itertools.combinations(times, 2):
                x, y = sorted((sg * a, sg * b))
                yield ((n, 'current4') if n != 'current4' else (n,), 900, back, False, FIX, ((n, (('active_range', (T0 + secs(x), T0 + secs(y))),)),))
            yield ((n, 'current4') if n != 'current4' else (n,), 900, back, False, FIX, ((n, (('on', False),)),))
    # two movers with different windows
    for a, b in itertools.product((0, 900, 1800, 2700), repeat=2):
        yield (('simple', 'windseries'), 900, False, False, FIX, (('simple', (('active_range', (T0 + secs(a), T0 + secs(9999))),)), ('windseries', (('active_range', (T0 - secs(9), T0 + secs(b + 1))),))))


# ---------------------------------------------------------------- the random walk
RPOS = [(0., 0., 0.), (10., 60., 0.), (-150., -75., 0.), (3., 30., 4.), (20., 45., 0.)]
RN = 1500


def random_run(case):
    coef, factor, dt, back, way = case
    sg = -1 if back else 1
    m = Model(start_time=T0, duration=secs(sg * dt * 3), time_step=secs(sg * dt), map=GnomeMap(), uncertain=True, run_backwards=back)
    for p in RPOS:
        m.spills += gs.point_line_spill(RN, p, T0, amount=1, units='kg')
    if way == 'given':
        mv = RandomMover(diffusion_coef=coef, uncertain_factor=factor)
    else:
        mv = RandomMover()
        mv.diffusion_coef = coef
        mv.uncertain_factor = factor
    m.movers += mv
    m.rewind()
    m.step()
    for sc in m.spills.items():
        sc['status_codes'][4 * RN:] = oil_status.on_land
    states = 0
    prev = [sc['positions'].copy() for sc in m.spills.items()]
    for k in range(3):
        m.step()
        for u, sc in enumerate(m.spills.items()):
            d = sc['positions'] - prev[u]
            prev[u] = sc['positions'].copy()
            check((d[:, 2] == 0).all(), 'the random walk changed a depth')
            check((d[3 * RN:] == 0).all(), 'the random walk moved submerged or beached elements')
            top = math.sqrt(6. * coef / 1e4 * dt * (factor if u else 1.))
            for j in range(3):
                q = d[j * RN:(j + 1) * RN] / DEG
                x, y = q[:, 0] * math.cos(math.radians(RPOS[j][1])), q[:, 1]
                # |latitude| changes during the walk: 1e-2 covers the change of the length of a degree
                check((np.abs(x) <= top * 1.01 + 1e-6).all() and (np.abs(y) <= top * 1.01 + 1e-6).all(),
                      'step %d of %s s, D=%s: a move of (%s, %s) m exceeds %s m', k, sg * dt, coef, np.abs(x).max(), np.abs(y).max(), top)
                if top:
                    # the variance of each component is 2 D dt (a square of half width top; the first step is a circle: 3/4 of it)
                    for c in (x, y):
                        var = c.var() / (top * top / 3.)
                        lo, hi = ((.6, 1.2) if k == 0 else (.85, 1.15))
                        check(lo < var < hi, 'step %d of %s s, D=%s, uncertain %s: spread %s of what 2 D dt says', k, sg * dt, coef, u, var)
                        check(abs(c.mean()) < top * .12, 'step %d: the random walk drifts by %s of its largest move', k, c.mean() / top)
                    check(abs(np.corrcoef(x, y)[0, 1]) < .2, 'the two components of the walk are related')
                    check(len(set(x.tolist())) > RN * .9, 'elements share their random moves')
                states += 1
    return dict(states=states, transitions=states, sig=(case,))


def random_cases(tier):
    for coef in (0., 1., 100., 1e5, 1e6) if tier == 'quick' else (0., 1., 100., 1e4, 1e5, 3e5, 1e6):
        for factor in (1., 2., 4.):
            for dt in (60, 900, 3600):
                for back in (False, True):
                    for way in ('given', 'set'):
                        yield (coef, factor, dt, back, way)


# ---------------------------------------------------------------- the random walk in three dimensions
Z3 = [0., .5, 9.5, 10., 10.5, 60.]
ZN = 600


def random3_run(case):
    va, vb, ha, hb, ml, surf, dt, back, way = case
    sg = -1 if back else 1
    m = Model(start_time=T0, duration=secs(sg * dt * 3), time_step=secs(sg * dt), map=GnomeMap(), uncertain=False, run_backwards=back)
    for z in Z3:
        m.spills += gs.point_line_spill(ZN, (3., 40., z), T0, amount=1, units='kg')
    kw = dict(vertical_diffusion_coef_above_ml=va, vertical_diffusion_coef_below_ml=vb, horizontal_diffusion_coef_above_ml=ha,
              horizontal_diffusion_coef_below_ml=hb, mixed_layer_depth=ml, surface_is_allowed=surf)
    if way == 'given':
        mv = RandomMover3D(**kw)
    else:
        mv = RandomMover3D()
        for k in (sorted(kw) if way == 'set' else reversed(sorted(kw))):
            setattr(mv, k, kw[k])
    for k in kw:
        check(getattr(mv, k) == kw[k], '%s is %s, not %s', k, getattr(mv, k), kw[k])
    m.movers += mv
    m.rewind()
    m.step()
    sc = m.spills.items()[0]
    sc['status_codes'][::50] = oil_status.on_land
    prev = sc['positions'].copy()
    states = 0
    for k in range(3):
        m.step()
        sc = m.spills.items()[0]
        d = sc['positions'] - prev
        z0, z1 = prev[:, 2], sc['positions'][:, 2]
        still = np.zeros(len(d), bool)
        still[::50] = True
        check((d[still] == 0).all(), 'a beached element was moved')
        if surf:
            check((d[z0 == 0] == 0).all(), 'an element at the surface was moved, which surface_is_allowed excludes')
            still |= z0 == 0
        check(np.isfinite(sc['positions']).all(), 'a position is not a number')
        check((z1 >= 0).all(), 'an element is above the surface')
        go = ~still
        if not surf and (vb > 0 or va > 0):
            check((z1[go & ((z0 > ml) | (va > 0))] > 0).all(), 'an element surfaced')
        x, y = d[:, 0] / DEG * math.cos(math.radians(40.)), d[:, 1] / DEG
        for sel, D in ((go & (z0 <= ml), ha), (go & (z0 > ml), hb)):
            top = math.sqrt(6. * D / 1e4 * dt)
            n = sel.sum()
            if not n:
                continue
            check((np.abs(x[sel]) <= top * 1.01 + 1e-6).all() and (np.abs(y[sel]) <= top * 1.01 + 1e-6).all(), 'an element moves %s m sideways, the limit is %s m', max(np.abs(x[sel]).max(), np.abs(y[sel]).max()), top)
            if top and n > 400:
                for c in (x[sel], y[sel]):
                    check(.75 < c.var() * 3. / top / top < 1.25, 'spread sideways is %s of what 2 D dt says', c.var() * 3. / top / top)
                    check(abs(c.mean()) < .2 * top, 'the walk drifts sideways')
            if top == 0:
                check((x[sel] == 0).all() and (y[sel] == 0).all(), 'no diffusion, but a move')
        ta, tb = math.sqrt(6. * va / 1e4 * dt), math.sqrt(6. * vb / 1e4 * dt)
        up, dn = go & (z0 <= ml), go & (z0 > ml)
        dz = np.abs(z1 - z0)
        check((dz[dn] <= tb * (1 + 1e-6) + 1e-5).all(), 'below the mixed layer an element moves %s m vertically, the limit is %s m', dz[dn].max() if dn.any() else 0, tb)
        if ta < ml:                              # a larger move is put anywhere in the mixed layer
            check((dz[up] <= ta + tb + 1e-5).all(), 'in the mixed layer an element moves %s m vertically, the limit is %s m', dz[up].max() if up.any() else 0, ta + tb)
        if ta + tb < ml:                         # a larger move is reflected below it by the surface
            check((z1[up] <= ml + tb + 1e-5).all(), 'an element leaves the mixed layer by %s m, the limit is %s m', (z1[up] - ml).max() if up.any() else 0, tb)
        far = dn & (z0 > tb + 1.)
        if tb and far.sum() > 400:
            check(.75 < (z1 - z0)[far].var() * 3. / tb / tb < 1.25, 'vertical spread below the mixed layer is %s of what 2 D dt says', (z1 - z0)[far].var() * 3. / tb / tb)
        prev = sc['positions'].copy()
        states += len(d)
    return dict(states=states, transitions=states, sig=(case,))


def random3_cases(tier):
    for va, vb in itertools.product((0., 5., 500.), (0., .11, 40.)):
        for ha, hb in ((1e5, 126.), (0., 50.), (300., 0.)):
            for ml in (.2, 10., 30.):
                for surf in (False, True):
                    for dt in (900,) if tier == 'quick' else (60, 900, 3600):
                        for back in (False, True):
                            for way in ('given', 'set') if tier == 'quick' else ('given', 'set', 'set reversed'):
                                if tier == 'quick' and back and way == 'set':
                                    continue
                                yield (va, vb, ha, hb, ml, surf, dt, back, way)


# ---------------------------------------------------------------- elements do not see each other
def alone_run(case):
    names, dt, unc, order = case
    res = {}
    for sub in order:
        m = Model(start_time=T0, duration=secs(dt * 3), time_step=secs(dt), map=GnomeMap(), uncertain=unc)
        for i in sub:
            m.spills += Spill(release=Release(release_time=T0, num_elements=1, custom_positions=[ELEMS[i]]), substance=None, amount=1, units='kg')
        for sp in m.spills:
            sp.substance.windage_range = (.03, .03)
            sp.substance.windage_persist = -1
        for n in names:
            m.movers += ALL[n][0]()
        m.rewind()
        m.step()
        for _ in range(3):
            m.step()
        sc = m.spills.items()[0]
        for k, i in enumerate(sub):
            p = sc['positions'][k].tolist()
            e = res.setdefault(i, p)
            check(np.allclose(e, p, rtol=0, atol=1e-12), 'element %d ends at %s, but at %s in the company of %s', i, e, p, sub)
    return dict(states=len(order), transitions=3 * len(order), sig=(names, sorted(res.items())))


def alone_cases(tier):
    ids = range(5)
    subs = [tuple([i]) for i in ids] + list(itertools.permutations(ids, 2)) + [tuple(ids), tuple(reversed(ids))]
    if tier != 'quick':
        subs += list(itertools.permutations(ids, 3))
    for n in ALL:
        for unc in (False, True):
            yield ((n,), 900, unc, tuple(subs))
    yield (tuple(MOVERS), 900, False, tuple(subs))


# ---------------------------------------------------------------- CATS currents with tides
_cur = {}


def read_cur(path):
    """vertices, triangles and their velocities, read independently"""
    if path not in _cur:
        L = [l.split() for l in open(path)]
        n = int(L[1][1])
        v = np.array([(float(a[0]), float(a[1])) for a in L[3:3 + n]])
        k = next(i for i, l in enumerate(L) if l and l[0] == 'Topology')
        nt = int(L[k][1])
        tri = np.array([[int(x) for x in l[:3]] for l in L[k + 1:k + 1 + nt]])
        vel = np.array([[float(x) for x in l[6:8]] for l in L[k + 1:k + 1 + nt]])
        _cur[path] = (v, tri, vel)
    return _cur[path]


def tri_at(cur, p):
    """the triangle the point is well inside of, None outside of all, False near an edge"""
    v, tri, vel = cur
    a, b, c = v[tri[:, 0]], v[tri[:, 1]], v[tri[:, 2]]

    def cr(o, d):
        return (d[:, 0] - o[:, 0]) * (p[1] - o[:, 1]) - (d[:, 1] - o[:, 1]) * (p[0] - o[:, 0])
    area = (b[:, 0] - a[:, 0]) * (c[:, 1] - a[:, 1]) - (b[:, 1] - a[:, 1]) * (c[:, 0] - a[:, 0])
    w = np.stack([cr(a, b), cr(b, c), cr(c, a)]) / area
    ins = np.where((w > .02).all(axis=0))[0]
    if len(ins):
        return int(ins[0])
    return None if not (w > -.02).all(axis=0).any() else False


DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')
CT = datetime(2014, 9, 3, 13, 0)


def cats_run(case):
    from gnome.movers import CatsMover
    from gnome.utilities.time_utils import date_to_sec
    from gnome.environment import Tide
    fname, scale, value, tide, dt, back, chunk, order = case
    path = os.path.join(DATA, fname)
    cur = read_cur(path)
    v, tri, vel = cur
    refp = (-66.116667, 18.458333) if fname.startswith('Ebb') else (-66.084333333, 18.46966667)
    td = Tide(os.path.join(DATA, 'EbbTidesShioHt.txt'), scale_factor=tide) if tide else None
    mv = CatsMover(path, tide=td)
    for what in order:
        if what == 'ref':
            mv.scale_refpoint = refp
        elif what == 'scale':
            mv.scale = scale
        else:
            mv.scale_value = value
    if scale:
        k = tri_at(cur, refp)
        assert k is not None and k is not False
        factor = value / math.hypot(*vel[k])
    else:
        factor = 1.
    cen = v[tri].mean(axis=1)
    lo, hi = v.min(axis=0), v.max(axis=0)
    pts = [tuple(c) + (0.,) for c in cen[chunk::7]]
    # a lattice over the whole box, inside and outside of the grid
    for i in range(13):
        for j in range(7):
            pts.append((lo[0] + (hi[0] - lo[0]) * (i * 7 + chunk + .5) / 91. * 1.2 - .1 * (hi[0] - lo[0]), lo[1] + (hi[1] - lo[1]) * (j + .37) / 6.3, 0.))
    n0 = len(pts)
    pts += [p[:2] + (2.,) for p in pts[:20]]            # submerged
    sg = -1 if back else 1
    m = Model(start_time=CT, duration=secs(sg * dt * 2), time_step=secs(sg * dt), map=GnomeMap(), uncertain=False, run_backwards=back)
    m.spills += Spill(release=Release(release_time=CT, num_elements=len(pts), custom_positions=pts), substance=None, amount=1, units='kg')
    m.movers += mv
    m.rewind()
    m.step()
    sc = m.spills.items()[0]
    states = 0
    t = CT

    for _ in range(2):
        before = sc['positions'].copy()
        if states == 0:
            sc['status_codes'][:3] = oil_status.on_land
        f = factor
        if td is not None:
            f = factor * float(td.cy_obj.get_time_value(date_to_sec(t))[0][0]['u'])
        m.step()
        sc = m.spills.items()[0]
        d = sc['positions'] - before
        for i, p in enumerate(before):
            k = tri_at(cur, p)
            if k is False:
                continue
            if k is None or i >= n0 or i < 3:
                e = np.zeros(3)
            else:
                e = to_deg(np.array((vel[k][0] * f, vel[k][1] * f, 0.)) * sg * dt, p[1])
            check(np.allclose(d[i], e, rtol=2e-5, atol=1e-12), 'step at %s: element %d at %s moves by %s, expected %s', t, i, p.tolist(), d[i].tolist(), e.tolist())
            states += 1
        # what is shown on the screen is what moves the elements, and asking changes nothing
        for again in range(2):
            g = mv.get_scaled_velocities(date_to_sec(t))
            check(np.allclose(np.stack([g['u'], g['v']], axis=1), vel * f, rtol=1e-5, atol=1e-9), 'get_scaled_velocities at %s is not the velocity of the file times %s', t, f)
        t += secs(sg * dt)
    return dict(states=states, transitions=states, sig=(fname, round(factor, 6), tide, dt, back, chunk))


def cats_cases(tier):
    orders = list(itertools.permutations(['ref', 'scale', 'value']))
    for fname in ('EbbTides.cur', 'Offshore.cur'):
        for o in orders:
            for scale, value in ((True, 1.), (True, -.3), (True, 2.5), (False, 1.)):
                yield (fname, scale, value, .15 if len(o[0]) == 3 else None, 900, False, 0, o)
        for tide in (None, .15, -1.):
            for dt in (300, 900, 3600):
                for back in (False, True):
                    for chunk in range(7 if tier != 'quick' else 2):
                        yield (fname, True, .5, tide, dt, back, chunk, orders[0])


def parts(tier):
    return [Part('sets', lambda: subsets_cases(tier), run, rule='all sets of 8 movers, forwards and backwards; every mover x step x windage'),
            Part('windows', lambda: window_cases(tier), run, rule='every mover x every pair of times as its active range'),
            Part('places', lambda: place_cases(tier), place_run, rule='every mover x a lattice of places and depths all over the earth, crowds, long runs', chunk=1),
            Part('random', lambda: random_cases(tier), random_run, rule='random walk: coefficient x factor x step x direction; bounds on every move, spread of 1500 elements per place'),
            Part('random3', lambda: random3_cases(tier), random3_run, rule='3-D random walk: coefficients x mixed layer x surface rule x direction x order of setting'),
            Part('company', lambda: alone_cases(tier), alone_run, rule='every mover x all pairs and orders of elements: nobody moves differently in company'),
            Part('cats', lambda: cats_cases(tier), cats_run, rule='CATS currents: order of setting the scale x value x tide x step x direction; every triangle centre and a lattice')]

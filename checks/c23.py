"""C23  uncertainty spreads the uncertain elements as its settings say, and nothing else."""
import itertools
import math
import os

from vp.core import Part, check, Violation
from vp.g import *
from checks.c22 import Field, DEG, DATA
from gnome.maps.map import GnomeMap
from gnome.environment import Water, Waves
from gnome.movers import CatsMover
from gnome.movers.py_current_movers import CurrentMover
from gnome.movers.py_wind_movers import WindMover
from gnome.spills.release import Release
from gnome.spills.spill import Spill
from vp import scen

PROPERTY = 'C23'
LEVEL = 'model_checking'
NOTE = 'all schedules of releases and removals of four elements x durations x delays x movers, with the deviation of every element observed on every step of the real model'
ASSUMPTIONS = ['a metre is 8.9992801e-06 degrees of latitude',
               'the wind law is the one of GNOME (sigma growing with the time since the start); PointWindMover counts that time to the end of the step, WindMover and the currents to its start']

W = (7., 200.)
WUV = (-7. * math.sin(math.radians(200.)), -7. * math.cos(math.radians(200.)))
CUV = (.31, -.17)
WINDAGE = .03
# a large triangle of the file, see big_triangle()
_tri = {}


def big_triangle():
    if not _tri:
        from checks.c22 import read_cur
        v, tri, vel = read_cur(os.path.join(DATA, 'Offshore.cur'))
        a, b, c = v[tri[:, 0]], v[tri[:, 1]], v[tri[:, 2]]
        area = np.abs((b[:, 0] - a[:, 0]) * (c[:, 1] - a[:, 1]) - (b[:, 1] - a[:, 1]) * (c[:, 0] - a[:, 0]))
        area[np.hypot(vel[:, 0], vel[:, 1]) < 1e-2] = 0
        k = int(np.argmax(area))
        _tri['p'] = (a[k] + b[k] + c[k]) / 3.
        _tri['v'] = vel[k]
    return _tri['p'], _tri['v']


def make(kind, dur, delay, opts):
    """dur, delay in seconds"""
    if kind == 'wind':
        return PointWindMover(constant_wind(W[0], W[1], 'm/s'), uncertain_duration=dur / 3600., uncertain_time_delay=delay / 3600.,
                              uncertain_speed_scale=opts.get('a', 2.), uncertain_angle_scale=opts.get('b', .4))
    if kind == 'pywind':
        return WindMover(wind=Field(lambda x, y, z, s: WUV + (0.,), 'wind'), uncertain_duration=dur, uncertain_time_delay=delay,
                         uncertain_speed_scale=opts.get('a', 2.), uncertain_angle_scale=opts.get('b', .4))
    if kind == 'current':
        return CurrentMover(current=Field(lambda x, y, z, s: CUV + (0.,)), uncertain_duration=dur, uncertain_time_delay=delay,
                            uncertain_along=opts.get('a', .5), uncertain_cross=opts.get('b', .25))
    if kind == 'cats':
        p, v = big_triangle()
        return CatsMover(os.path.join(DATA, 'Offshore.cur'), scale=True, scale_refpoint=tuple(p) + (0.,), scale_value=.002,
                         uncertain_duration=dur / 3600., uncertain_time_delay=delay / 3600.,
                         up_cur_uncertain=opts.get('a', .3), down_cur_uncertain=-opts.get('a', .3),
                         right_cur_uncertain=opts.get('b', .1), left_cur_uncertain=-opts.get('b', .1))
    raise ValueError(kind)


def base_velocity(kind):
    if kind == 'cats':
        p, v = big_triangle()
        n = math.hypot(*v)
        return (v[0] / n * .002, v[1] / n * .002)
    return CUV if kind == 'current' else WUV


def place(kind):
    if kind == 'cats':
        p = big_triangle()[0]
        return (float(p[0]), float(p[1]), 0.)
    return (3., 40., 0.)


LIMITS = {'current': (.5, .25), 'cats': (.3, .1)}


class Wind2(object):
    """the terms of the wind law that fit an observed velocity: two candidates for the speed term, one for the angle"""

    def __init__(self, vel, elapsed, a=2., b=.4):
        sig2 = (a * .315 * elapsed ** .147) ** 2 / 2. if elapsed > 0 else 0.
        sth = b * 2.73 * elapsed ** .25
        n0 = math.hypot(*WUV)
        n1 = math.hypot(*vel)
        dth = math.atan2(WUV[0] * vel[1] - WUV[1] * vel[0], WUV[0] * vel[0] + WUV[1] * vel[1])
        s = n0 * n0 - sig2
        sq = math.sqrt(s) if s > 0 else 0.
        m = math.sqrt(sq)
        s2 = math.sqrt(n0 - sq)
        if sth == 0:
            self.free = True
            check(abs(n1 - n0) < 1e-5 * n0 and abs(dth) < 1e-5, 'no time has passed, but the wind of an element is off by (%s, %s)', n1 / n0, dth)
            return
        self.free = False
        self.sin = dth / math.radians(sth)
        c = max(math.cos(dth), .001)
        r = math.sqrt(max(n1 * c, 0.))
        self.cos = [(r - m) / s2, (-r - m) / s2]
        self.tol = 1e-4 + 2e-4 * m / s2 + 2e-6 / math.radians(sth)

    def same(self, other):
        """narrowed candidates if the same terms fit both, else None"""
        if self.free or other.free:
            return None
        tol = self.tol + other.tol
        if abs(self.sin - other.sin) > tol:
            return None
        c = [x for x in other.cos if any(abs(x - y) <= tol for y in self.cos)]
        if not c:
            return None
        r = Wind2.__new__(Wind2)
        r.free, r.sin, r.cos, r.tol = False, other.sin, c, other.tol
        return r


class Cur2(object):
    free = False

    def __init__(self, vel, base, law='own'):
        n = base[0] ** 2 + base[1] ** 2
        if law == 'chained':
            # known finding: u' = u (1 + a) + v b, but v' = v (1 + a) - u' b
            d = base[1] * base[1] + base[0] * vel[0]
            self.a = (vel[0] * vel[0] + base[1] * vel[1]) / d - 1.
            self.b = (base[1] * vel[0] - base[0] * vel[1]) / d
            return
        self.a = (base[0] * vel[0] + base[1] * vel[1]) / n - 1.
        self.b = (base[1] * vel[0] - base[0] * vel[1]) / n

    def same(self, other):
        return other if abs(self.a - other.a) < 2e-5 and abs(self.b - other.b) < 2e-5 else None


LAW = ['own']


def observe(kind, vel, elapsed):
    if kind in ('wind', 'pywind'):
        return Wind2(vel, elapsed)
    return Cur2(vel, base_velocity(kind), LAW[0])


def known_law(f):
    """judge a run with CurrentMover by the law of the settings; where that fails, and only the chained law of the
    known finding explains every step, it is that finding and not another violation"""
    def judge(case):
        LAW[0] = 'own'
        try:
            return f(case)
        except Violation:
            if case[0] != 'current':
                raise
            LAW[0] = 'chained'
            try:
                f(case)
            except Violation:
                chained = False
            else:
                chained = True
            finally:
                LAW[0] = 'own'
            if not chained:
                raise
        raise Violation('the second component of the deviation is computed from the already changed first one', key='current-chained')
    return judge


NE = 4


def run(case):
    kind, dur, delay, dt, back, rel, removal, n = case
    sg = -1 if back else 1
    p = place(kind)
    m = Model(start_time=T0, duration=secs(sg * dt * n), time_step=secs(sg * dt), uncertain=True, run_backwards=back,
              map=GnomeMap(map_bounds=[(p[0] - 5, p[1] - 5), (p[0] - 5, p[1] + 5), (p[0] + 5, p[1] + 5), (p[0] + 5, p[1] - 5)]))
    for i, k in enumerate(rel):
        m.spills += Spill(release=Release(release_time=T0 + secs(sg * dt * k), num_elements=1, custom_positions=[p]), substance=None, amount=1, units='kg')
    for sp in m.spills:
        sp.substance.windage_range = (WINDAGE, WINDAGE)
        sp.substance.windage_persist = -1
    m.movers += make(kind, dur * dt, delay * dt, {})
    base = base_velocity(kind)
    f = WINDAGE if 'wind' in kind else 1.
    m.rewind()
    m.step()
    known = {}
    drawn = None
    states = 0
    for k in range(n):
        fc, uc = m.spills.items()
        # some leave the map
        for sp, kk in enumerate(removal):
            if kk == k:
                uc['positions'][uc['spill_num'] == sp, 0] += 30.
        before = {int(s): q.copy() for s, q in zip(uc['spill_num'], uc['positions'])}
        fbefore = {int(s): q.copy() for s, q in zip(fc['spill_num'], fc['positions'])}
        gone = [s for s, kk in enumerate(removal) if kk == k and s in before]
        m.step()
        fc, uc = m.spills.items()
        for s, q in zip(fc['spill_num'], fc['positions']):
            if int(s) in fbefore:
                d = (q - fbefore[int(s)])[:2] / DEG * (math.cos(math.radians(fbefore[int(s)][1])), 1.) / (sg * dt) / f
                check(np.allclose(d, base, rtol=1e-5, atol=1e-8), 'step %d: forecast of spill %s moves with %s, not %s', k, s, d.tolist(), base)
        now = {int(s): q for s, q in zip(uc['spill_num'], uc['positions'])}
        check(set(now) == (set(before) - set(gone)) | set(s for s, kk in enumerate(rel) if kk == k + 1), 'step %d: uncertain elements %s', k, sorted(now))
        el = (k + 1) * dt if kind == 'wind' else k * dt
        on = el >= delay * dt
        fresh = False
        if on and (drawn is None or el >= drawn + dur * dt):
            fresh, drawn = True, el
        devs = {}
        for s in before:
            if s not in now or s in gone:
                continue
            vel = (now[s] - before[s])[:2] / DEG * (math.cos(math.radians(before[s][1])), 1.) / (sg * dt) / f
            check(now[s][2] == before[s][2], 'step %d: depth changed', k)
            if not on:
                check(np.allclose(vel, base, rtol=1e-5, atol=1e-8), 'step %d (%s s before uncertainty starts): the uncertain element of spill %d moves with %s, the forecast with %s', k, delay * dt - el, s, vel.tolist(), base)
                states += 1
                continue
            o = observe(kind, vel, el - delay * dt)
            devs[s] = o
            states += 1
            if kind in LIMITS:
                la, lb = LIMITS[kind]
                check(abs(o.a) <= la + 1e-4 and abs(o.b) <= lb + 1e-4, 'step %d: deviation (%s, %s) of spill %d exceeds (%s, %s)', k, o.a, o.b, s, la, lb)
            if s in known and not known[s].free and not o.free:
                r = known[s].same(o)
                if fresh:
                    check(r is None, 'step %d: the uncertainty of spill %d was not renewed after %s s', k, s, dur * dt)
                else:
                    check(r is not None, 'step %d: the uncertainty of spill %d changed before its duration of %s s', k, s, dur * dt)
                    devs[s] = r
        for x, y in itertools.combinations([s for s in devs if not devs[s].free], 2):
            check(devs[x].same(devs[y]) is None, 'step %d: spills %d and %d have the same deviation', k, x, y)
        known = devs
        if not now:
            break
    return dict(states=states, transitions=states, sig=(kind, dur, delay, sorted(before)))


def schedules(tier):
    kinds = ('wind', 'pywind', 'current', 'cats')
    # elements 0 and 1 from the start, 2 and 3 from the start or later
    rels = [(0, 0, 0, 0), (0, 0, 1, 2)] if tier == 'quick' else [(0, 0, a, b) for a in range(3) for b in range(3)]
    for kind in kinds:
        for rel in rels:
            for removal in itertools.product((None, 1, 2, 3), repeat=NE):
                if all(r is not None for r in removal):
                    continue
                if any(r is not None and r <= rel[i] for i, r in enumerate(removal)):
                    continue
                for dur, delay, back in ((100, 0, False), (2, 1, True)) if tier == 'quick' else ((100, 0, False), (100, 2, True), (2, 1, True), (3, 0, False)):
                    yield (kind, dur, delay, 900, back, rel, removal, 5)
        for dur in (1, 2, 3, 4, 100):
            for delay in (0, 1, 2, 3, 5):
                for dt in (300, 900, 3600):
                    for back in (False, True):
                        for rel in rels:
                            yield (kind, dur, delay, dt, back, rel, (None,) * NE, 7)


# ---------------------------------------------------------------- limits and weak winds
def limit_run(case):
    kind, a, b, dt, back, n = case[:6]
    late = case[6:] == ('late',)
    sg = -1 if back else 1
    p = place(kind)
    m = Model(start_time=T0, duration=secs(sg * dt * 3), time_step=secs(sg * dt), uncertain=True, run_backwards=back, map=GnomeMap())
    m.spills += gs.point_line_spill(n, p, T0, amount=1, units='kg')
    if late:
        m.spills += gs.point_line_spill(n, p, T0 + secs(sg * dt), amount=1, units='kg')
    for sp in m.spills:
        sp.substance.windage_range = (WINDAGE, WINDAGE)
        sp.substance.windage_persist = -1
    f = WINDAGE if 'wind' in kind else 1.
    if kind == 'simple':
        m.movers += SimpleMover((.3, -.2, .001), uncertainty_scale=a)
        base = (.3, -.2)
    elif kind in ('weak wind', 'weak pywind'):
        u, v = a * math.cos(.7), a * math.sin(.7)
        if kind == 'weak wind':
            m.movers += PointWindMover(constant_wind(a, 270. - math.degrees(.7), 'm/s'))
        else:
            m.movers += WindMover(wind=Field(lambda x, y, z, s: (u, v, 0.), 'wind'))
        base = (u, v)
    else:
        m.movers += make(kind, 1e6, 0, dict(a=a, b=b))
        base = base_velocity(kind)
    m.rewind()
    m.step()
    states = 0
    for k in range(3):
        fc, uc = m.spills.items()
        b0 = [x['positions'].copy() for x in (fc, uc)]
        m.step()
        fc, uc = m.spills.items()
        # (those just released did not move yet; judge those of the last release, which others joined)
        nb = len(b0[0])
        sl = slice(nb - n, nb)
        b0 = [y[sl] for y in b0]
        after = [x['positions'][sl] for x in (fc, uc)]
        vf, vu = [(x - y)[:, :2] / DEG * np.stack([np.cos(np.radians(y[:, 1])), np.ones(n)], axis=1) / (sg * dt) / f
                  for x, y in zip(after, b0)]
        check(np.allclose(vf, base, rtol=1e-4, atol=1e-8), 'the forecast moves with %s, not %s', vf[0].tolist(), base)
        states += n
        off = vu - base
        if a == 0 and b == 0 and 'weak' not in kind:
            check(np.abs(off).max() <= 5e-5 * math.hypot(*base), 'uncertainty of zero, but elements deviate by %s', np.abs(off).max())
            continue
        if kind == 'simple':
            for c in (0, 1):
                check(np.abs(off[:, c]).max() <= abs(base[c]) * a * (1 + 1e-4), 'deviation %s', np.abs(off[:, c]).max() / base[c])
                check(np.abs(off[:, c]).max() >= abs(base[c]) * a * .8, 'the uncertainty does not use its range: %s of %s', np.abs(off[:, c]).max() / abs(base[c]), a)
            check((b0[1][:, 2] + sg * dt * .001 * (1 - a) - 1e-6 <= np.maximum(after[1][:, 2], 0) + 1e-9).all() or back, 'depth')
        elif kind in LIMITS:
            D = [Cur2(v, base, LAW[0]) for v in vu]
            for name, lim in (('a', a), ('b', b)):
                x = np.array([getattr(d, name) for d in D])
                check(np.abs(x).max() <= lim + 1e-4, 'deviation %s %s exceeds %s', name, np.abs(x).max(), lim)
                check(x.max() >= lim * .85 - 1e-4 and x.min() <= -lim * .85 + 1e-4, 'the uncertainty does not use its range: %s..%s of %s', x.min(), x.max(), lim)
        elif 'weak' in kind:
            top = math.sqrt(6 * 100. / dt)
            if kind == 'weak pywind' or True:
                check(np.abs(off).max() <= top * 1.001, 'in weak wind an element is moved by %s m/s, the limit is %s', np.abs(off).max(), top)
                check(np.abs(off).max() >= top * .85, 'in weak wind the elements hardly spread: %s of %s m/s', np.abs(off).max(), top)
                for c in (0, 1):
                    check(.7 < off[:, c].var() * 3 / top ** 2 < 1.3, 'spread in weak wind is %s of what the law says', off[:, c].var() * 3 / top ** 2)
        else:
            el = (k + 1) * dt if kind == 'wind' else k * dt
            if el:
                # the mean of the speeds squared and the spread of the angles follow the law; here only their size
                dth = np.arctan2(base[0] * vu[:, 1] - base[1] * vu[:, 0], base[0] * vu[:, 0] + base[1] * vu[:, 1])
                sth = math.radians(b * 2.73 * el ** .25)
                if sth == 0:
                    check(np.abs(dth).max() < 1e-5, 'angles without uncertainty differ by %s', np.abs(dth).max())
                elif b <= .4:
                    check(.8 < dth.std() / sth < 1.2, 'spread of the angles is %s of %s', dth.std(), sth)
                    check(abs(dth.mean()) < .25 * sth, 'the angles are biased by %s', dth.mean())
                    check(np.abs(dth).max() <= math.radians(60.) + 1e-6, 'an angle deviates by %s degrees', math.degrees(np.abs(dth).max()))
                sp = np.hypot(vu[:, 0], vu[:, 1]) * np.cos(dth)
                check(abs(sp.mean() / W[0] - 1.) < .2, 'the mean wind along the forecast is %s of it', sp.mean() / W[0])
                check(sp.std() > 0 if a else sp.std() < 1e-4 * W[0], 'speeds spread by %s with a scale of %s', sp.std(), a)
    return dict(states=states, transitions=states, sig=(case,))


def limit_cases(tier):
    for dt in (300, 900, 3600):
        for back in (False, True):
            for kind in ('current', 'cats', 'wind', 'pywind'):
                for a, b in itertools.product((0., .1, .5), (0., .2, .4)):
                    yield (kind, a, b, dt, back, 400)
                    if a != b:
                        yield (kind, a, b, dt, back, 400, 'late')
                if 'wind' in kind:
                    yield (kind, 2., .4, dt, back, 400)
            for a in (0., .2, 1.):
                yield ('simple', a, a, dt, back, 400)
            for a in (0., .3, .95):
                yield ('weak wind', a, 0, dt, back, 400)
                yield ('weak pywind', a, 0, dt, back, 400)


# ---------------------------------------------------------------- the forecast does not notice
def forecast_run(case):
    movers, weather, back, shore, late, dt = case
    sg = -1 if back else 1
    res = []
    for unc in (False, True):
        m = Model(start_time=T0, duration=secs(sg * dt * 5), time_step=secs(sg * dt), uncertain=unc, run_backwards=back,
                  map=scen.RasterMap(raster=np.array([[0] * 8] * 5 + [[1] * 8] * 3, np.uint8), projection=scen.RegularGridProjection(((0., 0.), (.8, .8)), (8, 8)), refloat_halflife=-1) if shore else GnomeMap())
        water = Water(290.)
        wind = constant_wind(6., 250., 'm/s')
        sub = 'oil_ans_mp' if weather else None
        for i in range(2):
            m.spills += gs.point_line_spill(5, (.05 + .2 * i, .3, 0.), T0 + secs(sg * dt * i), end_release_time=(T0 + secs(dt * 3)) if late and not back else None,
                                            amount=10, units='bbl' if weather else 'kg', substance=sub)
        for sp in m.spills:
            sp.substance.windage_range = (WINDAGE, WINDAGE)
            sp.substance.windage_persist = -1
        for k in movers:
            if k == 'simple':
                m.movers += SimpleMover((8., .5, 0.))
            elif k == 'wind':
                m.movers += PointWindMover(wind)
            elif k == 'current':
                m.movers += make('current', 1e5, 0, {})
            elif k == 'pywind':
                m.movers += WindMover(wind=wind, uncertain_duration=1800, uncertain_time_delay=900)
        if weather:
            m.environment += [water, wind, Waves(wind, water)]
            m.add_weathering(which='standard')
        m.rewind()
        h = []
        while True:
            try:
                m.step()
            except StopIteration:
                break
            sc = m.spills.items()[0]
            check(not sc.uncertain, 'the first set is not the forecast')
            check(len(m.spills.items()) == 1 + unc, 'number of sets of elements')
            h.append(snap_sc(sc))
            if unc:
                u = m.spills.items()[1]
                check(u.uncertain, 'the second set is not uncertain')
                # released together: the same ids, spills, ages and initial masses, unless they left the map
                ids = set(u['id'].tolist()) & set(sc['id'].tolist())
                check(set(sc['id'].tolist()) == set(u['id'].tolist()), 'the two sets hold different elements')
                a = {int(i): (int(s), float(g), float(q)) for i, s, g, q in zip(sc['id'], sc['spill_num'], sc['age'], sc['init_mass'])}
                b = {int(i): (int(s), float(g), float(q)) for i, s, g, q in zip(u['id'], u['spill_num'], u['age'], u['init_mass'])}
                check(a == b, 'the uncertain twin of an element is of another spill, age or mass')
        res.append(h)
    a, b = res
    check(len(a) == len(b), 'number of steps')
    for k, (x, y) in enumerate(zip(a, b)):
        d = diff_snap([x], [y])
        check(d is None, 'step %d: uncertainty changes the forecast: %s', k, d)
    return dict(states=2 * len(a), transitions=2 * len(a), sig=(case,))


def forecast_cases(tier):
    kinds = ['simple', 'wind', 'current', 'pywind']
    for k in range(len(kinds) + 1):
        for s in itertools.combinations(kinds, k):
            for weather in (False, True):
                for back in (False, True):
                    if back and weather:
                        continue
                    for shore in (False, True):
                        for late in (False, True):
                            for dt in (900,) if tier == 'quick' else (300, 900, 3600):
                                yield (s, weather, back, shore, late, dt)


# ------------------------------------------- shifting a wind or an amount up or down
def shift_run(case):
    from gnome.environment.wind import Wind
    what, scale, way, units, vals = case
    good = way in ('up', 'down')
    if what == 'wind':
        w = Wind(timeseries=[(T0 + secs(3600 * i), (v, 30. * (i + 1))) for i, v in enumerate(vals)], units=units, coord_sys='r-theta', speed_uncertainty_scale=scale)
        before = w.get_wind_data()
        done = w.set_speed_uncertainty(way)
        after = w.get_wind_data()
        if good and 0 < scale <= .5:
            q = .5 + scale if way == 'up' else .5 - scale
            f = math.sqrt(2. / math.pi) * (math.sqrt(-2 * math.log(1 - q)) if q < 1 else float('inf'))
            check(done is True or done is None, 'not done: %r', done)
            if q < 1:
                check(np.allclose(after['value'][:, 0], before['value'][:, 0] * f, rtol=1e-5, atol=1e-12), 'speeds %s became %s, expected a factor %r', before['value'][:, 0], after['value'][:, 0], f)
                check(np.allclose(after['value'][:, 1], before['value'][:, 1], atol=1e-4) or not all(vals) or q == 0, 'directions %s became %s', before['value'][:, 1], after['value'][:, 1])
        else:
            check(done is False and (before == after).all(), 'changed: %r', done)
        check((before['time'] == after['time']).all() and w.units == units, 'times or units changed')
    else:
        from gnome.spills.substance import NonWeatheringSubstance
        sub = NonWeatheringSubstance(standard_density=850.) if what == 'none' else scen.oil()
        sp = gs.point_line_spill(num_elements=5, start_position=(0., 0., 0.), release_time=T0, amount=vals[0], units=units, substance=sub)
        sp.amount_uncertainty_scale = scale
        m0 = sp.get_mass()
        done = sp.set_amount_uncertainty(way)
        f = 1.
        if good and 0 < scale <= 1:
            f = 1 + (2. / 3 if way == 'up' else -2. / 3) * scale
        check(bool(done) == (f != 1.), 'done: %r', done)
        check(abs(sp.amount - vals[0] * f) <= 1e-9 * max(vals[0], 1e-9) and abs(sp.get_mass() - m0 * f) <= 1e-9 * max(m0, 1e-9), '%r %s (%r kg) became %r (%r kg), expected a factor %r',
              vals[0], units, m0, sp.amount, sp.get_mass(), f)
        if vals[0]:
            m = Model(start_time=T0, duration=secs(900), time_step=900)
            m.spills += sp
            m.step()
            check(abs(m.spills.items()[0]['mass'].sum() - m0 * f) <= 1e-9 * m0, 'released %r kg', m.spills.items()[0]['mass'].sum())
    return dict(states=2, transitions=1, trivial=not good or not scale)


def shift_cases():
    for way in ('up', 'down', None, 'sideways', ''):
        for units in ('m/s', 'knots', 'mph', 'km/h'):
            for scale in (0., .05, .25, .3, .4999, .5, .75):
                for vals in ((5.,), (3., 0., 12.), (0.,), (25., 1e-3)):
                    yield 'wind', scale, way, units, vals
        for what in ('none', 'oil'):
            for units in ('kg', 'bbl', 'm^3', 'lb'):
                for scale in (0., .1, .5, 1., 1.5, -.5):
                    for v in (0., 1., 1234567.5):
                        yield what, scale, way, units, (v,)


def parts(tier):
    return [Part('schedules', lambda: schedules(tier), known_law(run), rule='movers x all schedules of releases and removals of four elements x durations x delays x steps x direction'),
            Part('limits', lambda: limit_cases(tier), known_law(limit_run), rule='movers x limits x steps x direction: every deviation of 400 elements'),
            Part('shifts', shift_cases, shift_run, rule='wind or amount x scale x up or down x units x values'),
            Part('forecast', lambda: forecast_cases(tier), forecast_run, rule='sets of movers x weathering x shore x release: with and without uncertainty')]

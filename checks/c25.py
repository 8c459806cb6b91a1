"""C25  the state of the sea: water properties in any units, waves from wind or a given
height, and the running average of a wind."""
import itertools

import gsw
from vp.core import Part, check, Violation
from vp.g import *
from vp.scen import oil
from gnome.environment import Water, Waves, Wind
from gnome.environment.running_average import RunningAverage
from gnome.weatherers import Evaporation, NaturalDispersion, Emulsification, Skimmer, Burn
from vp.weath import SINKS

PROPERTY = 'C25'
LEVEL = 'model_checking'
NOTE = 'every property x unit x value, every history of settings to a depth, every sea of a family, against closed forms'
ASSUMPTIONS = ['the conversion factors of the units are the legal ones']

G = 9.80665
LEN = {'m': 1., 'meter': 1., 'km': 1000., 'cm': .01, 'ft': .3048, 'foot': .3048, 'yard': .9144, 'nm': 1852., 'mile': 1609.344, 'inch': .0254, 'fathom': 1.8288}
SED = {'kg/m^3': 1., 'g/m^3': 1e-3, 'mg/l': 1e-3, 'g/l': 1., 'lb/ft^3': 16.018463}
KV = {'m^2/s': 1., 'St': 1e-4, 'cSt': 1e-6, 'cm^2/s': 1e-4, 'mm^2/s': 1e-6}
RHO = {'kg/m^3': 1., 'g/cm^3': 1000., 'lb/ft^3': 16.018463}
TEMP = {'K': (lambda x: x, lambda k: k), 'C': (lambda x: x + 273.15, lambda k: k - 273.15), 'F': (lambda x: (x - 32) / 1.8 + 273.15, lambda k: (k - 273.15) * 1.8 + 32),
        'Kelvin': (lambda x: x, lambda k: k), 'Celsius': (lambda x: x + 273.15, lambda k: k - 273.15)}


def lin(f):
    return (lambda x: x * f, lambda s: s / f)


UNITS = {'temperature': TEMP, 'sediment': {u: lin(f) for u, f in SED.items()}, 'wave_height': {u: lin(f) for u, f in LEN.items()},
         'fetch': {u: lin(f) for u, f in LEN.items()}, 'kinematic_viscosity': {u: lin(f) for u, f in KV.items()}, 'salinity': {'psu': lin(1.)}}
SI = {'temperature': 'K', 'sediment': 'kg/m^3', 'wave_height': 'm', 'fetch': 'm', 'kinematic_viscosity': 'm^2/s', 'salinity': 'psu'}
VALS = {'temperature': [275., 288.15, 303.], 'sediment': [0., .005, .3], 'wave_height': [None, 0., .4, 3.], 'fetch': [None, 100., 40000.],
        'kinematic_viscosity': [1e-6, 2e-6], 'salinity': [0., 20., 35.]}
TOL = 2e-6


def near(a, b, tol=TOL):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-12


def look(w, st, what):
    """st: attr -> (value, unit)"""
    for a, (v, u) in st.items():
        si = None if v is None else UNITS[a][u][0](v)
        check(near(w.get(a), si), '%s: %s given as %s %s is %r in %s, expected %r', what, a, v, u, w.get(a), SI[a], si)
        for q, (_, out) in UNITS[a].items():
            want = None if v is None else out(si)
            check(near(w.get(a, q), want), '%s: %s given as %s %s is %r %s, expected %r', what, a, v, u, w.get(a, q), q, want)
        check(getattr(w, a) == v and w.units[a] == u, '%s: %s reads back as %r %s, was given as %r %s', what, a, getattr(w, a), w.units[a], v, u)
    t = UNITS['temperature'][st['temperature'][1]][0](st['temperature'][0])
    rho = float(gsw.rho(st['salinity'][0], t - 273.15, 10.1325))
    check(near(w.get('density'), rho, 1e-9) and near(w.density, rho, 1e-9), '%s: density %r, expected %r', what, w.get('density'), rho)
    for q, f in RHO.items():
        check(near(w.get('density', q), rho / f), '%s: density %r %s, expected %r', what, w.get('density', q), q, rho / f)


def default():
    return {'temperature': (300., 'K'), 'salinity': (35., 'psu'), 'sediment': (.005, 'kg/m^3'), 'wave_height': (None, 'm'), 'fetch': (None, 'm'),
            'kinematic_viscosity': (1e-6, 'm^2/s')}


def units(case):
    a, u = case
    n = 0
    other = Water()
    for v in VALS[a]:
        x = None if v is None else UNITS[a][u][1](v)
        for how in ('set', 'attr', 'init'):
            if a == 'kinematic_viscosity' and how == 'init':
                continue
            st = default()
            st[a] = (x, u)
            if how == 'init':
                w = Water(units={a: u}, **{**{'temperature': 300.}, a: x})
            elif how == 'set':
                w = Water()
                w.set(a, x, u)
            else:
                w = Water()
                setattr(w, a, x)
                w.units = {a: u}
            look(w, st, '%s by %s' % (a, how))
            look(other, default(), 'another water')
            look(Water(), default(), 'a new water')
            if a != 'kinematic_viscosity':
                w2 = Water.deserialize(w.serialize())
                look(w2, st, '%s by %s, saved and loaded' % (a, how))
            n += 1
    for bad in ('furlong', 'm/s', ''):
        for f in (lambda: w.set(a, 1., bad), lambda: setattr(w, 'units', {a: bad}), lambda: w.get(a, bad) if bad else w.set(a, 1., bad)):
            if getattr(w, a) is None and f.__code__.co_names[:1] == ('get',):
                continue
            before = (getattr(w, a), w.units[a])
            try:
                f()
            except Exception as e:
                check(type(e).__name__ == 'InvalidUnitError' or isinstance(e, ValueError), 'a bad unit %r for %s gave %r', bad, a, e)
            else:
                if w.get(a) is not None:
                    raise Violation('the unit %r was accepted for %s' % (bad, a))
            check((getattr(w, a), w.units[a]) == before, 'a refused unit changed %s', a)
    return {'states': n, 'sig': case, 'show': case}


OPS = [('set', 'temperature', 15., 'C'), ('set', 'temperature', 59., 'F'), ('attr', 'temperature', 290., None), ('set', 'wave_height', 4., 'ft'),
       ('attr', 'wave_height', None, None), ('units', 'wave_height', None, 'm'), ('set', 'fetch', 3., 'km'), ('set', 'sediment', 50., 'mg/l'),
       ('units', 'temperature', None, 'K'), ('upd', 'salinity', 20., None), ('upd', 'temperature', 280., None), ('updu', 'temperature', 12., 'C'),
       ('attr', 'salinity', 5., None), ('ask', None, None, None)]


def history(case):
    w, other = Water(), Water()
    st = default()
    what = ' / '.join(str(OPS[i][:2] + OPS[i][2:]) for i in case)
    for i in case:
        op, a, v, u = OPS[i]
        if op == 'set':
            w.set(a, v, u)
            st[a] = (v, u)
        elif op == 'attr':
            setattr(w, a, v)
            st[a] = (v, st[a][1])
        elif op == 'units':
            w.units = {a: u}
            st[a] = (st[a][0], u)
        elif op == 'upd':
            w.update_from_dict({a: v})
            st[a] = (v, st[a][1])
        elif op == 'updu':
            us = dict(w.units)
            us[a] = u
            w.update_from_dict({a: v, 'units': us})
            st[a] = (v, u)
        elif op == 'ask':
            look(w, st, what)
    look(w, st, what)
    look(other, default(), what + ' (another water)')
    return {'states': len(case), 'transitions': len(case), 'sig': tuple(sorted(st.items(), key=str)), 'show': what}


# ------------------------------------------------------------------------ sea
def sea(case):
    u, h, f, sal, tk, npts = case
    wind = constant_wind(u, 120., 'm/s')
    w = Water(temperature=tk, salinity=sal, wave_height=h, fetch=f)
    pts = np.zeros((npts, 3))
    waves = Waves(wind, w)
    H, T, W, E = waves.get_value(pts, T0 + secs(500))
    rho = float(gsw.rho(sal, tk - 273.15, 10.1325))
    if h is None:
        ws = .71 * u ** 1.23 if u < 4.433049525859078 else u
        hs = .243 * ws * ws / G if f is None or f >= 2268 * ws ** 2 else .0016 * (f / G) ** .5 * ws
        hr, uu = min(.707 * hs, 30.), u
    else:
        hr = .707 * h
        uu = (G * h / .243) ** .5
        uu = (uu / .71) ** .813008 if uu < 4.433049525859078 else uu
    tm = .03742857 * sal + 2.54
    fw = min(.5 * (.0125 * uu if uu < 4 else .01 * uu + .01) / tm, 1.)
    what = 'wind %s, given wave height %s, fetch %s, salinity %s, %s K, %d points' % case
    for name, got, want in (('wave height', H, hr), ('whitecap fraction', W, fw), ('dissipated energy', E, .0034 * rho * G * hr ** 2)):
        got = np.asarray(got)
        check(got.shape == (npts,) and np.allclose(got, want, rtol=1e-6, atol=1e-12), '%s: %s %s, expected %s', what, name, got, want)
    if h is not None:
        check(np.allclose(T, 7.508 * h ** .5, rtol=1e-9), '%s: period %s, expected %s', what, T, 7.508 * h ** .5)
    check(np.isfinite(T).all() and (np.asarray(T) >= 0).all(), '%s: period %s', what, T)
    em = np.asarray(waves.get_emulsification_wind(pts, T0)).reshape(-1)
    want = u if h is None else max(u, uu)
    check(em.shape == (npts,) and np.allclose(em, want, rtol=1e-6), '%s: wind for emulsification %s, expected %s', what, em, want)
    pk = np.asarray(waves.peak_wave_period(pts, T0)).reshape(-1)
    check(np.allclose(pk, .75 * u, rtol=1e-6), '%s: peak period %s, expected %s', what, pk, .75 * u)
    # the pseudo wind is the wind which would make this height
    if h is None and f is None and hr < 30:
        back = float(np.asarray(waves.pseudo_wind(hr / .707)).reshape(-1)[0])
        check(abs(back - u) <= 2e-3 * u + 1e-9, '%s: the wind for its own wave height is %r', what, back)
    return {'states': npts, 'sig': case, 'show': (float(H[0]), float(W[0]))}


def monotone(case):
    f, sal = case
    prev = None
    us = [i * .25 for i in range(0, 161)]
    for u in us:
        w = Waves(constant_wind(u, 0, 'm/s'), Water(salinity=sal, fetch=f))
        H, T, W, E = [float(np.asarray(x).reshape(-1)[0]) for x in w.get_value(np.zeros((1, 3)), T0)]
        if prev:
            check(H >= prev[0] * (1 - 1e-3) and W >= prev[1] * (1 - 1e-9) and E >= prev[2] * (1 - 2e-3), 'more wind (%s m/s), less sea: %s after %s', u, (H, W, E), prev)
        prev = (H, W, E)
    return {'states': len(us), 'sig': case, 'show': prev}


# ------------------------------------------------------------ units do not matter to a run
def budget(case):
    def go(conv):
        st = {'temperature': 288., 'wave_height': case[1], 'fetch': case[2], 'sediment': .2}
        w = Water(temperature=st['temperature'], sediment=st['sediment'], wave_height=st['wave_height'], fetch=st['fetch'])
        if conv:
            for a in case[0]:
                v = w.get(a)
                w.set(a, None if v is None else UNITS[a][case[0][a]][1](v), case[0][a])
        wind = constant_wind(9, 200, 'm/s')
        waves = Waves(wind, w)
        m = Model(start_time=T0, duration=secs(3600 * 4), time_step=secs(1800))
        m.environment += [w, wind, waves]
        m.spills += gs.point_line_spill(num_elements=4, start_position=(0., 0., 0.), release_time=T0, end_release_time=T0 + secs(3000), substance=oil(), amount=50, units='bbl')
        m.weatherers += [Evaporation(water=w, wind=wind), NaturalDispersion(waves=waves, water=w), Emulsification(waves=waves),
                         Skimmer(amount=5, units='bbl', efficiency=.5, active_range=(T0 + secs(1800), T0 + secs(5400)), water=w),
                         Burn(area=50., thickness=.02, active_range=(T0 + secs(5400), T0 + secs(9000)), efficiency=.5, wind=wind, water=w)]
        m.rewind()
        out = []
        for _ in range(m.num_time_steps):
            m.step()
            sc = list(m.spills.items())[0]
            out.append([float(sc['mass'].sum()), float(sc['area'].sum()), float(sc['density'].sum())] + [float(sc.mass_balance.get(k, 0.)) for k in SINKS])
        return np.array(out)
    a, b = go(False), go(True)
    check(np.allclose(a, b, rtol=1e-4, atol=1e-7), 'water given in %s: budget %s instead of %s', case[0], b[-1].tolist(), a[-1].tolist())
    return {'states': 2 * len(a), 'sig': str(case), 'show': case[0]}


def budgets(th):
    out = []
    for a in ('temperature', 'wave_height', 'fetch', 'sediment', 'kinematic_viscosity'):
        for u in UNITS[a]:
            for h, f in ((None, None), (1.5, None), (None, 8000.)):
                out.append(({a: u}, h, f))
    for t, l, s, k in itertools.product(('C', 'F'), ('ft', 'km'), ('mg/l', 'lb/ft^3'), ('cSt', 'St')):
        for h, f in ((1.5, 8000.), (None, 8000.)):
            out.append(({'temperature': t, 'wave_height': l, 'fetch': l, 'sediment': s, 'kinematic_viscosity': k}, h, f))
    return out


# ------------------------------------------------------------ running average
SERIES = {'const': [(0, 6.)], 'ramp': [(0, 2.), (4 * 3600, 10.)], 'gust': [(0, 2.), (3600, 12.), (7200, 3.), (6 * 3600, 3.)], 'fine': [(i * 1200, 3. + (i * 7) % 5) for i in range(16)],
          'long': [(i * 3600 * 5, 2. + (i * 3) % 7) for i in range(15)]}


def speed(ts, s):
    return float(np.interp(s, [a for a, _ in ts], [b for _, b in ts]))


def average(case):
    name, hours, at = case
    ts = SERIES[name]
    wind = constant_wind(ts[0][1], 250., 'm/s') if len(ts) == 1 else Wind(timeseries=[(T0 + secs(a), (b, 250.)) for a, b in ts], units='m/s', coord_sys='r-theta')
    r = RunningAverage(wind, past_hours_to_average=hours)
    t0 = T0 + secs(at)
    r.prepare_for_model_run(t0)

    def law(s):
        v = [speed(ts, s - 3600 * j) for j in range(hours + 1)]
        return sum((x + y) / 2 for x, y in zip(v, v[1:])) / hours
    n = 0
    for k in range(0, 6):
        t = t0 + secs(900 * k)
        r.prepare_for_model_step(t)
        rows = [((d.astype('datetime64[s]').astype('datetime64[us]').item() - T0).total_seconds(), float(v[0]), float(v[1])) for d, v in r.get_timeseries()]
        for s, u, v in rows:
            check(abs(u - law(s) if len(ts) > 1 else u - ts[0][1]) < 1e-5 and v == 0, 'average over %d hours at %+d s is %r, expected %r', hours, s, u, law(s))
        s = (t - T0).total_seconds()
        xs = [a for a, _, _ in rows]
        want = float(np.interp(s, xs, [u for _, u, _ in rows]))
        inside = len(ts) == 1 or ts[0][0] <= s <= ts[-1][0]
        if inside:
            got = r.get_value(t)
            check(abs(float(got[0]) - want) < 1e-4, 'the average at %+d s is %r, the hourly averages give %r', s, got, want)
        lo, hi = min(b for _, b in ts), max(b for _, b in ts)
        check(all(lo - 1e-9 <= u <= hi + 1e-9 for _, u, _ in rows), 'an average outside the range of the wind: %s', rows)
        n += len(rows)
    return {'states': n, 'sig': case, 'show': rows[:3]}


def parts(tier):
    th = tier == 'thorough'
    us = [0., .5, 2., 3.9, 4., 4.43, 4.5, 8., 14., 25., 60.]
    return [
        Part('units', lambda: [(a, u) for a in UNITS for u in UNITS[a]], units, rule='a quantity is the same in every unit'),
        Part('history', lambda: [c for k in range(1, 5 if th else 4) for c in itertools.product(range(len(OPS)), repeat=k)], history, rule='the value and unit last given'),
        Part('sea', lambda: list(itertools.product(us, (None, 0., .2, .5, 2., 9.), (None, 200., 5000., 1e6), (0., 35.), (275., 300.), (1, 3))), sea, rule='closed forms of height, whitecaps and energy'),
        Part('monotone', lambda: list(itertools.product((None, 500., 20000.), (0., 35.))), monotone, rule='more wind, more sea'),
        Part('budget', lambda: budgets(th), budget, rule='a run does not depend on the units the water was described in'),
        Part('average', lambda: list(itertools.product(SERIES, (1, 2, 3, 6) + ((12,) if th else ()), (0, 1800, 3600, 7200, 36000) if th else (0, 1800, 7200))), average, rule='trapezoidal mean of the hourly speeds'),
    ]

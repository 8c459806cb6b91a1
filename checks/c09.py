"""C09  the weathering laws: every call of every weathering process of every run of a
bounded family is compared with the published law, computed independently from the
state the process found."""
import itertools

from vp.core import Part, check, Violation
from vp.weath import *
from vp.scen import oil
from gnome.basic_types import fate
from gnome.weatherers import FayGravityViscous, Langmuir, HalfLifeWeatherer

PROPERTY = 'C09'
LEVEL = 'model_checking'
NOTE = 'every sub-step of every process in every run of the family, against independently written laws'
ASSUMPTIONS = ['vapour pressure, density and viscosity of the fresh oil are taken from the substance object',
               'the area a fresh slick starts from is only required to be positive and within the thickness limit']

R, G, NU = 8.314, 9.80665, 1e-6
DMIN, DMAX = 1e-6, 1e-5
RTOL = 1e-9        # of the arithmetic; a varying wind is stored in the toolkit with less
LOOSE = 2e-6


def close(a, b, rtol=RTOL, atol=0.):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def place_factor(p):
    return .4 + 3. * np.abs(p[:, 0])


class Env(object):
    """wind speed as a function of time, and the water, written out by hand"""

    def __init__(self, wind, water):
        self.wind = wind                # [(seconds, speed)]
        self.w = dict(temperature=288., salinity=35., sediment=.005, wave_height=None, fetch=None)
        self.w.update(water)

    def speed(self, t):
        s = (t - T0).total_seconds()
        ws = self.wind
        u = float(np.interp(s, [a for a, _ in ws], [b for _, b in ws]))
        # (the wind may differ from place to place)
        return u if self.pos is None else u * place_factor(self.pos)

    pos = None

    def make_space(self):
        from gnome.environment.wind import Wind

        class SpaceWind(Wind):
            def at(self, points, time, *args, **kwargs):
                u = super(SpaceWind, self).at(points, time, *args, **kwargs)
                return u * place_factor(np.asarray(points)).reshape((-1,) + (1,) * (u.ndim - 1)) if kwargs.get('coord_sys') == 'r' else u
        return SpaceWind(timeseries=[(T0 + secs(a), (b, 270.)) for a, b in self.wind], units='m/s', coord_sys='r-theta',
                         extrapolation_is_allowed=True), Water(**self.w)

    def make(self):
        if len(self.wind) == 1:
            wind = constant_wind(self.wind[0][1], 270, 'm/s')
        else:
            from gnome.environment.wind import Wind
            wind = Wind(timeseries=[(T0 + secs(a), (b, 270.)) for a, b in self.wind], units='m/s', coord_sys='r-theta',
                        extrapolation_is_allowed=True)
        return wind, Water(**self.w)

    # waves
    def waves(self, t, rho_w):
        if self.w['wave_height'] is None:
            u = self.speed(t)
            if self.pos is not None:
                keep, self.pos = self.pos, None
                try:
                    wind, out = self.wind, []
                    for one in u:
                        self.wind = [(0, float(one))]
                        out.append(self.waves(t, rho_w))
                finally:
                    self.pos, self.wind = keep, wind
                return tuple(np.asarray(x) for x in zip(*out))
            ws = .71 * u ** 1.23 if u < 4.433049525859078 else u
            f = self.w['fetch']
            if f is not None and f < 2268 * ws ** 2:
                h = .0016 * (f / G) ** .5 * ws
            else:
                h = .243 * ws * ws / G
            hrms = min(.707 * h, 30.)
        else:
            h = self.w['wave_height']
            u = self.pseudo(h)
            hrms = .707 * h
        tm = .03742857 * self.w['salinity'] + 2.54
        fw = (.0125 * u if u < 4 else .01 * u + .01) / tm * .5
        return hrms, min(fw, 1.), .0034 * rho_w * G * hrms ** 2

    def pseudo(self, h):
        u = (G * h / .243) ** .5
        return (u / .71) ** .813008 if u < 4.433049525859078 else u

    def emul_wind(self, t):
        u = self.speed(t)
        return u if self.w['wave_height'] is None else np.maximum(u, self.pseudo(self.w['wave_height']))


def law_evap(env, sub, d, t, dt, rho_w):
    T = env.w['temperature']
    K = .0048 * np.atleast_1d(np.maximum(env.speed(t), 1.)) ** .78
    vp = np.asarray(sub.vapor_pressure(T))
    mw = np.asarray(sub.molecular_weight) / 1000.
    mc = d['mass_components']
    moles = (mc / mw).sum(1)
    X = np.maximum(2 * np.sqrt(d['area'] / d['vol_frac_le_st'] / np.pi), 1.)
    rate = (d['area'] * (1 - d['frac_water']) * K * X ** (-1. / 9) / (R * T * moles))[:, None] * \
        vp * 1.380277 * (.018 / mw) ** (1. / 3)
    new = mc * np.exp(-rate * dt)
    lost = (mc - new).sum(1)
    return {'mass_components': new, 'mass': new.sum(1), 'frac_evap': d['frac_evap'] + lost / d['init_mass'],
            'frac_lost': 1 - new.sum(1) / d['init_mass'], 'evap_decay_constant': None}, {'evaporated': lost.sum()}


def sediment(env, d, t, dt, rho_w, h, fbw, de, thick, rho_in):
    """mass lost to sediment, one value an element"""
    sed = env.w['sediment']
    croy = 2400 * np.exp(-73.682 * np.sqrt(d['viscosity']))
    cdisp = de ** .57 * fbw
    speed = (.613 * thick) ** 2 * G * (1 - d['density'] / rho_w) / (18 * 1e-6)
    vref = np.maximum(.588 * (thick ** 1.7 - 5e-8), 0)
    q = croy * cdisp * vref * d['area']
    h = np.broadcast_to(h, q.shape)
    coil = np.where(h > 0, q * dt / np.where(h > 0, speed * dt + 1.5 * h, 1.), 0.)
    qs = 1.6 * 1e-4 * np.sqrt(h * de * fbw / (rho_w * 1e-6)) * coil * sed
    return np.where((sed > 0) & (thick >= 1e-4), (1 - d['frac_water']) * qs * dt, 0.)


def law_nd(env, sub, d, t, dt, rho_w, li=False):
    h, fbw, de = env.waves(t, rho_w)
    m, fw, A = d['mass'], d['frac_water'], d['area']
    vol = m / d['density'] / (1 - fw)
    thick = vol / A
    if li:
        sig = 3.5e-2
        dmax = 4 * np.sqrt(sig / (G * np.maximum(rho_w - d['density'], 1e-3)))
        we = rho_w * G * (h / .707) * dmax / sig
        oh = d['viscosity'] * d['density'] / np.sqrt(d['density'] * sig * dmax)
        disp = .11 * d['density'] * thick * fbw * 4.604e-10 * we ** 1.805 * oh ** -1.023 * (1 - fw) * A * dt
        drop = dmax * 1.791 * oh ** .460 * we ** -.518
    else:
        croy = 2400 * np.exp(-73.682 * np.sqrt(d['viscosity']))
        disp = croy * de ** .57 * fbw * 3.9e-8 * (1 - fw) * A * dt
        drop = .613 * thick
    sed = sediment(env, d, t, dt, rho_w, h, fbw, de, thick, d['density'])
    over = disp + sed > m
    tot = np.where(over, disp + sed, 1.)
    disp, sed = np.where(over, disp / tot * m, disp), np.where(over, m - disp / tot * m, sed)
    left = max(1 - disp.sum() / m.sum(), 0.) if m.sum() else 1.
    mc = d['mass_components'] * left
    left2 = max(1 - sed.sum() / mc.sum(), 0.) if mc.sum() else 1.
    mc = mc * left2
    return ({'mass_components': mc, 'mass': mc.sum(1), 'droplet_avg_size': drop},
            {'natural_dispersion': disp.sum(), 'sedimentation': sed.sum()})


def law_em(env, sub, d, t, dt, rho_w):
    ymax = sub.emulsion_water_fraction_max
    if ymax <= 0:
        return {}, {}
    ks = np.broadcast_to(6 * 2.02e-6 * env.emul_wind(t) ** 2 / DMAX, d['mass'].shape)
    smax = 6 / DMIN * ymax / (1 - ymax)
    S, Y, B = d['interfacial_area'].copy(), d['frac_water'].copy(), d['bulltime'].copy()
    for i in range(len(S)):
        k = ks[i]
        age = float(d['age'][i])
        et = sub.bullwinkle_time
        if et >= 0:
            begun = age >= et * 3600
        else:
            begun = 0 <= sub.bullwinkle_fraction <= d['frac_evap'][i]
        if not begun:
            S[i] = 0
        else:
            if et > 0:
                start = et * 3600
            else:
                if B[i] < 0:
                    B[i] = age
                start = B[i]
            S[i] = min(S[i] + k * dt * np.exp(-k / smax * (age - start)), smax)
        Y[i] = min(S[i] * DMAX / (6 + S[i] * DMAX), ymax)
    # the water content of the slick is the mass-weighted mean
    return ({'frac_water': Y, 'interfacial_area': S, 'bulltime': B},
            {'=water_content': (d['mass'] / d['mass'].sum() * Y).sum()} if d['mass'].sum() > 0 else {})


def limit(sub, T):
    v = sub.kvis_at_temp(T)
    return 1e-4 if v >= 1e-4 else 1e-5 if v < 1e-6 else 1e-5 + .9091 * (v - 1e-6)


def law_fay(env, sub, d, t, dt, rho_w):
    lim = limit(sub, env.w['temperature'])
    buoy = (rho_w - sub.standard_density) / rho_w
    top = d['init_mass'] / d['density'] / lim
    A, V, f = d['fay_area'].copy(), d['bulk_init_volume'], d['vol_frac_le_st']
    t0 = (1.21 / 1.53) ** 4 * (V / (NU * G * buoy)) ** (1. / 3)
    C = np.pi * 1.45 ** 2 * (V ** 2 * G * buoy / NU ** .5) ** (1. / 3)
    K = 4 * np.pi * 2 * .033
    blob = A / f
    grown = A + f * dt * (.5 * C ** 2 / blob + 7. / 6 * K * (blob / K) ** (1. / 7))
    go = (d['age'] + dt > t0) & (A < top)
    A = np.where(go, np.minimum(grown, top), A)
    return {'fay_area': A, 'area': A, 'max_area_le': top, '?t0': t0}, {}


def law_langmuir(env, sub, d, t, dt, rho_w):
    cov = d['frac_coverage'].copy()
    for n in np.unique(d['spill_num']):
        i = d['spill_num'] == n
        thick = d['bulk_init_volume'][i][0] / d['fay_area'][i].sum()
        buoy = (rho_w - d['density'][i]) / rho_w
        # (the strongest wind over the slick)
        vs = .005 * np.broadcast_to(np.max(env.speed(t)), d['mass'].shape)
        for j, b in zip(np.where(i)[0], buoy):
            v = vs[j]
            if v == 0:
                c = 1. if b > 0 else .1
            elif b <= 0:
                c = .1
            else:
                c = (4 * thick * b * G / (v * v * np.pi ** 2)) ** (1. / 3)
            cov[j] = min(max(c, .1), 1.)
    return {'frac_coverage': cov, 'area': d['fay_area'] * cov}, {}


LAWS = {'Evaporation': law_evap, 'NaturalDispersion': law_nd, 'Emulsification': law_em, 'FayGravityViscous': law_fay, 'Langmuir': law_langmuir}


def snap(sc):
    return {k: np.array(v) for k, v in ((k, sc[k]) for k in sc.array_types)}, dict(sc.mass_balance)


def watch(w, env, log):
    orig = w.weather_elements
    name = type(w).__name__
    law = LAWS[name]
    kw = {}
    if name == 'NaturalDispersion':
        kw['li'] = w.algorithm == 'Li2017'

    rtol = RTOL if len(env.wind) == 1 else LOOSE

    def go(sc, dt, t):
        a, mb0 = snap(sc)
        orig(sc, dt, t)
        b, mb1 = snap(sc)
        log['calls'] += 1
        what = '%s at %+d s for %d s' % (name, (t - T0).total_seconds(), dt)
        log['times'].setdefault(name, []).append((t, dt))
        n = len(a['mass'])
        for k in b:
            check(b[k].shape[:1] == (n,), '%s: array %s came out with shape %s for %d elements', what, k, b[k].shape, n)
        sel = (a['fate_status'] & fate.surface_weather == fate.surface_weather) & (a['mass'] > 0) if n else np.zeros(0, bool)
        sub = sc.substance
        rho_w = log['rho_w']
        want, sinks = ({}, {})
        if sel.any() and w.active:
            d = {k: v[sel] for k, v in a.items()}
            env.pos = d['positions'] if log.get('space') else None
            want, sinks = law(env, sub, d, t, dt, rho_w, **kw)
            log['acted'].add(name)
        loose = np.zeros(n, bool)
        if name == 'NaturalDispersion' and kw['li'] and sel.any() and (rho_w - a['density'][sel]).min() < 2e-3:
            # oil without buoyancy: how much of it disperses is not stated, only that nothing is lost
            log['acted'].add('heavy')
            check(np.isfinite(b['mass_components']).all() and all(np.isfinite(mb1[k]) and mb1[k] >= mb0.get(k, 0.) for k in ('natural_dispersion', 'sedimentation')),
                  '%s: mass %s, balance %s', what, b['mass'], mb1)
            gone = sum(mb1[k] - mb0.get(k, 0.) for k in ('natural_dispersion', 'sedimentation'))
            check(abs(gone - (a['mass'].sum() - b['mass'].sum())) <= 1e-9 * max(a['init_mass'].sum(), 1e-300), '%s: %r dispersed, elements lost %r', what, gone, a['mass'].sum() - b['mass'].sum())
            want = {k: b[k][sel] for k in ('mass', 'mass_components', 'droplet_avg_size')}
            sinks = {k: mb1[k] - mb0.get(k, 0.) for k in ('natural_dispersion', 'sedimentation')}
        if '?t0' in want:
            # elements of a continuous release: the blob is past its inertial phase at the age of either blob
            t0 = want.pop('?t0')
            age = (a['age'][sel] + dt)
            lo, hi = t0.min(), t0.max()
            loose[np.where(sel)[0][(age > lo) & (age <= hi)]] = True
        for k in b:
            if k in want and want[k] is None:
                continue
            exp = a[k].copy()
            if k in want:
                exp[sel] = want[k]
            i = ~loose if k in ('fay_area', 'area') else slice(None)
            atol = 1e-12 * float(np.abs(a['init_mass']).max()) if n and k in ('mass', 'mass_components') else \
                1e-13 if k in ('frac_lost', 'frac_evap') else 0.
            check(close(b[k][i], exp[i], rtol, atol) if k in want else
                  (b[k].dtype == a[k].dtype and np.array_equal(b[k], a[k], equal_nan=b[k].dtype.kind == 'f')),
                  '%s: array %s became %s, the law gives %s (was %s)', what, k, b[k], exp, a[k])
        for k in set(mb0) | set(mb1):
            x, y = mb0.get(k, 0.), mb1.get(k, 0.)
            if '=' + k in sinks:
                check(close(y, sinks['=' + k], rtol, 1e-12), '%s: %s is %r, expected %r', what, k, y, sinks['=' + k])
            else:
                check(close(y - x, sinks.get(k, 0.), rtol, atol=1e-11 * max(abs(x), abs(y), 1e-300)), '%s: %s changed by %r, the law gives %r', what, k,
                      y - x, sinks.get(k, 0.))
        # ranges
        check((b['mass_components'] >= 0).all() and (b['mass_components'] <= a['mass_components'] * (1 + 1e-12)).all(),
              '%s: component masses rose or went negative', what)
        if 'frac_water' in b and n:
            check((b['frac_water'] >= 0).all() and (b['frac_water'] <= max(sub.emulsion_water_fraction_max, 0) + 1e-12).all(),
                  '%s: water content %s', what, b['frac_water'])
        if 'fay_area' in b and n:
            top = a['init_mass'] / a['density'] / limit(sub, env.w['temperature'])
            check((b['fay_area'] > 0).all() and (b['fay_area'] <= np.maximum(top, a['fay_area']) * (1 + 1e-9)).all() and
                  (b['fay_area'] >= a['fay_area']).all(), '%s: slick area %s (was %s, limit %s)', what, b['fay_area'], a['fay_area'], top)
            check((b['area'] <= b['fay_area'] * (1 + 1e-12)).all() and (b['area'] > 0).all(), '%s: area %s', what, b['area'])
    w.weather_elements = go


def model(case):
    names, wind, water, dt, sub, rel, place, ne, steps, amount, oilmod = case
    env = Env(WINDS[wind], WATERS[water])
    wnd, wat = env.make_space() if place == 'space' else env.make()
    waves = Waves(wnd, wat)
    mp = None if place in ('open', 'deep', 'both', 'two', 'space') else band_map(.3)
    m = Model(start_time=T0, duration=secs(dt * steps), time_step=secs(dt), **({} if mp is None else dict(map=mp)))
    m.weathering_substeps = sub
    m.environment += [wnd, wat, waves]
    o = oil()
    for k, v in OILS[oilmod].items():
        setattr(o, k, v)
    a, b = ((0., 0., 0.), (.9, 0., 0.) if place == 'space' else None) if mp is None else ((.45, .5, 0.), (.02, .5, 0.))
    depths = {'deep': [4.], 'both': [0., 4.], 'two': [0., 0.]}.get(place, [0.])
    for i, z in enumerate(depths):
        m.spills += gs.point_line_spill(num_elements=ne, start_position=a[:2] + (z,), end_position=b,
                                        release_time=T0 + secs(i * dt // 2), end_release_time=T0 + secs(i * dt // 2 + int(rel * dt)) if rel else None,
                                        substance=o, amount=amount * (1 if i == 0 or place != 'two' else 300.), units='kg')
    if place == 'space':
        m.movers += SimpleMover((2., 0., 0.))
    if place == 'land':
        m.movers += SimpleMover((30000. / dt, 0., 0.))
    mk = {'evap': lambda: Evaporation(water=wat, wind=wnd), 'nd': lambda: NaturalDispersion(waves=waves, water=wat),
          'li': lambda: NaturalDispersion(waves=waves, water=wat, algorithm='Li2017'),
          'em': lambda: Emulsification(waves=waves)}
    for n in names:
        m.weatherers += mk[n]()
    return m, env, wat, o


def run(case):
    m, env, wat, o = model(case)
    names, wind, water, dt, sub, rel, place, ne, steps, amount, oilmod = case
    log = {'calls': 0, 'times': {}, 'acted': set(), 'rho_w': wat.get('density'), 'space': case[6] == 'space'}
    m.rewind()
    watched = set()
    visc0 = o.kvis_at_temp(env.w['temperature'])
    kv = min(max(1500 * visc0 ** .5, 1.), 10.)
    krho = o.density_at_temp(env.w['temperature']) / (np.asarray(o.component_density) * o.mass_fraction).sum()
    for k in range(steps + 1):
        if k == 0:
            m.setup_model_run()
            # the model sets itself up again at the first step: the processes it will use stay the same
            for w in m.weatherers:
                watch(w, env, log)
                watched.add(id(w))
        log['times'].clear()
        m.step()
        check({id(w) for w in m.weatherers} == watched, 'the list of processes changed at step %d', k)
        # every process worked through the whole step, in contiguous pieces
        for n, ts in log['times'].items():
            t = m.start_time + secs((k - 1) * dt)
            for s, d in ts:
                check(s == t and d > 0, 'step %d: %s was asked to work from %s for %s, expected from %s', k, n, s, d, t)
                t = s + secs(d)
            check(t == m.start_time + secs(k * dt), 'step %d: %s worked until %s', k, n, t)
        if k:
            check(len(log['times']) == len(m.weatherers) or len(list(m.spills.items())[0]) == 0 or not names, 'step %d: only %s were asked to work', k, sorted(log['times']))
        sc = list(m.spills.items())[0]
        if len(sc) and k:
            # density and viscosity of the emulsion
            sel = (sc['fate_status'] == fate.surface_weather) & (sc['mass'] > 0) & (sc['age'] > dt)
            mc, fw = sc['mass_components'][sel], sc['frac_water'][sel]
            rho = krho * (mc * np.asarray(o.component_density)).sum(1) / sc['mass'][sel]
            want = np.minimum(fw * log['rho_w'] + (1 - fw) * rho, log['rho_w'])
            check(close(sc['density'][sel], want), 'step %d: density %s, expected %s', k, sc['density'][sel], want)
            q = fw / .84
            want = visc0 * np.exp(kv * sc['frac_evap'][sel]) * (1 + q / (1.187 - q)) ** 2.49
            check(close(sc['viscosity'][sel], want), 'step %d: viscosity %s, expected %s', k, sc['viscosity'][sel], want)
            check(np.isfinite(sc['density']).all() and (sc['density'] > 0).all() and np.isfinite(sc['viscosity']).all(), 'step %d: density %s viscosity %s', k, sc['density'], sc['viscosity'])
    return {'states': log['calls'], 'transitions': log['calls'], 'trivial': not log['acted'],
            'sig': (tuple(sorted(log['acted'])), wind, water, place, round(float(list(m.spills.items())[0]['mass'].sum()), 9)),
            'show': sorted(log['acted'])}


WINDS = {'calm': [(0, 0.)], 'light': [(0, 2.)], 'mod': [(0, 8.)], 'gale': [(0, 22.)], 'storm': [(0, 42.)],
         'ramp': [(0, 0.), (5000, 3.), (9000, 14.), (100000, 6.)]}
WATERS = {'std': {}, 'cold': dict(temperature=275., salinity=10., sediment=0.), 'warm': dict(temperature=303., sediment=.5),
          'waves': dict(wave_height=2.), 'ripple': dict(wave_height=.3), 'fetch': dict(fetch=5000.)}
OILS = {'std': {}, 'never': dict(emulsion_water_fraction_max=0.), 'hours': dict(bullwinkle_time=.6),
        'now': dict(bullwinkle_time=0.), 'early': dict(bullwinkle_fraction=0.), 'late': dict(bullwinkle_fraction=.33),
        'heavy': dict(densities=[1004., 1000.], density_ref_temps=[273.15, 288.15], density_weathering=[0., 0.])}
SETS = [('evap',), ('nd',), ('li',), ('em',), ('evap', 'nd', 'em'), ('evap', 'li', 'em'), ('nd', 'em'), ('evap', 'nd'),
        ('evap', 'em')]


def cases(tier):
    th = tier == 'thorough'
    seen = set()

    def emit(*c):
        if c not in seen:
            seen.add(c)
            return [c]
        return []
    out = []
    base = ('evap', 'nd', 'em')
    for names in SETS:
        for wind in WINDS:
            for water in WATERS:
                out += emit(names, wind, water, 900, 1, 0, 'open', 3, 8, 5000., 'std')
    for wind, om, dt, sub, rel in itertools.product(('light', 'ramp', 'gale'), OILS, (600, 1800), (1, 3, 7), (0, 1.5)):
        out += emit(base, wind, 'std', dt, sub, rel, 'open', 4, 7, 5000., om)
    for place, names, wind, rel, sub in itertools.product(('deep', 'both', 'two', 'land'), SETS, ('ramp', 'gale'), (0, 2.5), (1, 2)):
        out += emit(names, wind, 'std', 900, sub, rel, place, 6, 6, 5000., 'std')
    for amount, names, wind, dt in itertools.product((.01, 1., 1e6, 1e8), SETS, ('mod', 'gale'), (900, 21600)):
        out += emit(names, wind, 'warm', dt, 1, 0, 'open', 2, 6, amount, 'std')
    for names, wind, water, rel in itertools.product(SETS, WINDS, ('std', 'cold', 'fetch'), (0, 1.5)):
        out += emit(names, wind, water, 900, 1, rel, 'open', 3, 6, 5000., 'heavy')
        out += emit(names, wind, water, 7200, 1, rel, 'open', 3, 8, 3000., 'std')
    for names, wind, water, rel, om in itertools.product(SETS, ('light', 'mod', 'ramp'), ('std', 'waves', 'fetch', 'warm'), (0, 1.5), ('std', 'now')):
        out += emit(names, wind, water, 1800, 1, rel, 'space', 5, 5, 5000., om)
    for frac, wind, dt in itertools.product(('early', 'std', 'late'), ('mod', 'gale', 'storm'), (3600, 21600)):
        out += emit(base, wind, 'warm', dt, 1, 0, 'open', 3, 10, 500., frac)
    if th:
        for names, wind, water, dt, sub, rel, place, om in itertools.product(
                SETS, WINDS, WATERS, (300, 7200), (1, 5), (0, 3), ('open', 'both'), ('std', 'hours')):
            out += emit(names, wind, water, dt, sub, rel, place, 5, 10, 3000., om)
    return out


# ---------------------------------------------------------------- metamorphic parts
def totals(m, steps):
    m.rewind()
    out = []
    for k in range(steps + 1):
        m.step()
        sc = list(m.spills.items())[0]
        out.append((float(sc['mass'].sum()) if len(sc) else 0.,
                    {k: float(v) for k, v in sc.mass_balance.items() if np.isscalar(v) or isinstance(v, np.generic)}))
    return out


def same(a, b, tol, what, skip=()):
    for k, ((x, p), (y, q)) in enumerate(zip(a, b)):
        check(abs(x - y) <= tol * max(abs(x), abs(y), p.get('amount_released', 0.)), '%s: mass %r and %r at step %d', what, x, y, k)
        for n in set(p) | set(q):
            # what is average of a remainder the size of rounding errors is not meaningful
            gone = n in ('avg_viscosity', 'avg_density', 'water_content') and max(x, y) <= 1e-9 * p.get('amount_released', 0.)
            if n not in skip and not gone:
                u, v = p.get(n, 0.), q.get(n, 0.)
                check(abs(u - v) <= tol * max(abs(u), abs(v), p.get('amount_released', 0.) * (n not in ('avg_viscosity',))),
                      '%s: %s is %r and %r at step %d', what, n, u, v, k)


def order(case):
    perm, ref = case
    dt, steps = 900, 5
    full = lambda p: model((p, 'ramp', 'std', dt, 2, 1.5, 'land', 6, steps, 5000., 'early'))[0]
    a, b = totals(full(ref), steps), totals(full(perm), steps)
    same(a, b, 1e-12, 'processes added as %s and as %s' % (perm, ref))
    return {'states': 2 * steps, 'sig': perm, 'show': perm, 'trivial': perm == ref}


def elements(case):
    names, wind, ne = case
    a, b = [totals(model((names, wind, 'std', 900, 1, 0, 'open', n, 8, 5000., 'std'))[0], 8) for n in (1, ne)]
    same(a, b, 1e-9, '%d elements instead of 1' % ne)
    return {'states': 16, 'sig': (names, wind, ne), 'show': b[-1][0]}


def off(case):
    names, offs, wind, rel = case
    m1 = model((tuple(n for n in names if n not in offs), wind, 'std', 900, 1, rel, 'land', 5, 5, 5000., 'early'))[0]
    m2 = model((names, wind, 'std', 900, 1, rel, 'land', 5, 5, 5000., 'early'))[0]
    cls = {'evap': Evaporation, 'nd': NaturalDispersion, 'em': Emulsification}
    for w in m2.weatherers:
        if any(isinstance(w, cls[o]) for o in offs):
            w.on = False
    a, b = totals(m1, 5), totals(m2, 5)
    same(a, b, 1e-12, '%s switched off and left out' % (offs,))
    for _, q in b:
        for o in offs:
            for s in SINK.get(o, []):
                check(q.get(s, 0.) == 0., '%s is off and %s is %r', o, s, q.get(s))
    return {'states': 10, 'sig': (names, offs, wind, rel), 'show': b[-1][0]}


def given(case):
    """spreading that the user adds himself, in any place of the list, is the spreading the model adds by itself"""
    names, extra, at, wind, rel = case
    mk = lambda: model((names, wind, 'std', 900, 2, rel, 'land', 6, 5, 5000., 'std'))[0]
    m1, m2 = mk(), mk()
    env = {type(e).__name__: e for e in m2.environment}
    ws = list(m2.weatherers)
    new = [FayGravityViscous(water=env['Water']) if e == 'fay' else Langmuir(wind=env['Wind'], water=env['Water']) for e in extra]
    m2.weatherers.clear()
    for w in ws[:at] + new + ws[at:]:
        m2.weatherers += w
    a, b = totals(m1, 5), totals(m2, 5)
    same(a, b, 1e-12, 'with %s added at %d and without' % (extra, at))
    k = ['fay_area', 'area', 'frac_coverage']
    x, y = [list(m.spills.items())[0] for m in (m1, m2)]
    for q in k:
        check(close(x[q], y[q]), '%s is %s with %s added, %s without', q, y[q], extra, x[q])
    return {'states': 10, 'sig': case}


def halving(case):
    """the half-life weatherer: the closed form, however little is left"""
    hl, dt, sub, steps, rel, onoff = case
    m = Model(start_time=T0, duration=secs(dt * steps), time_step=secs(dt))
    m.weathering_substeps = sub
    m.environment += [constant_wind(5., 270, 'm/s'), Water(288.)]
    o = oil()
    m.spills += gs.point_line_spill(num_elements=5, start_position=(0., 0., 0.), release_time=T0, end_release_time=T0 + secs(int(rel * dt)) if rel else None, substance=o, amount=1000., units='kg')
    lo, hi = (1, 4) if onoff else (-1, 10 ** 6)
    h = HalfLifeWeatherer(half_lives=hl) if not onoff else HalfLifeWeatherer(half_lives=hl, active_range=(T0 + secs(lo * dt), T0 + secs(hi * dt)))
    m.weatherers += h
    h_ = np.asarray(hl, float)
    born = {}
    for k in range(steps + 1):
        m.step()
        sc = list(m.spills.items())[0]
        for j, i in enumerate(sc['id'].tolist()):
            if i not in born:
                born[i] = k - int(sc['age'][j] > 0)
            n = max(0, min(k, hi) - max(born[i], lo)) if onoff else k - born[i]
            first = 200. * np.asarray(o.mass_fraction)
            want = first * .5 ** (n * dt / h_)
            check(close(sc['mass_components'][j], want, 1e-9) and close(sc['mass'][j], want.sum() if n else 200., 1e-9), 'step %d: element of step %d has %s kg, expected %s', k, born[i], sc['mass_components'][j], want)
    return {'states': steps, 'sig': case}


def volumes(case):
    """the volume an element's slick is part of: that released with it at once, or that released so far"""
    dt, rel, ne, amount, n2, rewinds = case
    wnd, wat = constant_wind(5., 270, 'm/s'), Water(288.)
    m = Model(start_time=T0, duration=secs(dt * 6), time_step=secs(dt))
    m.environment += [wnd, wat]
    o = oil()
    for i in range(1 + n2):
        m.spills += gs.point_line_spill(num_elements=ne * (i + 1), start_position=(i, 0., 0.), release_time=T0 + secs(i * dt // 2),
                                        end_release_time=T0 + secs(i * dt // 2 + int(rel * dt)) if rel else None, substance=o, amount=amount * (i + 1), units='kg')
    m.weatherers += Evaporation(water=wat, wind=wnd)
    rho = o.density_at_temp(288.)
    for r in range(rewinds + 1):
        m.rewind()
        seen = [0.] * (1 + n2)
        known = {}
        for k in range(6):
            m.step()
            sc = list(m.spills.items())[0]
            for i in range(1 + n2):
                mine = np.where((sc['spill_num'] == i))[0]
                new = [j for j in mine if int(sc['id'][j]) not in known]
                # those of the first half of the step and those of the second
                for age in (dt, 0):
                    g = [j for j in new if int(sc['age'][j]) == age]
                    if not g:
                        continue
                    v = (sc['init_mass'][g] / rho).sum()
                    end = T0 + secs(k * dt if age == 0 else (k - 1) * dt + dt / 2)
                    if end <= T0 + secs(i * dt // 2) + timedelta(hours=12):
                        seen[i] += v
                    want = seen[i] if rel else v
                    check(close(sc['bulk_init_volume'][g], [want] * len(g), 1e-9), 'step %d: spill %d: a slick of %s m3, expected %r', k, i, sc['bulk_init_volume'][g], want)
                    check(close(sc['vol_frac_le_st'][g], sc['init_mass'][g] / rho / want, 1e-9), 'step %d: spill %d: shares %s of the slick', k, i, sc['vol_frac_le_st'][g])
                    if age == 0:
                        check(len(set(np.round(sc['fay_area'][g] / sc['vol_frac_le_st'][g] / sc['fay_area'][g][0], 9))) == 1 and (sc['fay_area'][g] > 0).all(),
                              'step %d: spill %d: areas %s', k, i, sc['fay_area'][g])
                for j in new:
                    known[int(sc['id'][j])] = (sc['bulk_init_volume'][j], sc['vol_frac_le_st'][j])
                for j in mine:
                    check((sc['bulk_init_volume'][j], sc['vol_frac_le_st'][j]) == known[int(sc['id'][j])], 'step %d: the slick of element %d changed', k, sc['id'][j])
    return {'states': 6 * (rewinds + 1), 'sig': case}


def parts(tier):
    th = tier == 'thorough'
    four = ('evap', 'nd', 'em')
    offs = [c for k in (1, 2) for c in itertools.combinations(four, k)]
    return [
        Part('laws', lambda: cases(tier), run, timeout=120, rule='the arrays and the mass balance after each call are those of the published law'),
        Part('order', lambda: [(p, four) for p in itertools.permutations(four)], order, rule='the order in which processes were added does not matter'),
        Part('given', lambda: [(n, x, at, w, r) for n in (('evap',), ('evap', 'nd', 'em'), ('nd', 'em')) for x in (('fay',), ('lang',), ('fay', 'lang'), ('lang', 'fay')) for at in (0, len(n))
                               for w in ('mod', 'ramp') for r in (0, 1.5)], given, rule='spreading and Langmuir circulation added by the user, one or both, first or last'),
        Part('halving', lambda: list(itertools.product(((900.,), (60.,), (86400.,), tuple(300. * (i + 1) for i in range(len(oil().mass_fraction)))), (900, 3600), (1, 3), (12, 40), (0, 1.5), (False, True))), halving,
             rule='half-lives x steps x sub-steps x release x active window: the closed form down to nothing'),
        Part('volumes', lambda: list(itertools.product((900, 7200, 10800, 21600), (0, .5, 1, 2.25, 4, 5), (6, 13), (1000., 3e6), (0, 1), (0, 1))), volumes,
             rule='step x release x elements x amount x spills x rewinds: the volume of the slick an element belongs to'),
        Part('elements', lambda: list(itertools.product(SETS, ('mod', 'ramp', 'gale'), (2, 3, 10, 40) if th else (2, 7))), elements,
             rule='the budget of a sudden spill does not depend on the number of elements'),
        Part('off', lambda: list(itertools.product([four], offs, ('mod', 'ramp'), (0, 1.5))), off, rule='a process that is off acts as if absent'),
    ]

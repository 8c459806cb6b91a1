"""C24  an oil at any temperature: density, viscosity and vapour pressure follow the
measured data the oil holds now, whatever was asked or changed before."""
import itertools
import warnings

from vp.core import Part, check, Violation, seqs
from vp.g import *
from vp.scen import oil
from gnome.spills.gnome_oil import GnomeOil
from gnome.spills.substance import NonWeatheringSubstance
from gnome.spills import sample_oils

PROPERTY = 'C24'
LEVEL = 'model_checking'
NOTE = 'every data set x temperature x form of the question, and every history of changes and questions to a depth'
ASSUMPTIONS = ['data with distinct reference temperatures; temperatures between 200 K and 400 K']


# ------------------------------------------------------------------- the laws
def density(d, T):
    rows = sorted((t, r) for r, t, w in zip(d['densities'], d['density_ref_temps'], d['density_weathering']) if w == 0)
    T = max(T, min([t for t, _ in rows] + [d['pour_point']]))
    k = .0009 if d['api'] > 30 else .0008
    if T < rows[0][0]:
        t0, r0 = rows[0]
    elif T > rows[-1][0]:
        t0, r0 = rows[-1]
    else:
        i = max(i for i in range(len(rows)) if rows[i][0] <= T)
        t0, r0 = rows[i]
        if i + 1 < len(rows):
            t1, r1 = rows[i + 1]
            k = (r0 - r1) / (r0 * (t1 - t0))
    return r0 / (1 + k * (T - t0))


def viscosity(d, T):
    rows = [(t, v) for v, t, w in zip(d['kvis'], d['kvis_ref_temps'], d['kvis_weathering']) if w == 0]
    if len(rows) == 1:
        return rows[0][1] * np.exp(2100. / T - 2100. / rows[0][0])
    x = np.array([1. / t for t, _ in rows])
    y = np.log([v for _, v in rows])
    b = ((x - x.mean()) * (y - y.mean())).sum() / ((x - x.mean()) ** 2).sum()
    return np.exp(y.mean() + b * (1. / T - x.mean()))


def vapour(d, T, p=101325.):
    bp = np.asarray(d['boiling_point'], float)
    c = .19 * bp - 18
    ds = 8.75 + 1.987 * np.log(bp)
    return p * np.exp(ds * (bp - c) ** 2 / (.97 * 1.987 * bp) * (1 / (bp - c) - 1 / (T - c)))


KEYS = ['api', 'pour_point', 'densities', 'density_ref_temps', 'density_weathering', 'kvis', 'kvis_ref_temps', 'kvis_weathering',
        'boiling_point']
DENS = {'one': ([880.], [288.15], [0.]), 'two': ([890., 880.], [273.15, 288.15], [0., 0.]),
        'three': ([860., 890., 880.], [313.15, 273.15, 288.15], [0., 0., 0.]),
        'weathered': ([880., 930., 872.], [288.15, 288.15, 300.], [0., .2, 0.]), 'fresh last': ([950., 930., 905., 890., 872., 851.], [273.15, 288.15, 270., 285., 299., 310.], [.1, .2, 0., 0., 0., 0.]), 'flat': ([880., 880.], [280., 290.], [0., 0.])}
VISC = {'one': ([2e-5], [288.15], [0.]), 'two': ([4e-5, 2e-5], [273.15, 288.15], [0., 0.]),
        'three': ([2e-5, 4e-5, 9e-6], [288.15, 273.15, 313.15], [0., 0., 0.]), 'weathered': ([4e-5, 9e-3, 2e-5], [273.15, 280., 288.15], [0., .3, 0.]),
        'fresh last': ([9e-3, 7e-3, 4e-5, 2e-5], [273.15, 300., 273.15, 290.], [.1, .3, 0., 0.]),
        'thick': ([.2, .05], [275., 300.], [0., 0.])}
POUR = [219.15, 280., 310.]
APIS = [20., 30., 40.]
TEMPS = [200., 219.15, 260., 272., 273.15, 276.7, 280., 288.15, 289., 300., 300.1, 313.15, 330., 380.]


def fresh(d):
    o = oil()
    n = len(d['boiling_point'])
    base = {k: getattr(o, k) for k in ('solubility', 'bullwinkle_fraction', 'bullwinkle_time', 'emulsion_water_fraction_max',
                                       'mass_fraction', 'molecular_weight', 'component_density')}
    base.update({k: (list(v) if isinstance(v, (list, tuple, np.ndarray)) else v) for k, v in d.items()})
    assert n == len(base['mass_fraction'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return GnomeOil(name='x', **base)


BP = [float(x) for x in oil().boiling_point]


def data(dens, visc, pour, api, shift=0.):
    d = dict(api=api, pour_point=pour, boiling_point=[b + shift for b in BP])
    for k, v in zip(('densities', 'density_ref_temps', 'density_weathering'), DENS[dens]):
        d[k] = list(v)
    for k, v in zip(('kvis', 'kvis_ref_temps', 'kvis_weathering'), VISC[visc]):
        d[k] = list(v)
    return d


def rel(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= tol * np.abs(b))


def ask(o, d, T, what):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        check(rel(o.density_at_temp(T), density(d, T)), '%s: density at %s K is %r, the data give %r', what, T, o.density_at_temp(T), density(d, T))
        check(rel(o.kvis_at_temp(T), viscosity(d, T), 1e-7), '%s: viscosity at %s K is %r, the data give %r', what, T, o.kvis_at_temp(T), viscosity(d, T))
        check(rel(o.vapor_pressure(T), vapour(d, T)), '%s: vapour pressure at %s K is %s, the data give %s', what, T, o.vapor_pressure(T), vapour(d, T))
        check(rel(o.standard_density, density(d, 288.15)), '%s: standard density %r, the data give %r', what, o.standard_density, density(d, 288.15))


def static(case):
    dens, visc, pour, api = case
    d = data(dens, visc, pour, api)
    o = fresh(d)
    n = 0
    for T in TEMPS:
        ask(o, d, T, 'new oil')
        n += 4
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        # many temperatures at once are the same as one at a time
        want = [density(d, T) for T in TEMPS]
        for form in (np.array(TEMPS), np.array(TEMPS).reshape(2, -1), np.array(TEMPS[::-1])):
            w = np.array([density(d, T) for T in form.reshape(-1)]).reshape(form.shape)
            check(rel(o.density_at_temp(form), w), 'density at temperatures %s is %s, one by one %s', form, o.density_at_temp(form), w)
            w = np.array([viscosity(d, T) for T in form.reshape(-1)]).reshape(form.shape)
            check(rel(o.kvis_at_temp(form), w, 1e-7), 'viscosity at temperatures %s is %s, one by one %s', form, o.kvis_at_temp(form), w)
        for i, j in itertools.product(range(len(TEMPS)), repeat=2):
            f = np.array([TEMPS[i], TEMPS[j]])
            check(rel(o.density_at_temp(f), [want[i], want[j]]), 'density at temperatures %s is %s, one by one %s', f, o.density_at_temp(f), (want[i], want[j]))
            n += 1
        # at a measured temperature: the measurement
        for r, t, w in zip(*DENS[dens]):
            if w == 0:
                check(rel(o.density_at_temp(t), r), 'density at the measured %s K is %r, measured %r', t, o.density_at_temp(t), r)
        if sum(w == 0 for w in VISC[visc][2]) <= 2:
            for r, t, w in zip(*VISC[visc]):
                if w == 0:
                    check(rel(o.kvis_at_temp(t), r, 1e-7), 'viscosity at the measured %s K is %r, measured %r', t, o.kvis_at_temp(t), r)
        # warmer is lighter, thinner and more volatile
        ds = [float(o.density_at_temp(T)) for T in TEMPS]
        vs = [float(o.kvis_at_temp(T)) for T in TEMPS]
        ps = [o.vapor_pressure(T) for T in TEMPS]
        check(all(a >= b for a, b in zip(ds, ds[1:])) and min(ds) > 0, 'density over temperature: %s', ds)
        check(all(a > b for a, b in zip(vs, vs[1:])) and min(vs) > 0, 'viscosity over temperature: %s', vs)
        check(all((a < b).all() for a, b in zip(ps, ps[1:])), 'vapour pressure over temperature')
        check(all((np.diff(p)[np.diff(BP) > 0] < 0).all() for p in ps), 'vapour pressure over boiling point')
        check(rel(o.vapor_pressure(300., 50000.), vapour(d, 300., 50000.)), 'vapour pressure at another atmospheric pressure')
        for b, i in zip(BP[:4], range(4)):
            check(abs(o.vapor_pressure(b)[i] - 101325.) < 1e-6, 'vapour pressure at the boiling point %s is %r', b, o.vapor_pressure(b)[i])
    # a copy and a reloaded oil answer the same
    import copy
    for what, p in (('copy', copy.deepcopy(o)), ('reloaded', GnomeOil.deserialize(o.serialize()))):
        for T in (260., 288.15, 300.1):
            ask(p, d, T, what)
    return {'states': n, 'sig': (case, ), 'show': (ds[0], vs[0])}


# ------------------------------------------------------------------- histories
OPS = ['kvis*2', 'visc=two', 'visc=three', 'bp+30', 'bp-40', 'dens=two', 'dens+5', 'pour', 'api', 'ask288', 'ask300', 'upd:kvis*2', 'upd:bp+30',
       'upd:dens+5']


def hist(case):
    d = data('three', 'two', 219.15, 29.)
    o = fresh(d)
    other = fresh(data('one', 'thick', 280., 40., 10.))
    od = data('one', 'thick', 280., 40., 10.)
    what = ' '.join(case)

    def put(via, **kw):
        d.update({k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in kw.items()})
        if via:
            o.update_from_dict(kw)
        else:
            for k, v in kw.items():
                setattr(o, k, np.array(v) if k == 'boiling_point' else v)
    for op in case:
        via, op = op.startswith('upd:'), op.split(':')[-1]
        if op == 'kvis*2':
            put(via, kvis=[2 * v for v in d['kvis']])
        elif op.startswith('visc='):
            put(via, **dict(zip(('kvis', 'kvis_ref_temps', 'kvis_weathering'), [list(x) for x in VISC[op[5:]]])))
        elif op == 'dens=two':
            put(via, **dict(zip(('densities', 'density_ref_temps', 'density_weathering'), [list(x) for x in DENS[op[5:]]])))
        elif op == 'dens+5':
            put(via, densities=[v + 5 for v in d['densities']])
        elif op == 'bp+30':
            put(via, boiling_point=[v + 30 for v in d['boiling_point']])
        elif op == 'bp-40':
            put(via, boiling_point=[v - 40 for v in d['boiling_point']])
        elif op == 'pour':
            put(via, pour_point=d['pour_point'] + 20)
        elif op == 'api':
            put(via, api=d['api'] + 3)
        elif op.startswith('ask'):
            ask(o, d, float(op[3:]), what)
            ask(other, od, float(op[3:]), what + ' (another oil)')
    for T in (288., 300., 265.):
        ask(o, d, T, what)
        ask(other, od, T, what + ' (another oil)')
    return {'states': len(case) + 3, 'transitions': len(case), 'sig': (round(float(o.density_at_temp(290.)), 6), float(o.kvis_at_temp(290.))), 'show': what}


# ------------------------------------------------------------------- the oils that come with it
def samples(case):
    name = case
    o = GnomeOil(name)
    d = {k: getattr(o, k) for k in KEYS}
    for T in TEMPS[2:]:
        ask(o, d, T, name)
    check(abs(o.mass_fraction.sum() - 1) < 1e-5 and (o.mass_fraction >= 0).all(), '%s: mass fractions add up to %r', name, o.mass_fraction.sum())
    check(o.num_components == len(o.boiling_point) == len(o.molecular_weight) == len(o.component_density) == len(o.mass_fraction), '%s: component lists', name)
    check(0 <= o.emulsion_water_fraction_max < 1 and o.is_weatherable, '%s: %r', name, o.emulsion_water_fraction_max)
    # elements released from it carry its properties at the water temperature
    from gnome.environment import Water
    from gnome.weatherers import Evaporation
    for tk in (275., 288.15, 300.):
        m = Model(start_time=T0, duration=secs(1800), time_step=secs(900))
        w, wind = Water(tk), constant_wind(5, 270, 'm/s')
        m.environment += [w, wind]
        m.weatherers += Evaporation(water=w, wind=wind)
        m.spills += gs.point_line_spill(num_elements=3, start_position=(0., 0., 0.), release_time=T0, substance=GnomeOil(name), amount=2., units='m^3')
        m.rewind()
        m.step()
        sc = list(m.spills.items())[0]
        check(rel(sc['mass'].sum(), 2 * density(d, 288.15)), '%s: 2 m^3 weigh %r, at its standard density %r', name, sc['mass'].sum(), 2 * density(d, 288.15))
        rho = min(density(d, tk), float(w.get('density')))
        check(np.abs(sc['density'] / rho - 1).max() < 2e-5, '%s in water of %s K: elements of density %s, expected %s', name, tk, sc['density'], rho)
        check(np.abs(sc['viscosity'] / viscosity(d, tk) - 1).max() < 1e-6, '%s in water of %s K: elements of viscosity %s, expected %s', name, tk, sc['viscosity'], viscosity(d, tk))
        check(rel(sc['mass_components'], sc['mass'][:, None] * o.mass_fraction, 1e-6), '%s: component masses', name)
    return {'states': 3, 'sig': name, 'show': name}


def plain(case):
    rho, T = case
    s = NonWeatheringSubstance(standard_density=rho)
    check(s.density_at_temp(T) == rho and s.standard_density == rho and not s.is_weatherable, 'density %r', s.density_at_temp(T))
    m = Model(start_time=T0, duration=secs(1800), time_step=secs(900))
    m.spills += gs.point_line_spill(num_elements=3, start_position=(0., 0., 0.), release_time=T0, substance=s, amount=2., units='m^3')
    m.rewind()
    m.step()
    sc = list(m.spills.items())[0]
    check(rel(sc['mass'].sum(), 2 * rho), '2 m^3 of %r kg/m^3 weigh %r', rho, sc['mass'].sum())
    return {'states': 1, 'sig': case, 'show': case}


def parts(tier):
    th = tier == 'thorough'
    names = sorted(sample_oils._sample_oils)
    return [
        Part('static', lambda: list(itertools.product(DENS, VISC, POUR, APIS)), static, timeout=60, rule='the answers are those of the documented law over the data'),
        Part('history', lambda: [c for k in range(1, 4 if th else 3) for c in itertools.product(OPS, repeat=k)] if not th else
             [c for k in range(1, 4) for c in itertools.product(OPS, repeat=k)], hist, rule='the answers are those of the data held now'),
        Part('samples', lambda: names, samples, timeout=120, rule='every oil that comes with the package'),
        Part('plain', lambda: list(itertools.product((600., 900., 990.), (260., 300.))), plain, rule='non-weathering substances'),
    ]

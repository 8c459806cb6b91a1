"""C28  oil under water: droplets have the sizes that were asked for, rise (or sink) as
their size and density imply, and reach the surface when that implies."""
import itertools
import math

from vp.core import Part, check, Violation
from vp.g import *
from vp.scen import oil
from gnome.cy_gnome.cy_rise_velocity_mover import rise_velocity_from_drop_size
from gnome.environment import Water
from gnome.maps.map import GnomeMap
from gnome.movers import RiseVelocityMover
from gnome.spills import NonWeatheringSubstance
from gnome.spills.spill import subsurface_spill
from gnome.spills.release import SubsurfaceRelease
from gnome.utilities.distributions import (UniformDistribution, NormalDistribution, LogNormalDistribution, WeibullDistribution)

PROPERTY = 'C28'
LEVEL = 'model_checking'
NOTE = 'a lattice of every regime of droplet size x density x water for the law; every distribution x window x step x substance x order of changes for the runs'
ASSUMPTIONS = ['the law is Stokes below 0.2 mm, form drag from 10 mm on and the cubic with the same values and slopes in between; a droplet heavier than the water sinks as the lighter one rises',
               'a distribution is recognised by the distance of 4000 draws from its distribution function (a chance of 1e-9 to be off)']
D1, D2, GRAV = .0002, .01, 9.8


def law(rho, d, nu, rho_w):
    f = GRAV * (rho_w - rho) / rho_w
    s = 1. if f >= 0 else -1.
    f = abs(f)
    if d < D1:
        return s * f * d * d / (18. * nu)
    if d >= D2:
        return s * math.sqrt(8. * f * d / 3.)
    # Hermite cubic on [D1, D2]
    h = D2 - D1
    x = (d - D1) / h
    w1, w2 = f * D1 * D1 / (18. * nu), math.sqrt(8. * f * D2 / 3.)
    # GNOME takes the slope of a square root at both ends
    m1, m2 = h * w1 / (2 * D1), h * w2 / (2 * D2)
    return s * ((2 * x**3 - 3 * x**2 + 1) * w1 + (x**3 - 2 * x**2 + x) * m1 + (-2 * x**3 + 3 * x**2) * w2 + (x**3 - x**2) * m2)


SIZES = [0., 1e-6, 2e-5, 1e-4, D1 * (1 - 1e-9), D1, D1 * (1 + 1e-9), 3e-4, 7e-4, 2e-3, 5e-3, 9e-3, D2 * (1 - 1e-9), D2, D2 * (1 + 1e-9), .02, .1]
RHOS = [0., 600., 850., 950., 1019.999, 1020., 1020.001, 1100., 2500.]
WATERS = [(1e-6, 1020.), (1.3e-6, 1000.), (2e-6, 1035.)]


def law_cases(tier):
    for nu, rw in WATERS:
        for rho in RHOS + ([] if tier == 'quick' else [700. + 20 * i for i in range(30)]):
            yield ('law', nu, rw, rho)


def near(a, b, rel=1e-9, ab=1e-15):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + ab


def call(rho, d, nu, rw):
    w = np.full(len(d), 123.)
    r, s = np.asarray(rho, float).copy(), np.asarray(d, float).copy()
    rise_velocity_from_drop_size(w, r, s, nu, rw)
    check((r == rho).all() and (s == d).all(), 'the arrays given are changed')
    return w


def law_run(case):
    _, nu, rw, rho = case
    n = 0
    ds = sorted(set(SIZES + [10 ** (-6 + i * .05) for i in range(101)]))
    w = call([rho] * len(ds), ds, nu, rw)
    for d, v in zip(ds, w):
        want = law(rho, d, nu, rw)
        check(np.isfinite(v), 'a droplet of %g m and %g kg/m3 in water of %g kg/m3 rises with %r m/s', d, rho, rw, v)
        check(near(v, want), 'a droplet of %g m and %g kg/m3 in water of %g kg/m3 (%g m2/s) rises with %r m/s, the law says %r', d, rho, rw, nu, v, want)
        n += 1
    # the mirror droplet sinks as fast; alone and in any company the same
    for i, d in enumerate(ds):
        a = call([rho], [d], nu, rw)[0]
        m = call([2 * rw - rho], [d], nu, rw)[0]
        check(a == w[i], 'a droplet of %g m alone rises with %r, with others %r', d, a, w[i])
        check(near(a, -m, 1e-7), 'a droplet of %g m, %g kg/m3 rises with %r, one %g kg/m3 sinks with %r', d, rho, a, 2 * rw - rho, m)
    for perm in itertools.permutations([3e-5, 1e-3, .02, D1], 4):
        rr = [rho, 900., 1020., 1100.]
        v = call(rr, list(perm), nu, rw)
        for r, d, x in zip(rr, perm, v):
            check(near(x, law(r, d, nu, rw)), 'in company %s a droplet of %g m, %g kg/m3 rises with %r, the law says %r', perm, d, r, x, law(r, d, nu, rw))
        n += 1
    return dict(states=n)


# ---------------------------------------------------------------- distributions
PHI = lambda z: .5 * (1 + math.erf(z / math.sqrt(2)))


def weib(x, a, l):
    return 0. if x <= 0 else 1 - math.exp(-(x / l) ** a)


def trunc(F, lo, hi):
    a = F(lo) if lo is not None else 0.
    b = F(hi) if hi is not None else 1.
    return lambda x: min(1., max(0., (F(x) - a) / (b - a)))


def dists(tier):
    out = []
    for lo, hi in ((0., .1), (1e-4, 2e-4), (.5, .5), (-1., 2.)):
        out.append(('uniform', dict(low=lo, high=hi)))
    for m, s in ((0., .1), (.01, .002), (3., 0.), (-2., 1.)):
        out.append(('normal', dict(mean=m, sigma=s)))
    for m, s in ((0., .1), (-8., .5), (-7., 0.)):
        out.append(('lognormal', dict(mean=m, sigma=s)))
    for a, l in ((1.8, 2.48e-4), (1., .01), (3., 1.)):
        for lo in (None, 0., .5, 1.2):
            for hi in (None, .9, 1.5, 3.):
                if lo and hi and lo >= hi:
                    continue
                out.append(('weibull', dict(alpha=a, lambda_=l, min_=None if lo is None else lo * l, max_=None if hi is None else hi * l)))
    return out


CLS = {'uniform': UniformDistribution, 'normal': NormalDistribution, 'lognormal': LogNormalDistribution, 'weibull': WeibullDistribution}


def support(kind, p):
    if kind == 'uniform':
        return p['low'], p['high']
    if kind == 'normal':
        return (-np.inf, np.inf) if p['sigma'] else (p['mean'],) * 2
    if kind == 'lognormal':
        return (0., np.inf) if p['sigma'] else (math.exp(p['mean']),) * 2
    return p['min_'] or 0., np.inf if p['max_'] is None else p['max_']


def cdf(kind, p):
    if kind == 'uniform':
        return lambda x: min(1., max(0., (x - p['low']) / (p['high'] - p['low']))) if p['high'] > p['low'] else float(x >= p['low'])
    if kind == 'normal':
        return lambda x: PHI((x - p['mean']) / p['sigma'])
    if kind == 'lognormal':
        return lambda x: PHI((math.log(x) - p['mean']) / p['sigma'])
    return trunc(lambda x: weib(x, p['alpha'], p['lambda_']), p['min_'], p['max_'])


def follows(x, kind, p, what):
    lo, hi = support(kind, p)
    eps = 1e-12 * max(1., abs(lo) if np.isfinite(lo) else 1.)
    check(np.isfinite(x).all() and (x >= lo - eps).all() and (x <= hi + eps).all(), '%s: values from %r to %r, allowed are %r to %r', what, x.min(), x.max(), lo, hi)
    if lo == hi:
        return
    if len(x) > 1:
        check(len(np.unique(x)) > .99 * len(x), '%s: only %d of %d values differ', what, len(np.unique(x)), len(x))
    if len(x) < 1000:
        return
    xs = np.sort(x)
    F = cdf(kind, p)
    f = np.array([F(v) for v in xs])
    i = np.arange(1, len(xs) + 1)
    ks = max(np.abs(f - i / float(len(xs))).max(), np.abs(f - (i - 1) / float(len(xs))).max())
    check(ks < 3.3 / math.sqrt(len(xs)), '%s: the distribution of %d values is %.3f off', what, len(xs), ks)


def dist_cases(tier):
    for kind, p in dists(tier):
        for seed in range(2 if tier == 'quick' else 8):
            yield (kind, p, seed)
    for bad in BAD:
        yield ('bad',) + bad


BAD = [('uniform', dict(low=None)), ('uniform', dict(high=None)), ('normal', dict(mean=None)), ('normal', dict(sigma=None)), ('lognormal', dict(mean=None)), ('lognormal', dict(sigma=None)),
       ('weibull', dict(alpha=None)), ('weibull', dict(alpha=1.8, lambda_=1., min_=-.1)), ('weibull', dict(alpha=1.8, lambda_=1., min_=50.)),
       ('weibull', dict(alpha=1.8, lambda_=1., max_=0.)), ('weibull', dict(alpha=1.8, lambda_=1., max_=-1.)), ('weibull', dict(alpha=1.8, lambda_=1., max_=1e-3)),
       ('weibull', dict(alpha=1.8, lambda_=1., min_=.9, max_=.8)), ('weibull', dict(alpha=1.8, lambda_=1e-5, max_=4e-5))]


def dist_run(case):
    if case[0] == 'bad':
        try:
            CLS[case[1]](**case[2])
        except (TypeError, ValueError):
            return
        raise Violation('%s%s is accepted' % (case[1], case[2]))
    kind, p, seed = case
    np.random.seed(100 + seed)
    d = CLS[kind](**p)
    n = 0
    for size in (1, 2, 7, 4000):
        a = np.full(size + 5, -77.)
        d.set_values(a[3:3 + size])
        check((a[:3] == -77.).all() and (a[3 + size:] == -77.).all(), '%s: values outside of the part given are changed', kind)
        follows(a[3:3 + size], kind, p, '%s %s' % (kind, p))
        n += 1
    # changed in place: the next values are those of the new settings
    for kind2, q in dists('quick'):
        if kind2 != kind or q == p:
            continue
        for k, v in q.items():
            setattr(d, k, v)
        a = np.zeros(1200)
        d.set_values(a)
        follows(a, kind, q, '%s %s set to %s' % (kind, p, q))
        n += 1
        if n > 7:
            break
    return dict(states=n)


# ---------------------------------------------------------------- runs
SPILLS = [('droplet_size', 'uniform', dict(low=5e-5, high=1.5e-4)), ('droplet_size', 'uniform', dict(low=5e-4, high=5e-3)), ('droplet_size', 'uniform', dict(low=.011, high=.02)),
          ('droplet_size', 'weibull', dict(alpha=1.8, lambda_=.000248, min_=1e-5, max_=.0008)), ('droplet_size', 'lognormal', dict(mean=-7., sigma=.4)),
          ('rise_velocity', 'uniform', dict(low=.001, high=.02)), ('rise_velocity', 'normal', dict(mean=.01, sigma=.004)), ('rise_velocity', 'uniform', dict(low=-.01, high=-.001)),
          ('rise_velocity', 'lognormal', dict(mean=-5., sigma=.5))]
SUBS = ['plain', 900., 1015., 1020., 1060., 'oil', 'oil_cold']
SIZE, VEL = 'droplet_diameter', 'rise_vel'


def substance(s):
    if s == 'plain':
        return None
    if s in ('oil', 'oil_cold'):
        return oil()
    return NonWeatheringSubstance(standard_density=s)


def build(sub, spills, dt, win, unc, mover, z, change=None):
    T = T0
    m = Model(start_time=T, duration=secs(dt * 6), time_step=secs(dt), uncertain=unc, map=GnomeMap())
    water = Water(temperature=276. if sub == 'oil_cold' else 290., salinity=33.) if str(sub).startswith('oil') else None
    subs = substance(sub)
    for i, (typ, kind, p) in enumerate(spills):
        kw = {} if win[i] is None else dict(end_release_time=T + secs(dt * win[i]))
        m.spills += subsurface_spill(6, (1. + i, 2., z), T, CLS[kind](**p), distribution_type=typ, substance=subs, amount=60, units='kg', water=water, **kw)
    if mover:
        m.movers += RiseVelocityMover()
    else:
        m.movers += SimpleMover((.1, 0., 0.))
    if water is not None:
        m.environment += water
    return m


def density(m):
    s = list(m.spills)[0].substance
    w = s.water if hasattr(s, 'water') else None
    return float(s.density_at_temp(w.get('temperature'))) if w is not None else float(s.density_at_temp())


def run_cases(tier):
    dts = (600,) if tier == 'quick' else (60, 600, 3600)
    for sub in SUBS:
        for i, s in enumerate(SPILLS):
            for win in (None, 0.5, 3):
                for z in (0., 5., 40.):
                    for mover in (True, False):
                        for dt in dts:
                            if not mover and (z != 5. or win == .5):
                                continue
                            yield ('one', sub, [i], dt, [win], False, mover, z)
        for i, j in itertools.product(range(len(SPILLS)), repeat=2):
            if tier == 'quick' and (i + j) % 3:
                continue
            for unc in (False, True):
                yield ('two', sub, [i, j], 600, [3, None], unc, True, 20.)


def run(case):
    _, sub, ix, dt, win, unc, mover, z0 = case
    np.random.seed(hash((tuple(ix), dt, unc, mover, int(z0))) % 10000)
    spills = [SPILLS[i] for i in ix]
    m = build(sub, spills, dt, win, unc, mover, z0)
    prev = [{} for _ in m.spills.items()]
    n = 0
    for step in m:
        for k, sc in enumerate(m.spills.items()):
            cur = {}
            for e in range(len(sc['id'])):
                typ, kind, p = spills[sc['spill_num'][e]]
                what = 'element %d of a spill of %s %s %s' % (sc['id'][e], typ, kind, p)
                w, d, z = float(sc[VEL][e]), float(sc[SIZE][e]) if SIZE in sc else None, float(sc['positions'][e, 2])
                lo, hi = support(kind, p)
                if typ == 'droplet_size':
                    check(lo <= d <= hi, '%s: diameter %r', what, d)
                    want = law(density(m), d, 1e-6, 1020.)
                    check(near(w, want, 1e-7), '%s, %g m, %g kg/m3: rises with %r m/s, the law says %r', what, d, density(m), w, want)
                else:
                    check(lo <= w <= hi, '%s: rise velocity %r', what, w)
                check(np.isfinite(z) and z >= 0, '%s is at a depth of %r', what, z)
                o = prev[k].get(sc['id'][e])
                if o is not None:
                    check(o[0] == w and o[1] == d, '%s: its droplet changed from %s to %s', what, o[:2], (w, d))
                    zz = max(0., o[2] - w * dt) if mover else o[2]
                    check(near(z, zz, 1e-9, 1e-9), '%s: rose from %r with %r m/s for %d s to %r, expected %r', what, o[2], w, dt, z, zz)
                cur[sc['id'][e]] = (w, d, z)
                n += 1
            prev[k] = cur
    for k, sc in enumerate(m.spills.items()):
        check(len(sc['id']) == 6 * len(spills), 'only %d elements were released', len(sc['id']))
        for i, (typ, kind, p) in enumerate(spills):
            mine = sc['spill_num'] == i
            vals = sc[SIZE if typ == 'droplet_size' else VEL][mine]
            check(len(np.unique(vals)) == 6, 'the 6 droplets of spill %d have only %d different sizes', i, len(np.unique(vals)))
    return dict(states=n)


# ---------------------------------------------------------------- changes
NARROW = [dict(low=1e-4, high=1.1e-4), dict(low=6e-4, high=6.1e-4), dict(low=.02, high=.021), dict(low=3e-5, high=3.1e-5)]
OPS = ['inplace', 'replace', 'update', 'run', 'steps', 'spill2']


def change_cases(tier):
    depth = 3 if tier == 'quick' else 4
    for n in range(1, depth + 1):
        for ops in itertools.product(OPS, repeat=n):
            yield (ops,)


def change_run(case):
    (ops,) = case
    np.random.seed(5)
    m = build(900., [('droplet_size', 'uniform', NARROW[0])], 600, [3], False, True, 30.)
    sp = list(m.spills)[0]
    want = NARROW[0]
    k = 0
    n = 0

    def look(ids=None):
        c = 0
        sc = m.spills.items()[0]
        for e in range(len(sc['id'])):
            if sc['spill_num'][e] == 0 and (ids is None or sc['id'][e] >= ids):
                d = sc[SIZE][e]
                check(want['low'] <= d <= want['high'], 'after %s a droplet of %r m is released, asked for %s', ops, d, want)
                check(near(sc[VEL][e], law(900., d, 1e-6, 1020.), 1e-7), 'after %s a droplet of %r m rises with %r', ops, d, sc[VEL][e])
                c += 1
        return c
    for op in ops + ('run',):
        if op in ('inplace', 'replace', 'update'):
            k = (k + 1) % len(NARROW)
            want = NARROW[k]
            if op == 'inplace':
                sp.release.distribution.low = want['low']
                sp.release.distribution.high = want['high']
            elif op == 'replace':
                sp.release.distribution = UniformDistribution(**want)
            else:
                sp.release.distribution.update_from_dict(want)
            m.rewind()
        elif op == 'run':
            m.rewind()
            for s in m:
                n += look()
        elif op == 'steps':
            m.rewind()
            m.step()
            m.step()
            n += look()
        elif op == 'spill2' and len(m.spills) < 2:
            m.spills += subsurface_spill(3, (2., 2., 10.), T0, NormalDistribution(mean=.3, sigma=.01), distribution_type='rise_velocity', substance=sp.substance, amount=1, units='kg')
            m.rewind()
    return dict(states=n)


def parts(tier):
    return [Part('law', lambda: law_cases(tier), law_run, rule='118 sizes over all regimes x density x water; mirrored, alone, every order'),
            Part('distributions', lambda: dist_cases(tier), dist_run, rule='every distribution x parameters x truncation; support, distribution function, slices, changes in place, refusals'),
            Part('runs', lambda: run_cases(tier), run, rule='substance x distribution x window x depth x mover, and pairs of spills with and without uncertainty; every element at every step'),
            Part('changes', lambda: change_cases(tier), change_run, rule='all sequences of changes of the distribution and runs up to a depth')]

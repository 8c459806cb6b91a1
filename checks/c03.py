"""C03  releases: how many elements, when, where and with what mass, for every
combination of release window, time step, element count and release kind."""
import itertools

from shapely.geometry import Polygon, Point
from vp.core import Part, check, Violation
from vp.g import *
from gnome.spills.release import (PointLineRelease, PolygonRelease, Release, GridRelease,
                                   SubsurfaceRelease)
from gnome.utilities.distributions import UniformDistribution
from gnome.spills.spill import Spill

PROPERTY = 'C03'
LEVEL = 'model_checking'
NOTE = 'every release window x time step x element count x kind, run through the real model step by step'
ASSUMPTIONS = ['no movers: positions of released elements are the release positions',
               'progress of a continuous release is only promised to one time step\'s share plus one element']

A = np.array((10., 20., 0.))
B = np.array((10.5, 19.6, 4.))
POLYS = [Polygon([(0, 0), (1, 0), (1, 1), (0, 1)]), Polygon([(2, 0), (3, 0), (2.5, 2)]),
         Polygon([(4, 0), (6, 0), (6, 2), (5, 2), (5, 1), (4, 1)])]
SPOTS = [(5., 5., 0.), (6., 6., 1.), (7., 7., 2.)]
AMOUNT = 12.0


def make_release(kind, n, rt, ert, **kw):
    if kind == 'point':
        return PointLineRelease(release_time=rt, start_position=A, num_elements=n, end_release_time=ert, **kw)
    if kind == 'line':
        return PointLineRelease(release_time=rt, start_position=A, end_position=B, num_elements=n,
                                end_release_time=ert, **kw)
    if kind == 'spots':
        return Release(release_time=rt, num_elements=n, custom_positions=SPOTS, end_release_time=ert, **kw)
    if kind == 'poly':
        return PolygonRelease(polygons=POLYS, release_time=rt, num_elements=n, end_release_time=ert, **kw)
    if kind == 'polyw':
        return PolygonRelease(polygons=POLYS, weights=[0., 1., 0.], release_time=rt, num_elements=n,
                              end_release_time=ert, **kw)
    if kind == 'polyt':
        return PolygonRelease(polygons=POLYS, thicknesses=[0., 0., .1], release_time=rt, num_elements=n,
                              end_release_time=ert, **kw)
    if kind == 'rate':
        return Release(release_time=rt, num_per_timestep=n, custom_positions=SPOTS, end_release_time=ert, **kw)
    if kind == 'linerate':
        return PointLineRelease(release_time=rt, start_position=A, end_position=B, num_per_timestep=n,
                                end_release_time=ert, **kw)
    if kind == 'sub':
        return SubsurfaceRelease(distribution=UniformDistribution(low=1e-4, high=3e-4), release_time=rt,
                                 start_position=A, end_position=B, num_elements=n, end_release_time=ert, **kw)
    raise AssertionError(kind)


def ceil_div(a, b):
    return -(-a // b)


def run(case):
    kind, dt, off, dur, n, unc, amount = case
    rt = T0 + secs(off)
    ert = rt + secs(dur)
    nts = max(1, ceil_div(dur, dt))
    total = n * nts if kind in ('rate', 'linerate') else n
    rel = make_release(kind, n, rt, ert if dur else None)
    run_for = off + dur + 2 * dt
    m = Model(start_time=T0, duration=secs(run_for), time_step=secs(dt), uncertain=unc)
    m.spills += Spill(release=rel, amount=amount, units='kg')
    if total < nts:
        # too few elements for the number of steps is refused, never run wrongly
        try:
            m.step()
        except ValueError:
            return {'sig': 'refused', 'show': 'refused', 'trivial': True}
        raise Violation('a release of %d elements over %d steps was accepted' % (total, nts))
    counts = []
    prev_n = [0, 0]
    prev_t = None
    prev_pos = [None, None]
    for k in range(m.num_time_steps):
        m.step()
        now = m.model_time
        for si, sc in enumerate(m.spills.items()):
            c = sc.num_released
            pos = sc['positions']
            what = 'step %d (%+d s from release start)' % (k, (now - rt).total_seconds())
            # --- when
            if now < rt:
                check(c == 0, '%s: %d elements before the release starts', what, c)
            check(c >= prev_n[si], '%s: count fell from %d to %d', what, prev_n[si], c)
            check(c <= total, '%s: %d elements, %d were asked for', what, c, total)
            if now >= ert:
                check(c == total, '%s: release is over, %d of %d elements are out', what, c, total)
            elif now >= rt:
                frac = (now - rt).total_seconds() / dur
                slack = total / nts + 1 + 1e-9
                check(abs(c - total * frac) <= slack, '%s: %d elements, linear share is %.2f of %d in %d steps',
                      what, c, total * frac, total, nts)
            # --- mass: equal shares, sum to the amount
            check(np.allclose(sc['mass'], amount / total, rtol=1e-12, atol=0), '%s: element masses %s, expected %s each',
                  what, sc['mass'], amount / total)
            if c == total:
                check(abs(sc['mass'].sum() - amount) <= 1e-9 * max(amount, 1), '%s: total mass %r of %r', what, sc['mass'].sum(), amount)
            check((sc['init_mass'] == sc['mass']).all(), '%s: init_mass differs', what)
            # --- already released ones stay where they were
            if prev_pos[si] is not None:
                check((pos[:prev_n[si]] == prev_pos[si]).all(), '%s: released elements moved or were reordered', what)
            where(kind, pos, prev_n[si], c, total, nts, dt, dur, prev_t, now, rt, what)
            check((sc['status_codes'] == oil_status.in_water).all(), '%s: status %s', what, sc['status_codes'])
            # --- age: never more than the time since release start or of the run
            if c:
                check(sc['age'].min() >= 0 and sc['age'].max() <= k * dt, '%s: ages %s', what, sc['age'])
                check((sc['age'][prev_n[si]:] <= dt).all(), '%s: newborn ages %s', what, sc['age'][prev_n[si]:])
            prev_n[si] = c
            prev_pos[si] = pos.copy()
        counts.append(tuple(prev_n[:len(m.spills.items())]))
        prev_t = now
    check(all(c == total for c in counts[-1]), 'released %s of %d in all', counts[-1], total)
    return {'states': len(counts), 'transitions': len(counts) - 1, 'sig': (kind, tuple(counts), dt), 'show': counts}


def where(kind, pos, i0, i1, total, nts, dt, dur, t1, t2, rt, what):
    if i1 == i0:
        return
    new = pos[i0:i1]
    if kind == 'point':
        check((new == A).all(), '%s: not at the source: %s', what, new)
    elif kind in ('line', 'linerate', 'sub'):
        lam = (pos[:i1] - A) / (B - A)
        check(np.allclose(lam[:, 0:1], lam, atol=1e-9), '%s: off the line: %s', what, pos[:i1])
        lam = lam[:, 0]
        check(lam.min() >= -1e-9 and lam.max() <= 1 + 1e-9, '%s: beyond the ends of the line: %s', what, lam)
        if dur == 0:
            check(np.allclose(lam, np.linspace(0, 1, total), atol=1e-9), '%s: not spread evenly over the line: %s', what, lam)
        else:
            check((np.diff(lam) >= -1e-9).all(), '%s: the source moved backwards: %s', what, lam)
            f1 = 0. if t1 is None else min(max((t1 - rt).total_seconds() / dur, 0), 1)
            f2 = min(max((t2 - rt).total_seconds() / dur, 0), 1)
            s = 1. / nts + 1e-9
            check(lam[i0:].min() >= f1 - s and lam[i0:].max() <= f2 + s,
                  '%s: source between %.3f and %.3f of the way, elements at %s', what, f1, f2, lam[i0:])
    elif kind in ('spots', 'rate'):
        spots = np.array(SPOTS)
        hits = [int((np.abs(spots - p).max(axis=1) == 0).sum()) for p in new]
        check(all(h == 1 for h in hits), '%s: not at one of the given positions: %s', what, new)
        if dur == 0 and total >= 3:
            per = [int((np.abs(new - s_).max(axis=1) == 0).sum()) for s_ in spots]
            check(min(per) >= total // 3, '%s: %s elements per position', what, per)
    else:
        ok = {'poly': POLYS, 'polyw': POLYS[1:2], 'polyt': POLYS[2:3]}[kind]
        for p in new:
            check(any(q.distance(Point(p[0], p[1])) < 1e-9 for q in ok), '%s: %s is in none of the polygons', what, p)
            check(p[2] == 0, '%s: depth %s', what, p[2])


# ------------------------------------------------------------------ grid release
def run_grid(case):
    res, off, dt, b, amount = case
    rt = T0 + secs(off)
    rel = GridRelease(rt, b, res, release_mass=0)
    m = Model(start_time=T0, duration=secs(off + 2 * dt), time_step=secs(dt))
    m.spills += Spill(release=rel, amount=amount, units='kg')
    n = res[0] * res[1]
    want = sorted((float(x), float(y)) for x in np.linspace(b[0][0], b[1][0], res[0])
                  for y in np.linspace(b[0][1], b[1][1], res[1]))
    for k in range(m.num_time_steps):
        m.step()
        sc = m.spills.items()[0]
        c = sc.num_released
        check(c == (n if m.model_time >= rt else 0), 'step %d: %d elements of %d', k, c, n)
        if c:
            got = sorted(tuple(p[:2]) for p in sc['positions'].tolist())
            check(np.allclose(got, want, atol=1e-12), 'positions %s, expected the grid %s', got, want)
            check((sc['positions'][:, 2] == 0).all(), 'depth')
            check(np.allclose(sc['mass'], amount / n, rtol=1e-12), 'masses %s', sc['mass'])
    return {'states': m.num_time_steps, 'transitions': m.num_time_steps - 1, 'sig': (res, off, dt)}


# ---------------------------------------------------------------- backwards runs
def run_back(case):
    kind, dt, off, n, unc = case
    rt = T0 - secs(off)
    if kind == 'grid':
        rel, total = GridRelease(rt, ((0., 0.), (1., 2.)), (n, 2)), 2 * n
    else:
        rel, total = make_release(kind, n, rt, None), n
    m = Model(start_time=T0, duration=secs(-(off + 2 * dt)), time_step=secs(-dt), run_backwards=True, uncertain=unc)
    m.spills += Spill(release=rel, amount=AMOUNT, units='kg')
    counts = []
    for k in range(m.num_time_steps):
        m.step()
        for sc in m.spills.items():
            c = sc.num_released
            # a backwards run reaches the release time from above
            check(c == (total if m.model_time <= rt else 0), 'step %d (%+d s from release): %d of %d elements',
                  k, (m.model_time - rt).total_seconds(), c, total)
            if c:
                if kind != 'grid':
                    where(kind, sc['positions'], 0, c, total, 1, dt, 0, None, m.model_time, rt, 'step %d' % k)
                check(np.allclose(sc['mass'], AMOUNT / total, rtol=1e-12, atol=0), 'masses %s', sc['mass'])
            counts.append(c)
    check(counts[-1] == total, 'released %d of %d', counts[-1], total)
    return {'states': len(counts), 'transitions': len(counts) - 1, 'sig': (kind, tuple(counts), dt), 'show': counts}


# ------------------------------------------------------- amounts, units, setters
def run_amount(case):
    amount, units, n, how, dur, what = case
    import nucos
    from gnome.spills.substance import NonWeatheringSubstance
    from vp.scen import oil
    sub = NonWeatheringSubstance(standard_density=850.) if what == 'none' else oil()
    rho = 850. if what == 'none' else sub.standard_density
    end = T0 + secs(dur) if dur else None
    if how == 'ctor':
        sp = gs.point_line_spill(num_elements=n, start_position=(0, 0, 0), release_time=T0, end_release_time=end, substance=sub,
                                 amount=amount, units=units)
    else:
        sp = gs.point_line_spill(num_elements=1, start_position=(0, 0, 0), release_time=T0, end_release_time=end, substance=sub,
                                 amount=1, units='kg')
        sp.units = units
        sp.amount = amount
        sp.num_elements = n
    kg = {'kg': 1., 'g': .001, 'tonne': 1000., 'lb': 0.45359237, 'm^3': rho,
          'bbl': 0.158987294928 * rho, 'gal': 0.003785411784 * rho, 'l': rho / 1000.}[units] * amount
    check(abs(sp.get_mass() - kg) <= 1e-6 * kg, 'mass %r for %r %s, expected %r', sp.get_mass(), amount, units, kg)
    check(abs(sp.amount - amount) <= 1e-9 * amount, 'amount reads back as %r %s', sp.amount, units)
    m = Model(start_time=T0, duration=secs(1800), time_step=900)
    m.spills += sp
    m.full_run()
    sc = m.spills.items()[0]
    check(len(sc) == n, '%d elements', len(sc))
    check(abs(sc['mass'].sum() - kg) <= 1e-6 * kg, 'released %r kg of %r', sc['mass'].sum(), kg)
    return {'sig': case}


# ------------------------------------------------------------- releases on the shore
def run_shore(case):
    from vp.scen import band_map
    kind, dt, off, dur, n, unc, two = case
    rt = T0 + secs(off)
    ert = rt + secs(dur) if dur else None
    if kind == 'spots':
        rel = Release(release_time=rt, num_elements=n, end_release_time=ert, custom_positions=[(.3, .3, 0.), (.67, .4, 0.), (.9, .5, 0.), (.7, .6, 0.)])
    elif kind == 'line':
        rel = PointLineRelease(release_time=rt, num_elements=n, end_release_time=ert, start_position=(.41, .3, 0.), end_position=(.93, .7, 0.))
    else:
        rel = GridRelease(rt, ((.31, .21), (.93, .81)), (n, 3))
    mp = band_map(-1.)                 # what is on land stays there
    m = Model(start_time=T0, duration=secs(off + dur + 3 * dt), time_step=secs(dt), uncertain=unc, map=mp)
    m.spills += Spill(release=rel, amount=AMOUNT, units='kg')
    if two:
        m.spills += Spill(release=PointLineRelease(release_time=T0 + secs(dt // 2), end_release_time=T0 + secs(3 * dt), num_elements=9, start_position=(.05, .5, 0.), end_position=(.7, .5, 0.)), amount=1., units='kg')
    some = set()
    for k in range(m.num_time_steps):
        m.step()
        for sc in m.spills.items():
            if not len(sc):
                continue
            land = (sc['positions'][:, 0] > .6) & (sc['positions'][:, 0] < .75)
            sure = np.minimum(abs(sc['positions'][:, 0] - .6), abs(sc['positions'][:, 0] - .75)) > 1e-6
            want = np.where(land, int(oil_status.on_land), int(oil_status.in_water))
            check((sc['status_codes'] == want)[sure].all(), 'step %d: at %s the status is %s', k, sc['positions'][:, 0], sc['status_codes'])
            some |= set(want.tolist())
    return {'states': m.num_time_steps, 'sig': case, 'trivial': len(some) < 2}


# ---------------------------------------------------- initial positions that are kept

def run_keep(case):
    kind, off, dur, n, unc, moving = case
    rt = T0 + secs(off)
    kw = {'retain_initial_positions': True}
    rel = make_release(kind, n, rt, rt + secs(dur) if dur else None, **kw) if kind != 'grid' else GridRelease(rt, ((0., 0.), (1., 2.)), (n, 2), **kw)
    m = Model(start_time=T0, duration=secs(off + dur + 2700), time_step=900, uncertain=unc)
    sp = Spill(release=rel, amount=AMOUNT, units='kg')
    m.spills += sp
    m.spills += gs.point_line_spill(2, (50., 50., 0.), T0, amount=1, units='kg')       # does not keep them
    if moving:
        m.movers += SimpleMover((1.5, -.75, 0.))
    seen = {}
    lo, hi = (np.array((0., 0., 0.)), np.array((1., 2., 0.))) if kind == 'grid' else (None, None)
    for k in range(m.num_time_steps):
        m.step()
        for si, sc in enumerate(m.spills.items()):
            mine = sc['spill_num'] == 0
            if not mine.any():
                continue
            check('init_positions' in sc, 'step %d: the initial positions are not kept', k)
            ini, pos = sc['init_positions'][mine], sc['positions'][mine]
            for i, a, b in zip(sc['id'][mine], ini, pos):
                key = (si, int(i))
                if key not in seen:
                    seen[key] = a.copy()
                    if not moving:
                        check((a == b).all(), 'step %d: element %d released at %s has initial position %s', k, i, b, a)
                    if kind == 'grid':
                        check((a >= lo - 1e-9).all() and (a <= hi + 1e-9).all(), 'step %d: initial position %s is off the grid', k, a)
                check((seen[key] == a).all(), 'step %d: the initial position of element %d changed from %s to %s', k, i, seen[key], a)
            if kind != 'grid' and not dur:
                where(kind, ini, 0, len(ini), n, 1, 900, 0, None, m.model_time, rt, 'step %d (initial positions)' % k)
    return {'states': m.num_time_steps, 'sig': case}


def keep_cases():
    for kind in ('point', 'line', 'spots', 'poly', 'sub', 'grid'):
        for off, dur in ((0, 0), (450, 0), (0, 1800), (1000, 2500)):
            if kind == 'grid' and dur:
                continue
            for n in (3, 5):
                for unc in (False, True):
                    for moving in (False, True):
                        yield kind, off, dur, n, unc, moving


# ------------------------------------------------------------- shares of the polygons

SQ = lambda x, y, w, h: Polygon([(x, y), (x + w, y), (x + w, y + h), (x, y + h)])
DONUT = Polygon([(4, 0), (4.4, 0), (4.4, .4), (4, .4)], [[(4.1, .1), (4.3, .1), (4.3, .3), (4.1, .3)]])
MULTI = [SQ(6, 0, .1, .1), SQ(6.5, 0, .2, .2)]
SETS = {'two': [SQ(0, 0, .1, .1), SQ(1, 0, .3, .1)], 'three': [SQ(0, 0, .1, .1), SQ(1, 0, .1, .1), SQ(2, 0, .2, .1)],
        'ring': [DONUT, SQ(5, 0, .2, .2)], 'multi': [None, SQ(7, 0, .1, .3)], 'one': [SQ(0, 0, .3, .2)]}


def shapes(name):
    from shapely.geometry import MultiPolygon
    return [MultiPolygon(MULTI) if p is None else p for p in SETS[name]]


def run_share(case):
    name, by, n, source = case
    ps = shapes(name)
    area = np.array([p.area for p in ps])
    kw, extra = {}, {}
    val = None
    if by == 'weights':
        val = np.arange(1., len(ps) + 1)
        val /= val.sum()
        kw['weights'] = val.tolist()
        share = val
    elif by == 'thicknesses':
        val = np.array([.3, .1, .2][:len(ps)])
        kw['thicknesses'] = val.tolist()
        share = area * val / (area * val).sum()
    else:
        share = area / area.sum()
    if source == 'late':                   # given after it was made
        rel = PolygonRelease(polygons=ps, release_time=T0, num_elements=n)
        for k, v in kw.items():
            setattr(rel, k, v)
    elif source.startswith('was'):         # given instead of others
        other = source[4:]
        rel = PolygonRelease(polygons=ps, release_time=T0, num_elements=n, **{other: ([.9, .05, .05] if other == 'weights' else [9., .1, .1])[:len(ps)]})
        rel.weights = None
        rel.thicknesses = None
        for k, v in kw.items():
            setattr(rel, k, v)
    elif source == 'ctor':
        rel = PolygonRelease(polygons=ps, release_time=T0, num_elements=n, **kw)
    else:
        rel = PolygonRelease(polygons=list(ps), release_time=T0, num_elements=n, **kw)
        rel = PolygonRelease.deserialize(rel.serialize())
    m = Model(start_time=T0, duration=secs(900), time_step=900)
    m.spills += Spill(release=rel, amount=AMOUNT, units='kg')
    m.step()
    return share_check(m, ps, share, n, case)


def share_check(m, ps, share, n, case):
    pos = m.spills.items()[0]['positions']
    check(len(pos) == n, '%d elements', len(pos))
    got = np.zeros(len(ps), int)
    for i, p in enumerate(ps):
        parts_ = list(p.geoms) if hasattr(p, 'geoms') else [p]
        inside = np.array([p.distance(Point(x[0], x[1])) < 1e-9 for x in pos])
        got[i] = inside.sum()
        # spread evenly: each half of each part has its share
        for q in parts_:
            x0, y0, x1, y1 = q.bounds
            for ax, mid in ((0, (x0 + x1) / 2), (1, (y0 + y1) / 2)):
                here = [x for x in pos if q.distance(Point(x[0], x[1])) < 1e-9]
                left = sum(1 for x in here if x[ax] < mid)
                k = len(here)
                check(abs(left - k / 2) <= 6 * (k / 4) ** .5 + 1, 'polygon %d: %d of %d elements are on one side', i, left, k)
        if len(parts_) > 1:
            a = np.array([q.area for q in parts_])
            g = np.array([sum(1 for x in pos if q.distance(Point(x[0], x[1])) < 1e-9) for q in parts_])
            e = a / a.sum()
            check((abs(g - e * got[i]) <= 6 * (got[i] * e * (1 - e)) ** .5 + 1).all(), 'parts of polygon %d have %s elements, shares %s', i, g, e)
    check(got.sum() == n, '%s elements in the polygons, %d released', got, n)
    check((abs(got - share * n) <= 6 * (n * share * (1 - share)) ** .5 + 1 + .01 * n * share).all(), 'elements per polygon %s, expected shares %s of %d', got, share, n)
    return {'sig': case, 'states': n}


def share_cases():
    for name in SETS:
        for by in ('areas', 'weights', 'thicknesses'):
            for source in ('ctor', 'late', 'json', 'was weights', 'was thicknesses'):
                yield name, by, 2000, source


def run_file(case):
    """polygons from a shapefile: plain, and one of NESDIS with thick and thin oil and its own time"""
    import geopandas as gpd
    import os
    import shutil
    import zipfile
    from gnome.spills import spill as gspill
    from gnome.spills.release import NESDISRelease
    from vp.core import scratch_dir
    name, kind, crs, given = case
    ps = shapes(name)
    d = scratch_dir('c03')
    try:
        data = {'geometry': ps}
        area = np.array([p.area for p in ps])
        share = area / area.sum()
        rt = T0 + secs(1800)
        if kind == 'nesdis':
            oil = ['Thick', 'Thin', 'thick'][:len(ps)]
            data.update(OILTYPE=oil, DATE=['%02d/%02d/%d' % (T0.month, T0.day, T0.year)] * len(ps), TIME=['%02d%02d UTC' % (T0.hour, T0.minute)] * len(ps))
            v = area * [50e-6 if o.lower() == 'thick' else 5e-6 for o in oil]
            share = v / v.sum()
            rt = T0
        df = gpd.GeoDataFrame(data, crs='EPSG:4326')
        if crs != 4326:
            df = df.to_crs(epsg=crs)
        df.to_file(os.path.join(d, 'x.shp'), engine='pyogrio')
        z = os.path.join(d, 'x.zip')
        with zipfile.ZipFile(z, 'w') as f:
            for x in os.listdir(d):
                if not x.endswith('.zip'):
                    f.write(os.path.join(d, x), x)
        n = 1000
        if kind == 'nesdis':
            rel = NESDISRelease(filename=z, num_elements=n, **({'release_time': T0 + secs(7200)} if given else {}))
        elif given:
            rel = gspill.polygon_release_spill(z, release_time=rt, amount=1, units='kg').release
            rel.num_elements = n
        else:
            rel = PolygonRelease(filename=z, release_time=rt, num_elements=n)
        check(rel.release_time == rt, 'release time %s, expected %s', rel.release_time, rt)
        m = Model(start_time=T0, duration=secs(3600), time_step=900)
        m.spills += Spill(release=rel, amount=AMOUNT, units='kg')
        for k in range(3):
            m.step()
            c = m.spills.items()[0].num_released
            check(c == (n if m.model_time >= rt else 0), 'step %d: %d elements', k, c)
        return share_check(m, ps, share, n, case)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def file_cases():
    for name in SETS:
        for kind in ('plain', 'nesdis'):
            for crs in (4326, 3857):
                for given in (False, True):
                    yield name, kind, crs, given


# --------------------------------------------------- the helper functions make these spills

def helpers():
    from gnome.spills import spill as g
    d3, d2 = (10., 20., 3.), (10., 20.)
    e3, e2 = (10.5, 19.6, 4.), (10.5, 19.6)
    end = T0 + secs(1700)
    dist = lambda: UniformDistribution(low=1e-4, high=3e-4)
    z = lambda p: p if p is None or len(p) == 3 else tuple(p) + (0.,)
    surf = lambda p: None if p is None else tuple(p[:2]) + (0.,)
    H = {}
    for a in (d3, d2):
        for b in (None, e3, e2):
            for t in (None, end):
                H['point_line', a, b, t] = (lambda kw, a=a, b=b, t=t: g.point_line_spill(7, a, T0, end_position=b, end_release_time=t, **kw),
                                            lambda a=a, b=b, t=t: PointLineRelease(T0, z(a), num_elements=7, end_position=z(b), end_release_time=t))
                H['surface', a, b, t] = (lambda kw, a=a, b=b, t=t: g.surface_point_line_spill(7, a, T0, end_position=b, end_release_time=t, **kw),
                                         lambda a=a, b=b, t=t: PointLineRelease(T0, surf(a), num_elements=7, end_position=surf(b), end_release_time=t))
    for t in (None, end):
        for ty in ('droplet_size', 'rise_velocity'):
            H['subsurface', t, ty] = (lambda kw, t=t, ty=ty: g.subsurface_spill(7, d3, T0, dist(), distribution_type=ty, end_release_time=t, **kw),
                                      lambda t=t, ty=ty: SubsurfaceRelease(distribution=dist(), distribution_type=ty, release_time=T0, start_position=d3, num_elements=7, end_release_time=t))
    for res in ((2, 3), (4, 1), (1, 1)):
        H['grid', res] = (lambda kw, res=res: g.grid_spill(((0., 1.), (2., 4.)), res, T0, **kw), lambda res=res: GridRelease(T0, ((0., 1.), (2., 4.)), res))
    for spots in (SPOTS, SPOTS[:1]):
        H['spatial', len(spots)] = (lambda kw, s=spots: g.spatial_release_spill(s, T0, **kw), lambda s=spots: Release(release_time=T0, custom_positions=s))
    return H


def run_helper(case):
    from gnome.environment import Water
    from gnome.movers import PointWindMover
    from gnome.environment.wind import constant_wind
    from gnome.spills.substance import NonWeatheringSubstance
    key, opt = case
    make, rel = helpers()[key]
    kw = dict(amount=AMOUNT, units='bbl')
    sub = lambda: NonWeatheringSubstance(standard_density=850., windage_range=(.02, .03), windage_persist=600)
    want = sub()
    if 'range' in opt:
        kw['windage_range'] = (.05, .07)
        want.windage_range = (.05, .07)
    if 'persist' in opt:
        kw['windage_persist'] = -1
        want.windage_persist = -1
    if 'off' in opt:
        kw['on'] = False
    if 'name' in opt:
        kw['name'] = 'my spill'
    water = Water(290.)
    a = make(dict(kw, substance=sub(), water=water))
    b = Spill(release=rel(), substance=want, amount=AMOUNT, units='bbl', on='off' not in opt, water=water)
    check(a.on == b.on and a.units == 'bbl' and abs(a.amount - AMOUNT) < 1e-9, 'on %s, amount %r %s', a.on, a.amount, a.units)
    check(a.water is water, 'the water is not the one given')
    if 'name' in opt:
        check(a.name == 'my spill', 'named %r', a.name)
    for x in ('num_elements', 'release_time', 'end_release_time'):
        check(getattr(a, x) == getattr(b, x), '%s is %r, expected %r', x, getattr(a, x), getattr(b, x))
    check(tuple(a.substance.windage_range) == tuple(want.windage_range) and a.substance.windage_persist == want.windage_persist, 'windage %s %s', a.substance.windage_range, a.substance.windage_persist)
    h = []
    for sp in (a, b):
        m = Model(start_time=T0, duration=secs(3600), time_step=900)
        m.spills += sp
        m.movers += PointWindMover(constant_wind(5, 30))
        out = []
        for _ in m:
            out.append(snap(m))
        h.append(out)
    for k, (x, y) in enumerate(zip(*h)):
        df = diff_snap(x, y)
        check(df is None, 'step %d: not what the release itself gives: %s', k, df)
    return {'sig': case, 'states': 2 * len(out)}


def helper_cases():
    for key in helpers():
        for opt in ((), ('range',), ('persist',), ('range', 'persist'), ('off',), ('name',)):
            yield key, opt


def run_ends(case):
    """where a spill says it starts and ends, and its centre"""
    a, b, how = case
    rel = PointLineRelease(T0, a if how != 'set' else (9., 9., 9.), num_elements=3, end_position=b if how == 'ctor' else None)
    if how != 'ctor':
        rel.start_position = a
        rel.end_position = b
    sp = Spill(release=rel)
    e = a if b is None else b
    check(tuple(sp.start_position) == tuple(a) and tuple(sp.end_position) == tuple(e), 'from %s to %s, expected %s to %s', sp.start_position, sp.end_position, a, e)
    check(bool(rel.is_pointsource) == (tuple(e) == tuple(a)), 'is_pointsource %s', rel.is_pointsource)
    check(np.allclose(rel.centroid, (np.array(a) + e) / 2, rtol=0, atol=1e-12), 'centre %s', rel.centroid)
    return {'sig': case}


def end_cases():
    pts = [(0., 0., 0.), (10., 20., 0.), (10., 20., 5.), (-170., 20., 0.), (10., -20., 0.)]
    for a in pts:
        for b in [None] + pts:
            for how in ('ctor', 'set', 'later'):
                yield a, b, how


def parts(tier):
    q = tier == 'quick'
    if q:
        dts = [600, 900]
        offs = [0, 1, 300, 450, 600, 899, 1000, 1800]
        durs = [0, 1, 299, 600, 900, 901, 1700, 1800, 2500, 3600]
        ns = [1, 2, 3, 5, 7, 12]
        kinds = ['point', 'line', 'spots', 'rate', 'linerate', 'sub']
        pd = ([900], [0, 450, 1000], [0, 600, 1800, 2500], [3, 7])
    else:
        dts = [60, 600, 700, 900, 3600]
        offs = [0, 1, 299, 300, 301, 450, 600, 899, 900, 901, 1000, 1350, 1800]
        durs = [0, 1, 2, 299, 450, 600, 899, 900, 901, 1700, 1799, 1800, 1801, 2500, 3600, 5400]
        ns = [1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 50, 101]
        kinds = ['point', 'line', 'spots', 'rate', 'linerate', 'sub']
        pd = ([600, 900], [0, 1, 450, 899, 1000], [0, 1, 600, 899, 1800, 2500], [1, 2, 3, 7, 20])

    def cases():
        for kind, dt, off, dur, n in itertools.product(kinds, dts, offs, durs, ns):
            if dur > 90 * dt or off > 60 * dt:
                continue
            yield kind, dt, off, dur, n, False, AMOUNT
            if n in (2, 7) and off in (0, 450):
                yield kind, dt, off, dur, n, True, AMOUNT
        for kind in kinds:
            yield kind, 900, 0, 1800, 4, False, 0.

    def pcases():
        for kind in ('poly', 'polyw', 'polyt'):
            for dt, off, dur, n in itertools.product(*pd):
                yield kind, dt, off, dur, n, False, AMOUNT

    def scases():
        # sizes and lengths far from the small ones above
        for kind in kinds:
            for n in (257, 1000, 1001) if q else (255, 256, 257, 511, 1000, 1001, 4096, 10000):
                for dt, off, dur in ((900, 0, 0), (900, 450, 2500), (900, 1000, 90000), (3600, 7200, 3600 * 150), (60, 30, 6000)):
                    per = max(1, n // max(1, ceil_div(dur, dt))) if kind in ('rate', 'linerate') else n
                    yield kind, dt, off, dur, per, False, 1e6
        for kind in ('point', 'line', 'sub'):
            for n in (40000, 66000) if q else (32767, 32768, 40000, 65535, 65536, 66000, 200000):
                for off, dur in ((0, 0), (450, 4000)):
                    yield kind, 900, off, dur, n, False, 1e9
        for n in (50, 200):
            for off, dur in ((0, 0), (450, 4000), (900, 90000)):
                if n >= dur // 900:
                    yield 'poly', 900, off, dur, n, False, AMOUNT
                    yield 'polyt', 900, off, dur, n, False, AMOUNT
        for dt in (60, 3600, 21600, 43200, 86400) if q else (60, 3600, 7200, 10800, 14400, 21600, 43200, 86400):
            for off in (0, dt // 2, 3 * dt, 86400 * 40):
                if off > 300 * dt:
                    continue
                for steps in (0, 1, 3.5, 20):
                    for kind in ('point', 'line', 'rate'):
                        yield kind, dt, off, int(dt * steps), 31 if kind != 'rate' else 2, False, AMOUNT

    def gcases():
        for nx, ny in itertools.product(range(1, 5), range(1, 4)):
            for off in (0, 450, 900, 1000):
                for b in (((0., 0.), (1., 2.)), ((-150.5, -10.), (-149., 10.))):
                    yield (nx, ny), off, 900, b, 7.

    def acases():
        for a in (1., 2.5, 1000., 1234567.875, 40000000.0625):
            for u in ('kg', 'g', 'tonne', 'lb', 'm^3', 'bbl', 'gal', 'l'):
                for n in (1, 3, 10):
                    for how in ('ctor', 'set'):
                        for dur in (0, 900):
                            for what in ('none', 'oil'):
                                if n > 1 or not dur:
                                    yield a, u, n, how, dur, what

    def lcases():
        for kind in ('spots', 'line', 'grid'):
            for dt, off, dur in ((900, 0, 0), (900, 450, 0), (900, 1000, 0), (900, 0, 1800), (900, 450, 2500), (901, 100, 2000)):
                for n in (4, 7, 12):
                    for unc in (False, True):
                        for two in (False, True):
                            if kind != 'grid' or not dur:
                                yield kind, dt, off, dur, n, unc, two

    def bcases():
        for kind in ('point', 'line', 'spots', 'rate', 'poly', 'grid', 'sub'):
            for dt in (600, 900):
                for off in offs:
                    for n in (1, 2, 5):
                        yield kind, dt, off, n, False
                    yield kind, dt, off, 3, True
    return [Part('backwards', bcases, run_back), Part('window', cases, run, rule='release kind x time step x release offset x duration x element count'),
            Part('polygons', pcases, run), Part('scale', scases, run, rule='many elements, long releases, long steps, releases weeks into the run', chunk=4),
            Part('kept', keep_cases, run_keep, rule='release kind x window x count x uncertainty x movement: the initial positions kept are those of the release'),
            Part('shares', share_cases, run_share, rule='polygons x area, weights or thicknesses x how they are given', chunk=1),
            Part('shapefiles', file_cases, run_file, rule='polygons x plain or NESDIS x coordinate system x time', chunk=1),
            Part('helpers', helper_cases, run_helper, rule='every helper function x forms of position x options: the same spill as its release'),
            Part('ends', end_cases, run_ends, rule='pairs of positions x how they are given'),
            Part('grid', gcases, run_grid), Part('amounts', acases, run_amount),
            Part('shore', lcases, run_shore, rule='release kind x window x count x uncertainty x a second spill, partly on land: those on land are beached, the others afloat')]

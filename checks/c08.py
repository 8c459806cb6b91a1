"""C08  every kind of map agrees with its own polygons about water, land and its edge, and oil leaving it is removed
and accounted for exactly once."""
import itertools
from fractions import Fraction

from vp.core import Part, check, Violation, scratch_dir
from vp.shore import *
from gnome.maps.map import GnomeMap, ParamMap, MapFromBNA, map_from_rectangular_grid
from gnome.maps import map as map_mod
from gnome.utilities.projections import GeoProjection, FlatEarthProjection, RectangularGridProjection

PROPERTY = 'C08'
LEVEL = 'model_checking'
NOTE = 'every map kind x every point of a lattice reaching beyond it; every sequence of moves on a Model with an independent count of what left'
ASSUMPTIONS = ['points exactly on a polygon edge may count as in or out',
               'maps made from polygons: points within 2 pixels of a polygon edge may be either land or water']


def inside(poly, x, y):
    """even-odd rule in exact arithmetic; None on the boundary"""
    x, y = Fraction(x), Fraction(y)
    P = [(Fraction(a), Fraction(b)) for a, b in poly]
    c = False
    for (x1, y1), (x2, y2) in zip(P, P[1:] + P[:1]):
        if (x2 - x1) * (y - y1) == (y2 - y1) * (x - x1) and min(x1, x2) <= x <= max(x1, x2) and min(y1, y2) <= y <= max(y1, y2):
            return None
        if (y1 > y) != (y2 > y) and (x - x1 < (x2 - x1) * (y - y1) / (y2 - y1)):
            c = not c
    return c


def dist(poly, x, y, sx=1., sy=1.):
    """distance of the point from the outline, axes scaled"""
    best = 1e9
    P = [(a * sx, b * sy) for a, b in poly]
    x, y = x * sx, y * sy
    for (x1, y1), (x2, y2) in zip(P, P[1:] + P[:1]):
        L = (x2 - x1) ** 2 + (y2 - y1) ** 2
        t = 0 if L == 0 else max(0, min(1, ((x - x1) * (x2 - x1) + (y - y1) * (y2 - y1)) / L))
        best = min(best, ((x1 + t * (x2 - x1) - x) ** 2 + (y1 + t * (y2 - y1) - y) ** 2) ** .5)
    return best


RECT = [(0., 0.), (2., 0.), (2., 1.), (0., 1.)]
LSHAPE = [(0., 0.), (2., 0.), (2., .5), (1., .5), (1., 1.), (0., 1.)]
SMALL = [(.5, .2), (1.5, .2), (1.5, .8), (.5, .8)]
LARGE = [(-1., -1.), (3., -1.), (3., 2.), (-1., 2.)]
HOLE = [(.2, .2), (.9, .2), (.9, .45), (.2, .45)]


def bna(polys):
    import os
    fn = os.path.join(scratch_dir('bna'), 'm.bna')
    with open(fn, 'w') as fd:
        for name, kind, pts in polys:
            fd.write('"%s","%s",%d\n' % (name, kind, len(pts) + 1))
            for p in list(pts) + [pts[0]]:
                fd.write('%.8f,%.8f\n' % p)
    return fn


LAND = [(0., 0.), (1.2, 0.), (1.2, 1.), (0., 1.)]
ISLE = [(1.5, .4), (1.9, .5), (1.7, .9)]
LAKE = [(.3, .3), (.9, .3), (.9, .8), (.3, .8)]


class M(object):
    """a map with its reference: bounds polygon, land test (None: cannot say), spillable polygons"""

    def __init__(self, name, mp, bounds, land, spill, isparam=False):
        self.name, self.mp, self.bounds, self.land, self.spill, self.isparam = name, mp, bounds, land, spill, isparam


KINDS = ['world', 'water-rect', 'water-L', 'water-spill', 'raster', 'raster-small', 'raster-large', 'raster-L', 'geo', 'flat',
         'rect', 'rectgrid', 'rectgrid3', 'bna', 'bna-bounds', 'bna-spill', 'bna-args', 'bna-shift', 'bna-shift180', 'bna-shift0', 'bna-shift179', 'bna-resize']


def build(kind, refloat=-1, lat0=0.):
    w, h = 20, 10
    arr = np.zeros((w, h), np.uint8)
    arr[12:14, 2:9] = 1
    arr[3, 3] = 1
    arr[0, 0] = arr[19, 9] = 1
    g = Grid(w, h, 0., 0., .1, .1)

    def rl(x, y):
        px = g.pixel(np.array([(x, y)]))[0]
        return bool(0 <= px[0] < w and 0 <= px[1] < h and arr[px[0], px[1]])

    none = lambda x, y: False
    WORLD = [(-360., -90.), (-360., 90.), (360., 90.), (360., -90.)]
    if kind == 'world':
        return M(kind, GnomeMap(), WORLD, none, None)
    if kind == 'water-rect':
        return M(kind, GnomeMap(map_bounds=RECT), RECT, none, None)
    if kind == 'water-L':
        return M(kind, GnomeMap(map_bounds=LSHAPE), LSHAPE, none, None)
    if kind == 'water-spill':
        return M(kind, GnomeMap(map_bounds=LARGE, spillable_area=[SMALL, HOLE]), LARGE, none, [SMALL, HOLE])
    reg = lambda: RegularGridProjection(g.bbox, image_size=(w, h))
    if kind == 'raster':
        return M(kind, RasterMap(raster=arr, projection=reg(), refloat_halflife=refloat, map_bounds=RECT), RECT, rl, None)
    if kind == 'raster-small':
        return M(kind, RasterMap(raster=arr, projection=reg(), refloat_halflife=refloat, map_bounds=SMALL, spillable_area=HOLE), SMALL, rl, [HOLE])
    if kind == 'raster-large':
        return M(kind, RasterMap(raster=arr, projection=reg(), refloat_halflife=refloat, map_bounds=LARGE), LARGE, rl, None)
    if kind == 'raster-L':
        return M(kind, RasterMap(raster=arr, projection=reg(), refloat_halflife=refloat, map_bounds=LSHAPE), LSHAPE, rl, None)
    if kind == 'geo':
        return M(kind, RasterMap(raster=arr, projection=GeoProjection(g.bbox, (w, h)), refloat_halflife=refloat, map_bounds=LARGE), LARGE, rl, None)
    if kind == 'flat':
        lat = 1 / .1
        g2 = Grid(w, h, 0., 60., .2, .1)
        # 2:1 in degrees is about 1:1 in metres at 60N

        pr = FlatEarthProjection(((0., 60.), (4., 61.)), (w, h))
        sx, sy = pr.scale
        cx, cy = pr.center
        b = [(-1., 59.), (5., 59.), (5., 62.), (-1., 62.)]

        def fl(x, y):
            px = (int(np.floor((x - cx) * sx + w / 2)), int(np.floor((y - cy) * sy + h / 2)))
            return bool(0 <= px[0] < w and 0 <= px[1] < h and arr[px])
        return M(kind, RasterMap(raster=arr, projection=pr, refloat_halflife=refloat, map_bounds=b), b, fl, None)
    if kind == 'rect':
        lon = np.array([0., .1, .15, .3, .5, .6, .65, .7, .9, 1., 1.1, 1.2, 1.25, 1.4, 1.5, 1.55, 1.7, 1.8, 1.9, 1.95, 2.])
        lat = np.array([0., .05, .2, .3, .45, .5, .6, .75, .8, .9, 1.])

        def fl(x, y):
            i = int(np.searchsorted(lon, x, side='right')) - 1
            j = h - int(np.searchsorted(lat, y, side='left'))
            return bool(0 <= i < w and 0 <= j < h and arr[i, j]) if 0 < x < 2 and 0 < y < 1 else None
        return M(kind, RasterMap(raster=arr, projection=RectangularGridProjection(lon, lat), refloat_halflife=refloat, map_bounds=RECT), RECT, fl, None)
    if kind in ('rectgrid', 'rectgrid3'):
        r = 3 if kind == 'rectgrid3' else 1
        mp = map_from_rectangular_grid(arr, np.linspace(0, 2, w + 1), np.linspace(0, 1, h + 1), refine=r, refloat_halflife=refloat)
        return M(kind, mp, RECT, lambda x, y: rl(x, y) if 0 < x < 2 and 0 < y < 1 else None, None)
    if kind.startswith('bna'):
        polys = [('1', '1', LAND), ('2', '2', LAKE), ('3', '1', ISLE)]
        off = 0.
        args = {}
        bounds = [(0., 0.), (0., 1.), (1.9, 1.), (1.9, 0.)]
        spill = None
        if kind in ('bna-bounds', 'bna-resize'):
            bounds = [(-.5, -.5), (2.5, -.5), (2.5, 1.5), (-.5, 1.5)]
            polys.append(('Map Bounds', '1', bounds))
        elif kind == 'bna-spill':
            spill = [[(-.5, -.5), (2.5, -.5), (2.5, .5), (-.5, .5)]]
            polys.append(('SpillableArea', '1', spill[0]))
            bounds = [(-.5, -.5), (2.5, -.5), (2.5, 1.), (-.5, 1.)]
        elif kind == 'bna-args':
            polys.append(('Map Bounds', '1', RECT))
            bounds = LARGE
            spill = [SMALL]
            args = dict(map_bounds=LARGE, spillable_area=[SMALL])
        elif kind == 'bna-shift':
            # land on both sides of the date line
            off = 179.
            def wrap(p):
                return [(x + off - (360. if x + off > 180 else 0.), y) for x, y in p]
            polys = [(n, k, wrap(p)) for n, k, p in polys]
            args = dict(shift_lons=360)
            bounds = [(x + off, y) for x, y in bounds]
        elif kind == 'bna-shift0':
            # the shore runs along the meridian of Greenwich
            args = dict(shift_lons=360)
        elif kind in ('bna-shift180', 'bna-shift179'):
            off = -1. if kind == 'bna-shift180' else 180. - 1.9        # the easternmost point at 180
            polys = [(n, k, [(x + off + (360. if x + off < 0 else 0.), y) for x, y in p]) for n, k, p in polys]
            args = dict(shift_lons=180)
            bounds = [(x + off, y) for x, y in bounds]
        mp = MapFromBNA(bna(polys), raster_size=100 * 100 if kind != 'bna-resize' else 50 * 50, refloat_halflife=refloat, **args)
        if kind == 'bna-resize':
            mp.raster_size = 120 * 120
        psize = 2. / 90                 # two pixels

        def fl(x, y):
            x = x - off
            if min(dist(p, x, y) for p in (LAND, LAKE, ISLE)) < psize:
                return None
            return bool((inside(LAND, x, y) and not inside(LAKE, x, y)) or inside(ISLE, x, y))
        return M(kind, mp, bounds, fl, spill)
    raise ValueError(kind)


def lattice(ref, n, m=None):
    xs, ys = [p[0] for p in ref.bounds], [p[1] for p in ref.bounds]
    x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
    if x1 - x0 > 100:
        x0, x1, y0, y1 = -360., 360., -90., 90.
    dx, dy = (x1 - x0) / n, (y1 - y0) / (m or n)
    return [(x0 + dx * (i + .37), y0 + dy * (j + .61)) for i in range(-2, n + 2) for j in range(-2, (m or n) + 2)]


def points(case):
    kind, n, z = case
    ref = build(kind)
    pts = lattice(ref, n)
    arr = np.array([(x, y, z) for x, y in pts])
    keep = arr.copy()
    on = ref.mp.on_map(arr)
    lp = ref.mp.on_land_points(arr)
    check(np.array_equal(arr, keep), '%s: asking about points changed them: %s became %s', kind,
          keep[(arr != keep).any(1)][:1].tolist(), arr[(arr != keep).any(1)][:1].tolist())
    cnt = [0, 0, 0]
    for k, (x, y) in enumerate(pts):
        c = (x, y, z)
        want = inside(ref.bounds, x, y)
        if want is None:
            continue
        what = '%s at %s' % (kind, c)
        check(bool(on[k]) == want, '%s: on_map says %s', what, on[k])
        check(bool(ref.mp.on_map(c)) == want, '%s: on_map of one point says %s', what, ref.mp.on_map(c))
        land = ref.land(x, y)
        a = bool(ref.mp.on_land(c))
        check(a == bool(lp[k]), '%s: on_land %s but on_land_points %s', what, a, lp[k])
        if land is not None:
            check(a == land, '%s: on_land says %s', what, a)
            cnt[0] += land
        wat = bool(ref.mp.in_water(c))
        check(wat == (want and not a), '%s: on the map %s, on land %s, but in water %s', what, want, a, wat)
        al = bool(ref.mp.allowable_spill_position(c))
        sp = want and not a
        if ref.spill is not None:
            ins = [inside(p, x, y) for p in ref.spill]
            if None in ins:
                continue
            sp = any(ins) and (sp if isinstance(ref.mp, RasterMap) else True)
        check(al == sp, '%s: allowable spill position %s (on map %s, land %s)', what, al, want, a)
        cnt[1] += want
        cnt[2] += al
    return dict(states=len(pts), transitions=5 * len(pts), sig=(case, cnt))


def shore_between(ref, p, q):
    return any(ref.land(p[0] + (q[0] - p[0]) * t / 200., p[1] + (q[1] - p[1]) * t / 200.) is not False for t in range(201))


def leave(case):
    """moves over the edge of the map, with and without land on the way; mass balance of what left"""
    kind, vels, unc, z = case
    ref = build(kind, refloat=-1)
    xs, ys = [p[0] for p in ref.bounds], [p[1] for p in ref.bounds]
    dx, dy = (max(xs) - min(xs)) / 4, (max(ys) - min(ys)) / 4
    if kind == 'world':
        return dict(trivial=True)
    pts = [(x, y, z) for x, y in lattice(ref, 5) if inside(ref.bounds, x, y)]
    n = len(pts)
    m = Model(start_time=T0, duration=secs(900 * len(vels)), time_step=secs(900), map=ref.mp, uncertain=unc)
    m.spills += Spill(release=Release(release_time=T0, num_elements=n, custom_positions=pts), amount=n * 2., units='kg')
    mv = TableMover(np.zeros((n, 2)))
    m.movers += mv
    m.step()
    alive = [{i: pts[i] for i in range(n)} for _ in m.spills.items()]
    stuck = [{i for i in range(n) if ref.mp.on_land(pts[i])} for _ in m.spills.items()]
    gone = [0 for _ in alive]
    for k, (vx, vy) in enumerate(vels):
        mv.table[:] = (vx * dx, vy * dy)
        m.step()
        for si, sc in enumerate(m.spills.items()):
            what = '%s moves %s step %d set %d' % (kind, vels, k, si)
            ids, st, pos = sc['id'], sc['status_codes'], sc['positions']
            now = dict(zip(ids.tolist(), pos.tolist()))
            check(set(now) <= set(alive[si]), '%s: element %s came back', what, sorted(set(now) - set(alive[si])))
            check((pos[:, 2] >= 0).all(), '%s: oil in the air', what)
            on = dict(zip(ids.tolist(), (st == oil_status.on_land).tolist()))
            for i, p in alive[si].items():
                to = p if i in stuck[si] else (p[0] + vx * dx, p[1] + vy * dy)
                if i in now:
                    q = now[i]
                    check(inside(ref.bounds, q[0], q[1]) is not False, '%s: element %d from %s is at %s, off the map, and still there', what, i, p, q)
                    check(abs(q[2] - max(z, 0)) < 1e-9, '%s: element %d is at depth %s', what, i, q[2])
                    if not on[i]:
                        check(abs(q[0] - to[0]) < 1e-9 and abs(q[1] - to[1]) < 1e-9, '%s: element %d moved from %s to %s not %s', what, i, p, q, to)
                else:
                    # (it may have run ashore outside a map smaller than the raster)
                    check(inside(ref.bounds, *to[:2]) is not True or shore_between(ref, p, to), '%s: element %d was removed although it moved from %s to %s on the map', what, i, p, to)
                    gone[si] += 1
            check((st != oil_status.off_maps).all() and (st != oil_status.to_be_removed).all(), '%s: elements that left remain', what)
            mb = sc.mass_balance
            check(abs(mb['off_maps'] - 2. * gone[si]) < 1e-9, '%s: %d elements of 2 kg left, but off_maps is %s kg', what, gone[si], mb['off_maps'])
            check(abs(mb['beached'] - 2. * sum(on.values())) < 1e-9, '%s: %d on land but beached is %s kg', what, sum(on.values()), mb['beached'])
            stuck[si] = {i for i in on if on[i]}
            alive[si] = now
    return dict(states=n * len(vels), transitions=n * len(vels), sig=(case, gone, [len(s) for s in stuck]))


def leave_cases(tier):
    V = [(1, 0), (-1, .5), (0, -1.5), (.3, 1)]
    ks = [k for k in KINDS if k != 'world']
    d = 2 if tier == 'quick' else 3
    def gen():
        for k in ks:
            for z in (0., 3., -2.):
                for vs in itertools.product(V, repeat=d):
                    for unc in ((False, True) if z == 0 else (False,)):
                        yield (k, vs, unc, z)
    return gen


def param(case):
    """the straight shoreline map: stops what reaches the shore, removes what leaves, counts it once"""
    bearing, vels = case
    d = 20000.
    mp = ParamMap(center=(0., 0.), distance=d, bearing=bearing, units='m', refloat_halflife=-1)
    deg = d * 8.9992801e-06
    th = np.deg2rad(bearing)
    nx, ny = np.sin(th), np.cos(th)
    m = Model(start_time=T0, duration=secs(900 * len(vels)), time_step=secs(900), map=mp)
    n = 8
    m.spills += Spill(release=Release(release_time=T0, num_elements=n, custom_positions=[(0., .001 * i, 0.) for i in range(n)]), amount=n, units='kg')
    mv = TableMover(np.zeros((n, 2)))
    m.movers += mv
    m.step()
    alive = {i: (0., .001 * i) for i in range(n)}
    stuck = set()
    gone = 0
    for k, v in enumerate(vels):
        # every element its own speed
        mv.table[:] = [(v[0] * deg * (1 + .35 * i) * 1.01, v[1] * deg * (1 + .35 * i) * 1.013) for i in range(n)]
        m.step()
        sc = m.spills.items()[0]
        what = 'ParamMap bearing %s moves %s step %d' % (bearing, vels, k)
        ids, st, pos = sc['id'].tolist(), sc['status_codes'], sc['positions']
        now = dict(zip(ids, pos.tolist()))
        for i, p in alive.items():
            to = p if i in stuck else (p[0] + mv.table[i][0], p[1] + mv.table[i][1])
            off = abs(to[0]) > 16 * deg or abs(to[1]) > 16 * deg
            a = to[0] * nx + to[1] * ny
            if i not in now:
                gone += 1
                check(off, '%s: element %d removed on the map at %s', what, i, to)
                continue
            q = now[i]
            land = st[ids.index(i)] == oil_status.on_land
            if land:
                check(i in stuck or a > deg * .999, '%s: element %d beached although it went to %s', what, i, to)
                check(abs(q[0] * nx + q[1] * ny - deg) < deg * 1e-6, '%s: element %d is beached away from the shore at %s', what, i, q)
                stuck.add(i)
            else:
                check(i not in stuck, '%s: element %d came off the shore', what, i)
                # (far away the land has an end)
                far = max(abs(to[0]), abs(to[1])) > 15 * deg
                check(far or a < deg * 1.001, '%s: element %d went through the shore to %s', what, i, to)
                check(abs(q[0] - to[0]) < 1e-9 and abs(q[1] - to[1]) < 1e-9, '%s: element %d is at %s not %s', what, i, q, to)
        mb = sc.mass_balance
        check(abs(mb['off_maps'] - gone) < 1e-9, '%s: %d kg left the map but off_maps is %s', what, gone, mb['off_maps'])
        check(abs(mb['beached'] - len([i for i in now if i in stuck])) < 1e-9, '%s: beached %s kg', what, mb['beached'])
        alive = {i: (q[0], q[1]) for i, q in now.items()}
    return dict(states=n * len(vels), transitions=n * len(vels), sig=(case, gone, len(stuck)))


def param_cases(tier):
    V = [(.9, 0), (-2.1, .4), (.2, -.8), (1.3, 5.)]
    return lambda: ((b, vs) for b in (90, 0, 45, 180, 225, 300) for vs in itertools.product(V, repeat=2 if tier == 'quick' else 3))


def refloat(case):
    """the refloating rule for the half-lives where it is certain, and its dependence on the step length"""
    kind, half, dt, unc = case
    ref = build(kind, refloat=half)
    mp = ref.mp
    check(abs(mp.refloat_halflife - half) < 1e-12, 'refloat_halflife reads %s instead of %s hours', mp.refloat_halflife, half)
    n = 400
    m = Model(start_time=T0, duration=secs(dt * 4), time_step=secs(dt), map=mp, uncertain=unc)
    m.spills += Spill(release=Release(release_time=T0, num_elements=n, custom_positions=[(1., .45, 0.)] * n))
    mv = TableMover(np.zeros((n, 2)))
    m.movers += mv
    m.step()
    mv.table[:] = (.25, 0.)
    m.step()
    for sc in m.spills.items():
        on = sc['status_codes'] == oil_status.on_land
        check(on.all() if half != 0 else not on.any(), '%s half-life %s: after reaching the shore %d of %d are on land', kind, half, on.sum(), n)
    lws = [sc['last_water_positions'].copy() for sc in m.spills.items()]
    pos = [sc['positions'].copy() for sc in m.spills.items()]
    mv.table[:] = 0.
    left = n
    out = []
    for k in range(2):
        m.step()
        for si, sc in enumerate(m.spills.items()):
            on = sc['status_codes'] == oil_status.on_land
            what = '%s half-life %s h, step %s s' % (kind, half, dt)
            check(np.array_equal(sc['positions'][~on], lws[si][~on]), '%s: refloated not at the last water position', what)
            check(np.allclose(sc['positions'][on], pos[si][on], atol=1e-12), '%s: on land but moved', what)
            if half < 0:
                check(on.all(), '%s: refloated', what)
            elif half > 0:
                p = 1 - .5 ** (dt * (k + 1) / (half * 3600))
                r = (~on).sum() / n
                # the draw is seeded by the model, so the outcome is reproducible; 8 sigma
                check(abs(r - p) <= 8 * (p * (1 - p) / n) ** .5 + 1e-12, '%s: %.3f refloated after %d steps, expected %.3f', what, r, k + 1, p)
            out.append(int(on.sum()))
    return dict(states=3, transitions=3 * n, sig=(case, out))


def refloat_cases():
    for kind in ('raster', 'raster-large', 'geo', 'rectgrid'):
        for half in (-1., 0., 1e-5, .25, 1., 1e7):
            for dt in (600, 900, 3600):
                for unc in (False, True):
                    yield (kind, half, dt, unc)


def parts(tier):
    q = tier == 'quick'
    return [Part('points', lambda: ((k, n, z) for k in KINDS for n in ((7, 13) if q else (7, 13, 29, 41)) for z in (0., 5.)), points,
                 rule='every map kind x every point of lattices reaching beyond the map'),
            Part('leave', leave_cases(tier), leave, rule='every map kind x every sequence of moves x surface/submerged/airborne'),
            Part('param', param_cases(tier), param, rule='straight shoreline map: bearings x sequences of moves'),
            Part('refloat', refloat_cases, refloat, rule='half-lives x step lengths')]

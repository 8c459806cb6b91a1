"""C31  oil on a tide flat waits for the water."""
import itertools

from vp.core import Part, check
from vp.g import *
from vp.objs import *
from gnome.maps.map import RasterMap
from gnome.maps.tideflat_map import TideflatMap, TideflatBase, SimpleTideflat
from gnome.utilities.projections import GeoProjection
from gnome.spills.spill import point_line_spill

PROPERTY = 'C31'
LEVEL = 'model_checking'
NOTE = ('every table of which cell is dry at which step is put under the real model and followed with an automaton of one state per element; '
        'all movers on all dry and wet patterns over time')
ASSUMPTIONS = ['a step looks at the state of the flats at the time the step begins (the time the map is given)',
               'what weathering does to oil on a flat is not stated']

DT = 600
W = .02                     # degrees of longitude per step
SPEED = W * 111120. / DT    # what the mover needs for that on the equator
IN, LAND, FLAT, OFF = oil_status.in_water, oil_status.on_land, oil_status.on_tideflat, oil_status.off_maps


class Table(TideflatBase):
    """dry where and when a table says so"""

    def __init__(self, f):
        self.f = f

    def is_dry(self, points, time):
        points = np.asarray(points, dtype=float).reshape((-1, 3))
        k = int(round((time - T0).total_seconds() / DT))
        return np.array([bool(self.f(cell(x), k)) for x in points[:, 0]], dtype=bool)


def cell(x):
    return int(np.floor(x / W))


def land_map(kind):
    if kind == 'open':
        return GnomeMap()
    if kind == 'edge':
        # cell 4 and beyond are off the map
        return GnomeMap(map_bounds=((-W, -1.), (4 * W, -1.), (4 * W, 1.), (-W, 1.)))
    half = {'stays': -1, 'refloats': 0}[kind]
    n, h = 12, 6
    land = np.zeros((n, h), dtype=np.uint8)
    land[5, :] = 1          # cell 3 is land: pixels are cells from -2 on
    x0 = -2 * W
    return RasterMap(raster=land, projection=GeoProjection(((x0, -h / 2 * W), (x0 + n * W, h / 2 * W)), (n, h)), refloat_halflife=half,
                     map_bounds=((x0, -h / 2 * W), (x0 + n * W, -h / 2 * W), (x0 + n * W, h / 2 * W), (x0, h / 2 * W)))


def build(f, kind, cells, unc=False, movers=None, rel=0, wrap=True):
    lm = land_map(kind)
    m = Model(start_time=T0, time_step=DT, duration=secs(DT * 4), uncertain=unc, map=TideflatMap(lm, Table(f)) if wrap else lm)
    from gnome.spills.release import Release
    m.spills += Spill(release=Release(release_time=T0, custom_positions=[((c + .5) * W, .25 * W, 0.) for c in cells], num_elements=len(cells)), amount=len(cells), units='kg')
    if rel:
        m.spills += point_line_spill(1, ((.5) * W, .25 * W, 0.), T0 + secs(rel * DT), amount=1, units='kg')
    for mv in movers if movers is not None else [SimpleMover((SPEED, 0., 0.), uncertainty_scale=0.)]:
        m.movers += mv
    return m


def auto(f, kind, c, steps, born=0):
    """the automaton: (cell, status) of an element after each step"""
    st = IN
    out = {born: (c, IN)}
    for k in range(born, steps):
        if st is FLAT and not f(c, k):
            st = IN
        if st is IN:
            n = c + 1
            if kind == 'stays' and n == 3:
                st, c = LAND, n
            elif kind == 'edge' and n >= 4:
                st, c = OFF, n
            else:
                if not (kind == 'refloats' and n == 3):     # back in the water where it came from
                    c = n
                if f(c, k):
                    st = FLAT
        out[k + 1] = (c, st)
        if st is OFF:
            break
    return out


def flat_run(case):
    kind, bits, unc, late = case
    tab = {(c, k): bits >> (c * 3 + k) & 1 for c in range(3) for k in range(3)}
    beyond = bits >> 9 & 1                 # the cells from 3 on: land, or the last ones of the map
    f = lambda c, k: tab.get((c, k), beyond if c >= 3 else 0)
    cells = (-1, 0, 1)
    m = build(f, kind, cells, unc, rel=late)
    want = [auto(f, kind, c, 4) for c in cells]
    if late:
        want.append(auto(f, kind, 0, 4, late))
    n = 0
    for k, _ in enumerate(m):
        for sc in m.spills.items():
            exp = [w[k] for w in want if k in w and w[k][1] is not OFF]
            got = [(cell(x), int(s)) for x, s in zip(sc['positions'][:, 0], sc['status_codes'])]
            if kind == 'stays':
                # a beached element lies in the water next to the land or on it
                got = [(3 if s == LAND and c in (2, 3) else c, s) for c, s in got]
            check(got == [(c, int(s)) for c, s in exp], 'after step %d elements (cell, status) are %s, expected %s', k, got, [(c, int(s)) for c, s in exp])
            off = [abs(x / W - c - .5) for x, (c, s) in zip(sc['positions'][:, 0], exp) if s is not LAND]
            if kind in ('open', 'edge'):
                check(not off or max(off) < .01, 'after step %d elements are %s of a cell from where they should be', k, off)
            check(np.allclose(sc['mass'], 1.), 'masses %s', sc['mass'])
        n += 1
    check(n == 5, '%d steps', n)
    return dict(states=5 * len(want), transitions=4 * len(want), sig=(kind, tuple(tuple(sorted((a, b[0], int(b[1])) for a, b in w.items())) for w in want)))


def flat_cases(tier):
    def it():
        for kind in ('open', 'edge', 'stays', 'refloats'):
            for bits in range(1024):
                for unc in (False, True):
                    for late in (0, 1) if tier == 'quick' else (0, 1, 2):
                        if tier == 'quick' and (unc and late or bits >= 512 and (unc or late)):
                            continue
                        yield kind, bits, unc, late
    return it


# ----------------------------------------------------------- every mover waits

MV = {
    'simple': lambda: SimpleMover((.3, .1, 0.), uncertainty_scale=.5),
    'random': lambda: RandomMover(diffusion_coef=1e5),
    'wind': lambda: PointWindMover(constant_wind(10., 45.)),
    'pywind': lambda: WindMover(constant_wind(10., 45.)),
    'pycurrent': lambda: CurrentMover(SteadyUniformCurrent(.75, 40.)),
    'random3d': lambda: RandomMover3D(horizontal_diffusion_coef_above_ml=1e5),
    'rise': lambda: RiseVelocityMover(),
}


def mover_run(case):
    names, pat, unc = case
    f = lambda c, k: pat >> k & 1 if 0 <= k < 4 else 0
    m = build(f, 'open', (0, 1), unc, movers=[MV[n]() for n in names])
    prev = None
    moved = 0
    for k, _ in enumerate(m):
        for i, sc in enumerate(m.spills.items()):
            dry = k > 0 and f(0, k - 1)
            want = FLAT if dry else IN
            check(np.all(sc['status_codes'] == want), 'after step %d the status is %s, expected %d', k, sc['status_codes'], want)
            if prev is not None:
                # it moved in that step unless it was on the flat, and the flat dry
                waits = prev[1] and f(0, k - 1)
                d = np.abs(sc['positions'] - prev[0][i]).max(axis=1)
                if waits:
                    check(np.all(d == 0.), 'step %d moved elements on a dry flat by %s', k, d)
                elif names != ('rise',):
                    check(np.all(d > 0.), 'step %d did not move elements in the water: %s', k, d)
                    moved += 1
        prev = ([np.array(sc['positions']) for sc in m.spills.items()], k > 0 and f(0, k - 1))
    return dict(states=10, transitions=8, sig=(names, pat, unc, moved))


def mover_cases(tier):
    def it():
        sets = [(n,) for n in MV] + [('wind', 'pycurrent', 'random')] + ([] if tier == 'quick' else [x for x in itertools.combinations(MV, 2)])
        for names in sets:
            for pat in range(16):
                for unc in (False, True):
                    yield names, pat, unc
    return it


# --------------------------------------------- the flat and what it lets through

def simple_run(case):
    poly, a, b = case
    tf = SimpleTideflat(poly, T0 + secs(a), T0 + secs(b))
    from shapely.geometry import Polygon as P, Point
    p = P(poly)
    pts = [(x / 4. + .1, y / 4. + .13, z) for x in range(-4, 20) for y in range(-4, 20) for z in (0., 3.)]
    inside = np.array([p.contains(Point(q[:2])) for q in pts])
    n = 0
    for t in sorted(set([a - 1, a, a + 1, (a + b) // 2, b - 1, b, b + 1])):
        for form in (pts, np.array(pts)):
            dry = np.asarray(tf.is_dry(form, T0 + secs(t)))
            want = inside if a <= t <= b else np.zeros(len(pts), bool)
            check(dry.shape == (len(pts),) and np.array_equal(dry.astype(bool), want), 'at %d s of the dry spell [%d, %d] %d points are dry, expected %d', t, a, b, dry.sum(), want.sum())
            wet = np.asarray(tf.is_wet(form, T0 + secs(t)))
            check(np.array_equal(wet.astype(bool), ~want), 'wet is not the contrary of dry')
            n += 2
    base = TideflatBase()
    check(not np.any(base.is_dry(pts, T0)) and np.all(base.is_wet(pts, T0)), 'the plain tide flat is dry')
    # a whole run with it
    lm = GnomeMap(map_bounds=((-9., -9.), (9., -9.), (9., 9.), (-9., 9.)))
    from gnome.spills.release import Release
    m = Model(start_time=T0, time_step=600, duration=secs(3000), map=TideflatMap(lm, tf))
    spots = [q for q in pts[::7]]
    m.spills += Spill(release=Release(release_time=T0, custom_positions=spots, num_elements=len(spots)), amount=len(spots), units='kg')
    ins = np.array([p.contains(Point(q[:2])) for q in spots])
    for k, _ in enumerate(m):
        sc = m.spills.items()[0]
        dry = k > 0 and a <= (k - 1) * 600 <= b
        want = np.where(ins & dry, int(FLAT), int(IN))
        check(np.array_equal(sc['status_codes'], want), 'after step %d %d elements are on the flat, expected %d', k, (sc['status_codes'] == FLAT).sum(), (want == FLAT).sum())
    return dict(states=n, sig=(a, b, int(inside.sum())))


POLYS = [[(0., 0.), (2., 0.), (2., 2.), (0., 2.)], [(0., 0.), (4., 0.), (4., 4.), (3., 1.), (1., 1.), (0., 4.)], [(-.5, 1.), (3., -.5), (2., 3.5)]]


def simple_cases(tier):
    def it():
        for p in POLYS:
            for a, b in ((0, 600), (600, 1200), (300, 900), (601, 1199), (600, 600), (-100, 9000), (1800, 2400)):
                yield p, a, b
    return it


def same_run(case):
    """a map with flats that never fall dry is the map"""
    kind, unc, ask = case
    f = lambda c, k: 0
    a = build(f, kind, (-1, 0, 1, 2), unc)
    b = build(f, kind, (-1, 0, 1, 2), unc, wrap=False)
    ha, hb = [], []
    for _ in a:
        ha.append(snap(a))
    for _ in b:
        hb.append(snap(b))
    check(len(ha) == len(hb), 'steps')
    for k, (x, y) in enumerate(zip(ha, hb)):
        df = diff_snap(x, y)
        check(df is None, 'with flats that are always wet step %d differs: %s', k, df)
    tm, lm = a.map, b.map
    pts = np.array([((i + .5) * W, .3 * W, 0.) for i in range(-4, 12)])
    for q in ('on_map', 'on_land', 'in_water', 'allowable_spill_position'):
        for p in pts:
            x, y = getattr(tm, q)(tuple(p)), getattr(lm, q)(tuple(p))
            check(np.array_equal(x, y), '%s%s is %s, of the land map %s', q, tuple(p), x, y)
    check(np.array_equal(tm.map_bounds, lm.map_bounds), 'bounds')
    return dict(states=2 * len(ha), sig=(kind, unc))


def same_cases():
    for kind in ('open', 'edge', 'stays', 'refloats'):
        for unc in (False, True):
            yield kind, unc, 0


def parts(tier):
    return [Part('flats', flat_cases(tier), flat_run, rule='all 512 tables of 3 cells x 3 steps x dry or wet beyond x kind of land map x uncertainty x a late release'),
            Part('movers', mover_cases(tier), mover_run, rule='all movers x all 16 patterns of dry and wet x uncertainty'),
            Part('simple', simple_cases(tier), simple_run, rule='polygons x dry spells x times at, around and beyond x lattice of points'),
            Part('always wet', same_cases, same_run, rule='kinds of land map x uncertainty')]

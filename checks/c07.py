"""C07  oil never passes through land: every straight move over every small land raster."""
import itertools

from vp.core import Part, check, Violation
from vp.shore import *
from gnome.utilities.projections import GeoProjection, FlatEarthProjection, RectangularGridProjection
from gnome.maps.map import map_from_rectangular_grid

PROPERTY = 'C07'
LEVEL = 'model_checking'
NOTE = ('every move between pixels (including outside the raster) over every land raster of the stated size, and structured '
        'land over larger rasters and all raster resolutions, executed as one step of the real Model')
ASSUMPTIONS = ['a move that ties exactly between two pixels may touch either; a path squeezing diagonally between two land pixels is blocked']


def all_segs(w, h, margin=1, step=1):
    pts = [(x, y) for x in range(-margin, w + margin, step) for y in range(-margin, h + margin, step)]
    return [(p, q) for p in pts for q in pts]


_C = {}


def cached(key, f):
    if key not in _C:
        if len(_C) > 12:
            _C.clear()
        _C[key] = f()
    return _C[key]


def moves(S, land, mp, grid, what, frac=.5, frac2=.5):
    st, pos, lw, pos0, m = run_moves(S, land, mp, grid, frac, frac2)
    if len(st) != S.n:
        raise Violation('%s: %d of %d elements left the map although the map is the world' % (what, S.n - len(st), S.n))
    lab = components(land)
    started = lab_at(lab, S.p) != 0
    be = st == oil_status.on_land
    check(((st == oil_status.on_land) | (st == oil_status.in_water)).all(), '%s: statuses %s', what, np.unique(st))
    check(be[~started].all() and np.array_equal(grid.pixel(pos[~started]), S.p[~started]),
          '%s: an element released on land is not beached in the pixel where it was released', what)
    judge(S, land, lab, be, grid.pixel(pos), grid.pixel(lw), check, what)
    # what the map itself says about these points
    ol = m.map.on_land_points(pos)
    check((ol == be).all(), '%s: the map says on land for %s, beached are %s', what, np.where(ol)[0][:5].tolist(), np.where(be)[0][:5].tolist())
    free = ~be
    d = np.abs(pos[free, :2] - grid.lonlat(S.q, frac2)[free])
    check(d.size == 0 or d.max() < 1e-9, '%s: an element that met no land did not reach its place', what)
    return int(be.sum()), int(started.sum())


def small(case):
    w, h, bits, ratios = case
    land = np.array([(bits >> i) & 1 for i in range(w * h)], np.uint8).reshape(w, h)
    grid = Grid(w, h)
    S = cached(('s', w, h), lambda: Segs(all_segs(w, h)))
    mp = regular_map(land, grid, refloat=-1, ratios=ratios)
    b, n = moves(S, land, mp, grid, 'raster %dx%d ratios %s' % (w, h, ratios))
    return dict(states=S.n, transitions=n, sig=(w, h, bits, ratios, b))


def small_cases(w, h, ratios):
    def gen():
        for r in ratios:
            for bits in range(2 ** (w * h)):
                yield (w, h, bits, r)
    return gen


def layer_lands(n):
    """single pixels, pairs, bars and diagonal walls on a raster that spans several coarse cells"""
    for x in range(0, n):
        for y in range(0, n):
            if (x % 16 in (0, 1, 7, 14, 15)) and (y % 16 in (0, 1, 8, 15)):
                yield ('dot', x, y)
    for c in range(6, 2 * n - 6, 5):
        yield ('diag', c, 0)
        yield ('anti', c - n, 0)
    for c in range(2, n, 5):
        for a, b in ((0, n), (0, n // 2), (n // 3, n), (14, 18), (15, 17)):
            yield ('v', c, (a, b))
            yield ('h', c, (a, b))
    for r in (5, 9, 14):
        yield ('ring', r, 0)


def draw(n, spec, m=None):
    kind, a, b = spec
    land = np.zeros((n, m or n), np.uint8)
    if kind == 'dot':
        land[a, b] = 1
    elif kind in ('diag', 'anti'):
        for x in range(n):
            y = a - x if kind == 'diag' else x - a
            if 0 <= y < land.shape[1]:
                land[x, y] = 1
    elif kind == 'v':
        land[a, b[0]:b[1]] = 1
    elif kind == 'h':
        land[b[0]:b[1], a] = 1
    elif kind == 'ring':
        c = n // 2
        for x in range(-a, a + 1):
            y = a - abs(x)
            land[c + x, c + y] = land[c + x, c - y] = 1
    return land


def layers(case):
    n, spec, step = case
    land = draw(n, spec)
    grid = Grid(n, n)
    def mk():
        pts = [(x, y) for x in range(-9, n + 9, step) for y in range(-7, n + 9, step)]
        return Segs([(p, q) for p in pts for q in pts])
    S = cached(('l', n, step), mk)
    mp = regular_map(land, grid, refloat=-1)
    b, k = moves(S, land, mp, grid, 'raster %dx%d land %s' % (n, n, spec))
    return dict(states=S.n, transitions=k, sig=(n, spec, b))


def layers_cases(n, step, sub):
    return lambda: ((n, s, step) for i, s in enumerate(layer_lands(n)) if i % sub == 0)


def big(case):
    """rasters above the sizes at which the code switches to coarser layers"""
    w, h, spots, around = case
    land = np.zeros((w, h), np.uint8)
    for x, y in spots:
        land[x, y] = 1
    grid = Grid(w, h, -20., -20., 40. / w, 40. / h)
    segs = []
    for x, y in spots:
        o = [(x + dx, y + dy) for dx in around for dy in around if (dx, dy) != (0, 0)]
        segs += [(p, q) for p in o for q in o]
    S = Segs(segs)
    mp = regular_map(land, grid, refloat=-1)
    st, pos, lw, pos0, m = run_moves(S, land, mp, grid)
    be = st == oil_status.on_land
    # single pixels do not separate the water
    lab = cached(('lab', w, h, tuple(spots)), lambda: np.where(np.pad(land, 1) != 0, 0, 1))
    judge(S, land, lab, be, grid.pixel(pos), grid.pixel(lw), check, 'raster %dx%d' % (w, h))
    return dict(states=S.n, transitions=S.n, sig=(w, h, spots, int(be.sum())))


def big_cases(tier):
    def gen():
        ar = (-70, -33, -17, -3, 0, 2, 16, 40) if tier == 'quick' else (-200, -130, -70, -33, -17, -16, -3, -1, 0, 1, 2, 15, 16, 40, 129)
        for w, h in ((1030, 1000), (4096, 4000)):
            for k, spots in enumerate(itertools.product((319, 320, 351, 384), (319, 320, 352, 383, 511))):
                if tier == 'quick' and w > 2000 and k % 3:
                    continue
                yield (w, h, (spots,), ar)
            yield (w, h, ((w - 1, h - 1),), ar)
            yield (w, h, ((0, 0),), ar)
    return gen


PROJ = ['geo', 'flat', 'regular', 'rect', 'rectgrid']
FRACS = [(.5, .5), (.02, .97), (.97, .02), (.5, .02), (.25, .75)]


def make_map(kind, land, where):
    """a map over the raster with each projection; returns map and the grid it must follow"""
    w, h = land.shape
    lon0, lat0 = where
    if kind == 'regular':
        g = Grid(w, h, lon0, lat0, .013, .017)
        return regular_map(land, g, refloat=-1), g
    if kind == 'geo':
        g = Grid(w, h, lon0, lat0, .01, .01)
        pr = GeoProjection(g.bbox, (w, h))
    elif kind == 'flat':
        # same scale in metres at the central latitude
        dlat = .01
        g = Grid(w, h, lon0, lat0, .01 / np.cos(np.deg2rad(lat0 + h * dlat / 2)), dlat)
        pr = FlatEarthProjection(g.bbox, (w, h))
    elif kind == 'rect':
        g = Grid(w, h, lon0, lat0, .02, .01)
        pr = RectangularGridProjection(lon0 + .02 * np.arange(w + 1), lat0 + .01 * np.arange(h + 1))
    else:
        g = Grid(w, h, lon0, lat0, .01, .02)
        mp = map_from_rectangular_grid(land[::2, ::2] if False else land, lon0 + .01 * np.arange(w + 1), lat0 + .02 * np.arange(h + 1),
                                       refloat_halflife=-1)
        mp.map_bounds = g.world()
        return mp, g
    return RasterMap(raster=land, projection=pr, refloat_halflife=-1, map_bounds=g.world()), g


def proj(case):
    kind, where, spec, fi, fj = case
    w, h = 7, 5
    land = draw(w, spec, h)
    mp, g = make_map(kind, land, where)
    margin = 0 if kind.startswith('rect') else 1     # outside a rectangular grid there are no pixels
    S = cached(('p', margin), lambda: Segs(all_segs(w, h, margin, 1)))
    b, n = moves(S, land, mp, g, '%s projection at %s, land %s' % (kind, where, spec), FRACS[fi], FRACS[fj])
    return dict(states=S.n, transitions=n, sig=(case, b))


def proj_cases(tier):
    specs = [('dot', 3, 2), ('diag', 5, 0), ('anti', 1, 0), ('v', 4, (0, 4)), ('h', 2, (0, 5)), ('dot', 0, 0), ('dot', 6, 4)]
    fr = [(0, 0), (1, 2), (2, 1), (3, 4)] if tier == 'quick' else list(itertools.product(range(5), range(5)))
    return lambda: ((k, wh, s, i, j) for k in PROJ for wh in ((10., 20.), (-122.3, 47.6), (170., -65.)) for s in specs for i, j in fr)


def steps(case):
    """several steps, refloating between them: oil stays in the water body where it was released"""
    half, vels, spec = case
    n = 12
    land = draw(n, spec)
    if spec[0] == 'ring':
        land[0:2, :] = 1
    grid = Grid(n, n, 0., 0., .05, .05)
    lab = components(land)
    mp = regular_map(land, grid, refloat=half)
    px = np.array([(x, y) for x in range(-1, n + 1) for y in range(-1, n + 1)])
    pos = np.c_[grid.lonlat(px), np.zeros(len(px))]
    m = Model(start_time=T0, duration=secs(900 * len(vels)), time_step=secs(900), map=mp)
    m.spills += Spill(release=Release(release_time=T0, num_elements=len(px), custom_positions=pos))
    mv = TableMover(np.zeros((len(px), 2)))
    m.movers += mv
    m.step()
    body = lab_at(lab, px)
    wet = body != 0
    refl = 0
    was = m.spills.items()[0]['status_codes'] == oil_status.on_land
    check(np.array_equal(was, ~wet), 'release on land: statuses wrong')
    lastp = pos
    hist = []
    for k, (vx, vy) in enumerate(vels):
        mv.table[:] = (vx * .05, -vy * .05)
        m.step()
        sc = m.spills.items()[0]
        st, p, lw = sc['status_codes'], sc['positions'], sc['last_water_positions']
        what = 'halflife %s step %d moves %s land %s' % (half, k, vels, spec)
        check(len(st) == len(px), '%s: elements disappeared', what)
        on = st == oil_status.on_land
        pp = grid.pixel(p)
        lp = lab_at(lab, pp)
        i = wet & ~on & (lp != body)
        check(not i.any(), '%s: element from pixel %s is afloat at %s in another water body or on land', what,
              px[i][:1].tolist(), pp[i][:1].tolist())
        i = ~wet & (pp != px).any(1)
        check(not i.any(), '%s: the element released on land at %s is now at %s', what, px[i][:1].tolist(), pp[i][:1].tolist())
        i = on & (lp != 0)
        check(not i.any(), '%s: element %s is beached in the water at %s', what, px[i][:1].tolist(), pp[i][:1].tolist())
        i = wet & on & (lab_at(lab, grid.pixel(lw)) != body)
        check(not i.any(), '%s: element from %s: last water position %s not in its water body', what, px[i][:1].tolist(), grid.pixel(lw)[i][:1].tolist())
        if half < 0:
            check((on | ~was).all(), '%s: refloated although it never should', what)
            check(np.array_equal(pp[was], grid.pixel(lastp[was])), '%s: an element on land moved', what)
        if half == 0:
            check(not (on & wet).any(), '%s: stuck although it should not', what)
        refl += int((was & ~on).sum())
        was, lastp = on.copy(), p.copy()
        hist.append(int(on.sum()))
    return dict(states=len(px) * len(vels), transitions=len(px) * len(vels), sig=(case, hist, refl))


def steps_cases(tier):
    V = [(3, 0), (-2, 1), (0, -4), (1, 5), (-3, -3)]
    specs = [('ring', 4, 0), ('v', 5, (0, 12)), ('diag', 11, 0), ('dot', 6, 6), ('h', 3, (2, 9))]
    d = 3 if tier == 'quick' else 5
    return lambda: ((half, vs, sp) for half in (-1, 0, 1e-6, .25) for sp in specs for vs in itertools.product(V, repeat=d))


def parts(tier):
    q = tier == 'quick'
    P = [Part('all_3x3', small_cases(3, 3, [(1,), (2, 1)]), small, rule='every 3x3 raster x every move from/to -1..3'),
         Part('all_4x3', small_cases(4, 3, [(2, 1)] if q else [(1,), (2, 1), (3, 1), (4, 2, 1)]), small,
              rule='every 4x3 raster x every move from/to -1..w/h'),
         Part('layers', layers_cases(34, 6, 4 if q else 1), layers,
              rule='34x34 raster (default coarse layer), single pixels, walls and rings x every move on a 6-pixel lattice reaching outside'),
         Part('big', big_cases(tier), big, rule='rasters above 1e6 and 1.6e7 pixels', procs=4),
         Part('projections', proj_cases(tier), proj, rule='every projection x land x every move, sub-pixel offsets'),
         Part('steps', steps_cases(tier), steps, rule='all sequences of moves over walls and rings with refloating')]
    if not q:
        P.append(Part('all_4x4', small_cases(4, 4, [(2, 1)]), small, rule='every 4x4 raster x every move from/to -1..4'))
        P.append(Part('layers50', layers_cases(50, 7, 1), layers, rule='50x50 raster'))
    return P

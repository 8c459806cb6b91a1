"""C10  polygon geometry: exact point-in-polygon, tilings, bounding boxes, polygon sets, BNA files."""
import itertools
from fractions import Fraction

from vp.core import Part, check, Violation, scratch_dir, seqs
from vp.g import *
from checks.c08 import inside
from gnome.utilities.geometry import point_in_poly, points_in_poly, is_clockwise, is_clockwise_convex
from gnome.utilities.geometry.cy_point_in_polygon import points_in_polys
from gnome.utilities.geometry import PinP
from gnome.utilities.geometry.BBox import BBox, asBBox, fromPoints, fromBBArray, NullBBox
from gnome.utilities.geometry.polygons import Polygon, PolygonSet
from gnome.utilities.geometry import geo_routines
from gnome.utilities.file_tools import haz_files

PROPERTY = 'C10'
LEVEL = 'model_checking'
NOTE = 'all polygons on small lattices x all points of a finer lattice against exact rational arithmetic; all op sequences on polygon sets'
ASSUMPTIONS = ['a single polygon may count its boundary as in or out; two polygons that share an edge may not both own (or both disown) a point of it']


def pts_for(n):
    """points at quarter steps around the lattice, exactly representable"""
    return [(x / 4., y / 4.) for x in range(-3, 4 * n) for y in range(-3, 4 * n)]


_CACHE = {}


def exact(poly, pts):
    """even-odd rule; integer arithmetic (everything times 4)"""
    P = [(int(4 * a), int(4 * b)) for a, b in poly]
    out = []
    for x, y in pts:
        X, Y = int(4 * x), int(4 * y)
        c, edge = False, False
        for (x1, y1), (x2, y2) in zip(P, P[1:] + P[:1]):
            cr = (x2 - x1) * (Y - y1) - (y2 - y1) * (X - x1)
            if cr == 0 and min(x1, x2) <= X <= max(x1, x2) and min(y1, y2) <= Y <= max(y1, y2):
                edge = True
                break
            if (y1 > Y) != (y2 > Y):
                # X < x1 + (x2-x1)(Y-y1)/(y2-y1)
                lhs, rhs = (X - x1) * (y2 - y1), (x2 - x1) * (Y - y1)
                if (lhs < rhs) == (y2 > y1):
                    c = not c
        out.append(None if edge else c)
    return out


def pip(case):
    n, verts = case
    poly = np.array(verts, np.float64)
    pts = _CACHE.setdefault(n, pts_for(n))
    want = exact(verts, pts)
    P3 = np.array([(x, y, 7.) for x, y in pts])
    keep = P3.copy()
    ref = None
    k = len(verts)
    forms = [poly, np.ascontiguousarray(poly[::-1]), np.r_[poly, poly[:1]], np.roll(poly, 1, axis=0).copy()]
    for fi, f in enumerate(forms):
        got = points_in_poly(f, P3)
        check(len(got) == len(pts), 'points_in_poly returns %d values for %d points', len(got), len(pts))
        for i, w in enumerate(want):
            if w is not None and bool(got[i]) != w:
                raise Violation('points_in_poly: point %s, polygon %s (form %d): %s' % (pts[i], verts, fi, got[i]))
        if fi in (0, 2):        # closing the ring changes nothing, not even on the boundary
            if ref is None:
                ref = got
            check(np.array_equal(ref, got), 'repeating the first vertex changes points_in_poly for %s', verts)
    check(np.array_equal(P3, keep), 'points_in_poly changed the points')
    # the scalar, the one-to-one and the Python versions agree
    for i in range(0, len(pts), 7):
        check(bool(point_in_poly(poly, pts[i])) == bool(ref[i]), 'point_in_poly differs from points_in_poly at %s in %s', pts[i], verts)
        check(points_in_poly(poly, tuple(P3[i])) is bool(ref[i]), 'points_in_poly of one point differs at %s in %s', pts[i], verts)
    rep = np.ascontiguousarray(np.repeat(poly[None], len(pts), 0))
    got = points_in_polys(rep, np.ascontiguousarray(P3[:, :2]))
    check(np.array_equal(got, ref), 'points_in_polys differs from points_in_poly for %s', verts)
    if len(pts) < 120:
        got = PinP.points_in_poly(poly, P3[::3].copy())
        for g, w in zip(got, want[::3]):
            check(w is None or bool(g) == w, 'the Python point-in-polygon differs for %s', verts)
    area2 = sum(x1 * y2 - x2 * y1 for (x1, y1), (x2, y2) in zip(verts, verts[1:] + verts[:1]))
    if area2:
        check(is_clockwise(verts) == (area2 < 0), 'is_clockwise(%s)', verts)
        if k == 3:
            check(is_clockwise_convex(verts) == (area2 < 0), 'is_clockwise_convex(%s)', verts)
    return dict(states=len(pts), transitions=4 * len(pts), sig=(case, int(ref.sum())))


def pip_cases(n, k):
    lat = [(x, y) for x in range(n) for y in range(n)]
    return lambda: ((n, v) for v in itertools.permutations(lat, k) if v[0] == min(v))


def outline(shape, k):
    if shape == 'comb':
        out = [(0, 0)]
        for i in range(k):
            out += [(2 * i, 5 + i % 3), (2 * i + 1, 5 + i % 3), (2 * i + 1, 1), (2 * i + 2, 1)]
        return out + [(2 * k, 0)]
    if shape == 'stairs':
        return [(x, y) for i in range(k) for x, y in ((i, i), (i + 1, i))] + [(k, k)] + [(0, k)]
    if shape == 'saw':
        return [(i, (3 if i % 2 else 1) + i % 5) for i in range(k)] + [(i, -(i % 3)) for i in range(k - 1, -1, -1)]
    if shape == 'dense':        # a square with many points on its edges
        return ([(i * .25, 0) for i in range(k)] + [(k * .25, i * .25) for i in range(k)] +
                [(k * .25 - i * .25, k * .25) for i in range(k)] + [(0, k * .25 - i * .25) for i in range(k)])
    if shape == 'spiral':
        out, back = [], []
        for i in range(k):
            r = 2 * i
            out += [(r, -r), (r, r), (-r - 2, r), (-r - 2, -r - 2)]
            back += [(r + 1, -r - 1), (r + 1, r + 1), (-r - 3, r + 1), (-r - 3, -r - 3)]
        return out + back[::-1]
    raise AssertionError(shape)


def pip_large(case):
    shape, k, dx, dy, rev = case
    v = [(x + dx, y + dy) for x, y in outline(shape, k)]
    if rev:
        v = v[::-1]
    xs, ys = [x for x, _ in v], [y for _, y in v]
    stx, sty = max(1, (max(xs) - min(xs)) // 24), max(1, (max(ys) - min(ys)) // 24)
    pts = [(min(xs) - 1.75 + .25 * 4 * stx * i / 2, min(ys) - 1.75 + .25 * 4 * sty * j / 2) for i in range(54) for j in range(54)]
    pts = [(round(4 * x) / 4, round(4 * y) / 4) for x, y in pts]
    want = exact(v, pts)
    poly = np.array(v, np.float64)
    P3 = np.array([(x, y, 0.) for x, y in pts])
    for f in (poly, np.r_[poly, poly[:1]]):
        got = points_in_poly(f, P3)
        for i, w in enumerate(want):
            if w is not None and bool(got[i]) != w:
                raise Violation('points_in_poly: point %s of the %s with %d vertices: %s' % (pts[i], shape, len(v), got[i]))
    ref = points_in_poly(poly, P3)
    for i in range(0, len(pts), 13):
        check(bool(point_in_poly(poly, pts[i])) == bool(ref[i]), 'point_in_poly differs from points_in_poly at %s', pts[i])
    ps = PolygonSet()
    for i in range(30):
        ps.append(v[:3 + i] if i != 7 else v, ('k', str(i), '1'))
    check(len(ps) == 30 and np.array_equal(ps[7].points, poly), 'the polygon comes back changed from a set')
    bb = ps.bounding_box
    check(np.array_equal(np.asarray(bb), [[min(xs), min(ys)], [max(xs), max(ys)]]), 'bounding box %s', bb)
    n = len(v)
    area2 = sum(v[i][0] * v[(i + 1) % n][1] - v[(i + 1) % n][0] * v[i][1] for i in range(n))
    if shape != 'spiral' and area2:
        check(is_clockwise(v) == (area2 < 0), 'is_clockwise')
    return dict(states=len(pts), transitions=2 * len(pts), sig=(case, int(ref.sum())))


def pip_large_cases(q):
    def it():
        for shape in ('comb', 'stairs', 'saw', 'dense', 'spiral'):
            for k in (5, 17, 70, 300) if q else (5, 8, 16, 17, 33, 64, 70, 129, 300, 1100):
                if shape == 'spiral' and k > 70:
                    continue
                for dx, dy in ((0, 0), (-180, -90), (175, 60), (-100000, 3)):
                    for rev in (False, True):
                        yield shape, k, dx, dy, rev
    return it


def tiles():
    """ways to cut the square [0,3]x[0,3] into polygons"""
    for c in itertools.product((1, 2), (1, 2)):
        for corner in range(2):
            # four triangles around an inner point
            a = [(0, 0), (3, 0), (3, 3), (0, 3)]
            yield [(a[i], a[(i + 1) % 4], c) if corner == 0 else (c, a[(i + 1) % 4], a[i]) for i in range(4)]
    edge = [(i, 0) for i in range(3)] + [(3, i) for i in range(3)] + [(3 - i, 3) for i in range(3)] + [(0, 3 - i) for i in range(3)]
    n = len(edge)
    for i in range(n):
        for j in range(i + 2, n):
            if (i, j) == (0, n - 1):
                continue
            # cut by a chord from boundary point i to j (optionally through an inner point)
            for via in (None, (1, 1), (2, 1), (1, 2)):
                mid = [via] if via else []
                p1 = edge[i:j + 1] + mid[::-1]
                p2 = edge[j:] + edge[:i + 1] + mid
                yield [tuple(p1), tuple(p2)]
                yield [tuple(p1[::-1]), tuple(p2)]


def tiling(case):
    ti, polys = case
    # only real tilings (areas add up)
    def area(p):
        return abs(sum(x1 * y2 - x2 * y1 for (x1, y1), (x2, y2) in zip(p, p[1:] + p[:1])))
    if sum(area(p) for p in polys) != 18 or any(area(p) == 0 for p in polys) or not all(simple(p) for p in polys):
        return dict(trivial=True)
    pts = [(x / 4., y / 4., 0.) for x in range(1, 12) for y in range(1, 12)]
    tot = np.zeros(len(pts), int)
    for p in polys:
        tot += points_in_poly(np.array(p, float), np.array(pts)).astype(int)
    bad = np.where(tot != 1)[0]
    check(len(bad) == 0, 'point %s is in %d of the polygons %s that tile the square', pts[bad[0]] if len(bad) else None, tot[bad[0]] if len(bad) else 0, polys)
    return dict(states=len(pts), transitions=len(pts) * len(polys), sig=polys)


def simple(p):
    from shapely.geometry import Polygon as SP
    return SP(p).is_valid


def boxes(case):
    a, b = case
    A, B = BBox(a), BBox(b)
    ov = a[0][0] <= b[1][0] and b[0][0] <= a[1][0] and a[0][1] <= b[1][1] and b[0][1] <= a[1][1]
    check(A.Overlaps(B) == ov and B.Overlaps(A) == ov, 'Overlaps %s %s', a, b)
    ins = a[0][0] <= b[0][0] and b[1][0] <= a[1][0] and a[0][1] <= b[0][1] and b[1][1] <= a[1][1]
    check(A.Inside(B) == ins, 'Inside %s %s', a, b)
    for x in (-.5, 0, .5, 1, 1.5, 2, 2.5):
        for y in (-.5, 0, 1, 1.5, 2):
            pi = a[0][0] <= x <= a[1][0] and a[0][1] <= y <= a[1][1]
            check(A.PointInside((x, y)) == pi, 'PointInside %s %s', a, (x, y))
    C = BBox(a)
    C.Merge(B)
    want = ((min(a[0][0], b[0][0]), min(a[0][1], b[0][1])), (max(a[1][0], b[1][0]), max(a[1][1], b[1][1])))
    check(np.array_equal(np.asarray(C), want), 'Merge of %s and %s is %s', a, b, np.asarray(C).tolist())
    check(np.array_equal(np.asarray(A), a), 'Merge changed the other box')
    N = NullBBox()
    check(N.IsNull(), 'NullBBox not null')
    N.Merge(B)
    check(np.array_equal(np.asarray(N), b), 'null box merged with %s is %s', b, N)
    C = BBox(a)
    C.Merge(NullBBox())
    check(np.array_equal(np.asarray(C), a), 'a null box changed %s to %s', a, C)
    check((A == B) == (a == b), 'equality of %s and %s', a, b)
    check(np.array_equal(np.asarray(fromBBArray([a, b])), want), 'fromBBArray(%s,%s)', a, b)
    check((A.Left, A.Bottom, A.Right, A.Top) == (a[0][0], a[0][1], a[1][0], a[1][1]) and A.Width == a[1][0] - a[0][0] and A.Height == a[1][1] - a[0][1],
          'sides of %s', a)
    check(np.isinf(np.asarray(A)).any() or np.array_equal(A.Center, ((a[0][0] + a[1][0]) / 2., (a[0][1] + a[1][1]) / 2.)), 'centre of %s', a)
    check(np.array_equal(np.asarray(fromPoints(A.AsPoly())), a), 'AsPoly of %s', a)
    return dict(states=1, transitions=12, sig=case)


def box_cases():
    r = range(3)
    bs = [((x0, y0), (x1, y1)) for x0 in r for x1 in r for y0 in r for y1 in r if x0 <= x1 and y0 <= y1]
    inf = float('inf')
    half = [((x0, y0), (x1, y1)) for x0 in (-inf, 0., 1.) for x1 in (0., 1., inf) for y0 in (-inf, 0., 1.) for y1 in (0., 1., inf) if x0 <= x1 and y0 <= y1]
    return itertools.chain(((a, b) for a in bs for b in bs), ((a, b) for a in half for b in half))


POLYS = {'t': [(0., 0.), (1., 0.), (.5, 1.)], 'q': [(5., 5.), (6., 5.), (6., 7.), (5., 7.)], 's': [(-1., 2.)],
         'c': [(0., 0.), (.1, 0.), (.2, 0.), (3., 0.), (3., 3.), (0., 0.)]}


def pset(ops):
    """every sequence of operations on a PolygonSet against a list"""
    ps = PolygonSet()
    ref = []
    for k, op in enumerate(ops):
        what = 'after %s' % (ops[:k + 1],)
        if op in POLYS:
            ps.append(POLYS[op], ('kind', op, str(k)))
            ref.append((POLYS[op], ('kind', op, str(k))))
        elif op == 'copy':
            old, ps = ps, ps.Copy()
            old.append(POLYS['q'], ('x', 'x', 'x'))
            old.TransformData(lambda a: a * 0 + 99.)
        elif op == 'shift':
            ps.TransformData(lambda a: a + 1.)
            ref = [([(x + 1., y + 1.) for x, y in p], m) for p, m in ref]
        elif op == 'rebuild':
            new = PolygonSet()
            for p in ps:
                new.append(p)
            ps = new
        elif op == 'setdata':
            new = PolygonSet()
            new.append(POLYS['q'], ('old', 'o', '0'))
            new.SetPointsData(ps.GetPointsData(), ps.GetMetaData())
            bare = PolygonSet()
            bare.SetPointsData(ps.GetPointsData())
            check([p.points.tolist() for p in bare] == [p.points.tolist() for p in ps], '%s: points set without metadata', what)
            ps.append(POLYS['q'], ('x', 'x', 'x'))
            ps = new
        elif op == 'ctor':
            new = PolygonSet(ps.GetPointsData() + (ps.GetMetaData(),))
            check(new == ps and not (new != ps), '%s: a set built from the data of another is not equal to it', what)
            ps.append(POLYS['q'], ('x', 'x', 'x'))
            check(new != ps and not (new == ps), '%s: sets of different polygons are equal', what)
            ps = new
        check(len(ps) == len(ref) and bool(ps) == bool(ref), '%s: length %d, expected %d', what, len(ps), len(ref))
        got = list(ps)
        for i, (p, (w, m)) in enumerate(zip(got, ref)):
            check(np.array_equal(p.points, np.array(w)), '%s: polygon %d is %s, not %s', what, i, p.points.tolist(), w)
            check(tuple(p.metadata) == m, '%s: polygon %d has metadata %s, not %s', what, i, p.metadata, m)
            check(np.array_equal(ps[i - len(ref)].points, np.array(w)), '%s: negative index %d', what, i - len(ref))
            check(np.array_equal(np.asarray(p.bounding_box), (np.min(w, 0), np.max(w, 0))), '%s: bounding box of %s', what, w)
        for bad in (len(ref), len(ref) + 3, -len(ref) - 1):
            try:
                ps[bad]
            except IndexError:
                pass
            else:
                raise Violation('%s: index %d of %d accepted' % (what, bad, len(ref)))
        check(ps.total_num_points == sum(len(p) for p, m in ref), '%s: total points', what)
        if ref:
            al = np.array([x for p, m in ref for x in p])
            check(np.array_equal(np.asarray(ps.bounding_box), (al.min(0), al.max(0))), '%s: bounding box of the set', what)
        # a polygon taken out of the set is independent of it
        if got:
            got[0][:] = -77.
            check(np.array_equal(ps[0].points, np.array(ref[0][0])), '%s: changing a polygon taken from the set changes the set', what)
    return dict(states=len(ops), transitions=len(ops), sig=ops)


def pset_eq(case):
    """two sets are equal exactly if they hold the same polygons with the same metadata"""
    (a, ma), (b, mb) = case
    out = []
    for cuts, meta in ((a, ma), (b, mb)):
        ps = PolygonSet()
        for i, (x, y) in enumerate(zip((0,) + cuts, cuts + (9,))):
            ps.append(NINE[x:y], ('k', 'n', str(meta * i)))
        out.append(ps)
    x, y = out
    same = a == b and (ma == mb or len(a) == 0)
    check((x == y) == same and (x != y) == (not same) and (y == x) == same, 'sets cut at %s and %s (metadata %s, %s): == gives %s', a, b, ma, mb, x == y)
    check(not (x == list(x)) and x == x.Copy(), 'a set equals something else, or not its copy')
    for p, q in itertools.product(x, y):
        s = p.points.tolist() == q.points.tolist() and tuple(p.metadata) == tuple(q.metadata)
        check((p == q) == s and (p != q) == (not s), 'polygons %s %s and %s %s: == gives %s', p.points.tolist(), p.metadata, q.points.tolist(), q.metadata, p == q)
    return dict(transitions=1, sig=case)


NINE = [(float(i), float(i * i % 7)) for i in range(9)]


def pset_eq_cases():
    c = [((), 0), ((3,), 0), ((4,), 0), ((3,), 1), ((6,), 1), ((3, 6), 0), ((3, 6), 1), ((3, 5), 1), ((4, 6), 0)]
    return itertools.product(c, c)


def bna_rt(case):
    import os
    names, kinds, blanks, closed = case
    fn = os.path.join(scratch_dir('bna'), 'x.bna')
    data = []
    with open(fn, 'w') as fd:
        for i, (n, k) in enumerate(zip(names, kinds)):
            pts = {'polygon': [(i, 0.5), (i + 1.25, 0.5), (i + 1, -2)], 'polyline': [(i, 1), (i, 2), (i - 3, 2.5)], 'point': [(i, 8)], 'two': [(0, i), (1, i)]}[k]
            out = pts + ([pts[0]] if k == 'polygon' and closed else [])
            fd.write('\n' * blanks)
            fd.write('"%s","%d",%d\n' % (n, i, -len(out) if k == 'polyline' else len(out)))
            for x, y in out:
                fd.write('%.6f, %.6f\n' % (x, y))
            data.append((pts, 'polyline' if k == 'two' else k, n, str(i)))
    got = haz_files.ReadBNA(fn, 'list')
    check(len(got) == len(data), '%d polygons read of %d', len(got), len(data))
    ps = haz_files.ReadBNA(fn, 'PolygonSet')
    for g, p, d in zip(got, ps, data):
        check(np.array_equal(g[0], np.array(d[0], float)) and tuple(g[1:]) == d[1:], 'BNA polygon %s read as %s', d, g)
        check(np.array_equal(p.points, np.array(d[0], float)) and tuple(p.metadata) == d[1:], 'BNA polygon %s read as %r', d, p)
    # a file that ends early is refused
    with open(fn) as fd:
        txt = fd.read().rstrip('\n').split('\n')
    if len(txt) > 1:
        with open(fn, 'w') as fd:
            fd.write('\n'.join(txt[:-1]) + '\n')
        try:
            r = haz_files.ReadBNA(fn, 'list')
        except ValueError:
            pass
        else:
            raise Violation('a BNA file that misses its last vertex was read as %s' % (r,))
    return dict(states=len(data), transitions=2 * len(data), sig=case)


def bna_cases(depth):
    def gen():
        ks = ('polygon', 'polyline', 'point', 'two')
        for n in range(1, depth + 1):
            for kinds in itertools.product(ks, repeat=n):
                for blanks in (0, 1):
                    for closed in (True, False):
                        yield (tuple(['land a', 'Map Bounds', 'x,y'][:n]), kinds, blanks, closed)
    return gen


def triangles(case):
    """polygons used for area releases: the triangles cover them exactly"""
    kind, verts = case
    from shapely.geometry import Polygon as SP, MultiPolygon as MP
    from shapely.ops import unary_union
    p = SP(verts)
    if not p.is_valid or p.area == 0:
        return dict(trivial=True)
    if kind == 'multi':
        p = MP([p, SP([(x + 10, y) for x, y in verts])])
    elif kind == 'hole':
        q = SP([(x * 4 - 5, y * 4 - 5) for x, y in [(0, 0), (3, 0), (3, 3), (0, 3)]], [verts])
        if not q.is_valid:
            return dict(trivial=True)
        p = q
    tris = geo_routines.triangulate_poly(p)
    check(all(len(t.exterior.coords) == 4 for t in tris), 'not triangles')
    check(abs(sum(t.area for t in tris) - p.area) < 1e-9 * p.area, 'the triangles of %s have area %s not %s', p, sum(t.area for t in tris), p.area)
    check(unary_union(tris).symmetric_difference(p).area < 1e-9, 'the triangles do not cover %s', p)
    w = geo_routines.poly_area_weight(tris)
    check(abs(sum(w) - 1) < 1e-12 and all(abs(a - t.area / p.area) < 1e-9 for a, t in zip(w, tris)), 'weights of %s', p)
    import random
    random.seed(1)
    for t in tris[:4]:
        for _ in range(20):
            x = geo_routines.random_pt_in_tri(t)
            from shapely.geometry import Point
            check(t.distance(Point(x)) < 1e-9, 'random point %s is not in %s', x, t)
    return dict(states=len(tris), transitions=len(tris), sig=(kind, verts))


def tri_cases(k):
    lat = [(x, y) for x in range(4) for y in range(4)] if k == 3 else [(x, y) for x in range(3) for y in range(3)]
    return lambda: ((kind, v) for kind in ('one', 'multi', 'hole') for v in itertools.permutations(lat, k) if v[0] == min(v))


def parts(tier):
    q = tier == 'quick'
    P = [Part('pip3', pip_cases(4, 3), pip, rule='all triangles on a 4x4 lattice'),
         Part('pip4', pip_cases(3, 4), pip, rule='all quadrilaterals (also self-crossing) on a 3x3 lattice'),
         Part('large', pip_large_cases(q), pip_large, rule='combs, stairs, saws, spirals of up to %d vertices, shifted' % (1200 if q else 4400), chunk=2),
         Part('tilings', lambda: enumerate(tiles()), tiling, rule='chord cuts of a square: every point in exactly one piece'),
         Part('boxes', box_cases, boxes, rule='all pairs of boxes on a 3x3 lattice'),
         Part('polygonset', lambda: itertools.product(list(POLYS) + ['copy', 'shift', 'rebuild', 'setdata', 'ctor'], repeat=4 if q else 5), pset, rule='all op sequences'),
         Part('equality', pset_eq_cases, pset_eq, rule='all pairs of ways to divide nine points'),
         Part('bna', bna_cases(3), bna_rt, rule='all files of up to 3 shapes, and each with its last line lost'),
         Part('triangles', tri_cases(4), triangles, rule='all quadrilaterals on a 3x3 lattice, alone, doubled and as holes')]
    if not q:
        P += [Part('pip5', pip_cases(3, 5), pip, rule='all pentagons on a 3x3 lattice'), Part('pip4b', pip_cases(4, 4), pip, rule='all quadrilaterals on a 4x4 lattice'),
              Part('triangles5', tri_cases(5), triangles)]
    return P

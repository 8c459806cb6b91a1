"""C11  projections: pixels and coordinates convert into each other consistently, metres and degrees too."""
import itertools

from vp.core import Part, check, Violation
from vp.g import *
from gnome.utilities.projections import (GeoProjection, FlatEarthProjection, RegularGridProjection, RectangularGridProjection,
                                         NoProjection, to_2d_coords)

PROPERTY = 'C11'
LEVEL = 'model_checking'
NOTE = 'every projection x bounding box x image size x every pixel and sub-pixel position of the grid'
ASSUMPTIONS = []

KINDS = {'geo': GeoProjection, 'flat': FlatEarthProjection, 'regular': RegularGridProjection}
BOXES = [((-10., 20.), (15., 40.)), ((170., -65.), (185., -50.)), ((-122.5, 47.), (-122.4, 47.6)), ((-180., -90.), (180., 90.)), ((0., 0.), (1., 1.)),
         ((5., -1.), (5.01, 60.))]
SIZES = [(8, 8), (20, 5), (3, 17), (1, 1), (64, 48), (7, 1000)]
FR = [0.001, .25, .5, .75, .999]


def rt(case):
    kind, box, size = case
    P = KINDS[kind](box, size)
    return judge(case, P, kind, box, size)


def judge(case, P, kind, box, size):
    w, h = size
    what = '%s %s %s' % (kind, box, size)
    xs = sorted({0, 1, w // 2, w - 1, w, -1, -3, 2 * w})
    ys = sorted({0, 1, h // 2, h - 1, h, -1, -2, 2 * h})
    px = np.array([(x, y) for x in xs for y in ys], np.int32)
    keep = px.copy()
    # integer pixels mean their centre, and come back as themselves
    ll = P.to_lonlat(px)
    check(np.array_equal(px, keep), '%s: to_lonlat changed its input', what)
    back = P.to_pixel(ll, asint=True)
    check(np.array_equal(back, px), '%s: pixel %s -> %s -> %s', what, px[(back != px).any(1)][:1].tolist(), ll[(back != px).any(1)][:1].tolist(), back[(back != px).any(1)][:1].tolist())
    check(np.allclose(ll, P.to_lonlat(px + .5), rtol=0, atol=1e-12 * 360), '%s: the centre of an integer pixel is not pixel + 0.5', what)
    # every position inside a pixel is that pixel
    for fx in FR:
        for fy in FR:
            f = px + (fx, fy)
            k2 = f.copy()
            ll = P.to_lonlat(f.copy())
            c3 = np.c_[ll, np.full(len(ll), 3.)]
            c3k = c3.copy()
            got = P.to_pixel(c3, asint=True)
            check(np.array_equal(c3, c3k), '%s: to_pixel changed its input', what)
            bad = (got != px).any(1)
            check(not bad.any(), '%s: position %s is pixel %s, to_pixel says %s', what, f[bad][:1].tolist(), px[bad][:1].tolist(), got[bad][:1].tolist())
            fl = P.to_pixel(c3)
            check(np.allclose(fl, k2, rtol=0, atol=1e-7), '%s: %s -> %s', what, k2[:1].tolist(), fl[:1].tolist())
            check(got.dtype == np.int32, 'not int32')
    # 2-d, 3-d, single points and lists are equivalent
    p = c3[len(c3) // 2]
    a = P.to_pixel(p)
    for form in (tuple(p), tuple(p[:2]), [list(p)], [tuple(p[:2])], np.array([p])):
        check(np.array_equal(P.to_pixel(form), a), '%s: %r gives another pixel', what, form)
    # north is up, east is right, the box is centred and fits
    c = np.array([((box[0][0] + box[1][0]) / 2, (box[0][1] + box[1][1]) / 2)])
    check(np.allclose(P.to_pixel(c), [(w / 2., h / 2.)], atol=1e-6 * max(w, h)), '%s: the centre is at %s', what, P.to_pixel(c))
    cor = P.to_pixel([(box[0][0], box[0][1]), (box[1][0], box[1][1])])
    check(cor[0][0] < cor[1][0] and cor[0][1] > cor[1][1], '%s: corners at %s', what, cor.tolist())
    eps = 1e-6 * max(w, h)
    check(cor[0][0] >= -eps and cor[1][0] <= w + eps and cor[1][1] >= -eps and cor[0][1] <= h + eps, '%s: the box does not fit the image: %s', what, cor.tolist())
    fullx, fully = abs(cor[1][0] - cor[0][0] - w) < eps, abs(cor[0][1] - cor[1][1] - h) < eps
    if kind == 'regular':
        check(fullx and fully, '%s: the grid does not fill the image', what)
    else:
        check(fullx or fully, '%s: the box is not as large as it could be', what)
        # the scale is the same in both directions (in metres for the flat earth)
        k = np.cos(np.deg2rad(c[0][1])) if kind == 'flat' else 1.
        sx = (cor[1][0] - cor[0][0]) / ((box[1][0] - box[0][0]) * k)
        sy = (cor[0][1] - cor[1][1]) / (box[1][1] - box[0][1])
        check(abs(sx - sy) < 1e-6 * abs(sx), '%s: scales %s and %s', what, sx, sy)
        ib = np.asarray([np.asarray(v).ravel() for v in P.image_box])
        # (integer corner pixels stand for their centres, hence up to half a pixel)
        check(np.allclose(P.to_pixel(ib), [(0, h), (w, 0)], atol=.5 + 1e-6 * max(w, h)), '%s: image box %s', what, ib.tolist())
    return dict(states=len(px), transitions=len(px) * 26, sig=case)


def rescale(case):
    """set_scale on a used projection is the same as a new one"""
    kind, seq = case
    P = KINDS[kind](*seq[0])
    for box, size in seq[1:]:
        if size is None:
            size = tuple(P.image_size)
            P.set_scale(box)
        else:
            P.set_scale(box, size)
        judge(case, P, kind, box, size)
        if kind != 'regular':
            check(P == KINDS[kind](box, size) and not (P != KINDS[kind](box, size)), '%s: rescaled projection differs from a new one', case)
    return dict(states=len(seq), transitions=len(seq), sig=case)


def rescale_cases():
    opts = [(BOXES[0], SIZES[0]), (BOXES[2], SIZES[1]), (BOXES[4], None), (BOXES[1], SIZES[4])]
    for k in KINDS:
        for n in (2, 3):
            for s in itertools.product(opts, repeat=n):
                if s[0][1] is not None:
                    yield (k, s)


def rect(case):
    lon, lat = case
    lon, lat = np.array(lon), np.array(lat)
    P = RectangularGridProjection(lon, lat)
    w, h = len(lon) - 1, len(lat) - 1
    what = 'rectangular grid %s %s' % (lon.tolist(), lat.tolist())
    for i in range(w):
        for j in range(h):
            for fx in FR:
                for fy in FR:
                    x = lon[i] + fx * (lon[i + 1] - lon[i])
                    y = lat[j] + fy * (lat[j + 1] - lat[j])
                    c = np.array([(x, y, 0.)])
                    want = (i, h - 1 - j)
                    got = tuple(P.to_pixel(c, asint=True)[0].tolist())
                    check(got == want, '%s: (%s,%s) is pixel %s, to_pixel says %s', what, x, y, want, got)
                    ll = P.to_lonlat(np.array([want]))
                    check(lon[i] < ll[0][0] < lon[i + 1] and lat[j] < ll[0][1] < lat[j + 1], '%s: pixel %s centre %s', what, want, ll)
                    f = P.to_pixel(c)
                    check(np.allclose(P.to_lonlat(f), c[:, :2], atol=1e-9), '%s: %s -> %s -> %s', what, c, f, P.to_lonlat(f))
    # beyond the grid: the nearest place on it, and the input stays as it is
    out = np.array([(lon[0] - 5, lat[0] - 5, 1.), (lon[-1] + 5, lat[-1] + 5, 1.), (lon[0] - 5, lat[-1] + 5, 1.)])
    keep = out.copy()
    f = P.to_pixel(out)
    check(np.array_equal(out, keep), '%s: to_pixel changed its input', what)
    check(np.allclose(f, [(0, h), (w, 0), (0, 0)]), '%s: outside points are at %s', what, f.tolist())
    return dict(states=w * h, transitions=w * h * 25, sig=case)


def rect_cases():
    axes = [(0., 1., 2.), (0., .1, .5, 2.), (-5., -4.9, -1., 0., .001), (170., 181.), (10., 10.5, 11.5, 11.6, 15., 15.5)]
    return itertools.product(axes, axes)


def metres(case):
    lat, dx, dy, dz, shape = case
    C = 8.9992801e-06
    m = [(dx, dy, dz)] * 3
    ref = [(10., lat, 0.)] * 3
    if shape == 'one':
        m, ref = m[0], ref[0]
    elif shape == 'broadcast':
        ref = ref[:1]
    elif shape == 'array':
        m, ref = np.array(m), np.array(ref)
    mk = np.array(m, copy=True)
    d = FlatEarthProjection.meters_to_lonlat(m, ref)
    check(np.array_equal(mk, np.array(m)), 'meters_to_lonlat changed its input')
    want = (dx * C / np.cos(np.deg2rad(lat)), dy * C, dz)
    check(np.allclose(d, want, rtol=1e-12, atol=1e-15), 'meters_to_lonlat(%s) at %s: %s, expected %s', m, lat, d, want)
    dk = d.copy()
    b = FlatEarthProjection.lonlat_to_meters(d, ref)
    check(np.array_equal(d, dk), 'lonlat_to_meters changed its input')
    check(np.allclose(b, (dx, dy, dz), rtol=1e-12, atol=1e-9), '%s m -> degrees -> %s m at latitude %s', (dx, dy, dz), b, lat)
    # the sphere agrees for short distances
    dist = np.hypot(dx, dy)
    if 0 < dist < 2e4 and abs(lat) < 80:
        lon2, lat2 = FlatEarthProjection.geodesic_sphere(10., lat, dist, np.rad2deg(np.arctan2(dx, dy)))
        e = np.hypot((lon2 - 10.) - want[0], (lat2 - lat) - want[1]) / np.hypot(want[0], want[1])
        check(e < .02, 'geodesic_sphere at %s: %s vs %s', lat, (lon2 - 10., lat2 - lat), want)
    return dict(sig=case)


def metre_cases():
    return itertools.product((-89.9, -87., -85., -60., -30., 0., 12.5, 45., 60., 80., 86.5, 89.99), (-1e6, -10., 0., 1., 1234.5), (-5e5, 0., .5, 9999.), (0., -3., 2.), ('one', 'list', 'broadcast', 'array'))


def parts(tier):
    return [Part('roundtrip', lambda: itertools.product(KINDS, BOXES, SIZES), rt, rule='every pixel class and 25 sub-pixel positions'),
            Part('rescale', rescale_cases, rescale, rule='all sequences of up to 3 scales'),
            Part('rectangular', rect_cases, rect, rule='irregular axes, every cell'),
            Part('metres', metre_cases, metres, rule='latitudes x displacements x shapes')]

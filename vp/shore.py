"""Shoreline geometry: an independent reference for straight moves over a land/water raster.

Pixels outside the raster are water.  ``must`` pixels of a move are those nearest to the ideal line between the two
pixel centres (a tie between two pixels at the same distance is in neither set); every rasterised line contains them."""
from collections import deque
from fractions import Fraction

import numpy as np

from vp.g import *
from gnome.movers import Mover
from gnome.maps.map import RasterMap
from gnome.spills.release import Release
from gnome.spills.spill import Spill
from gnome.utilities.projections import RegularGridProjection


class TableMover(Mover):
    """moves every element in the water by its own displacement (lon, lat), chosen by the check"""

    def __init__(self, table, **kw):
        super(TableMover, self).__init__(**kw)
        self.table = table

    def get_move(self, sc, time_step, model_time):
        d = np.zeros_like(sc['positions'])
        w = sc['status_codes'] == oil_status.in_water
        d[w, :2] = self.table[sc['id'][w]]
        return d


def must_line(p, q):
    """[(pixel, index along the move)] in order; pixels that every rasterisation of p->q has"""
    dx, dy = q[0] - p[0], q[1] - p[1]
    n = max(abs(dx), abs(dy))
    if n == 0:
        return [(p, 0)]
    out = []
    for k in range(n + 1):
        if abs(dx) >= abs(dy):
            maj = p[0] + (k if dx > 0 else -k)
            mi = Fraction(dy * k, n) + p[1]
            f = mi.numerator // mi.denominator
            r = mi - f
            if r != Fraction(1, 2):
                out.append(((maj, f if r < Fraction(1, 2) else f + 1), k))
        else:
            maj = p[1] + (k if dy > 0 else -k)
            mi = Fraction(dx * k, n) + p[0]
            f = mi.numerator // mi.denominator
            r = mi - f
            if r != Fraction(1, 2):
                out.append(((f if r < Fraction(1, 2) else f + 1, maj), k))
    return out


def components(land):
    """4-connected components of the water, the outside (a frame of one pixel) being water.  Returns an array
    for pixels -1..w, -1..h (shifted by one); 0 is land"""
    w, h = land.shape
    a = np.zeros((w + 2, h + 2), int)
    a[1:-1, 1:-1] = land
    lab = np.where(a != 0, 0, -1)
    n = 0
    for i in range(w + 2):
        for j in range(h + 2):
            if lab[i, j] == -1:
                n += 1
                lab[i, j] = n
                dq = deque([(i, j)])
                while dq:
                    x, y = dq.popleft()
                    for u, v in ((x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)):
                        if 0 <= u < w + 2 and 0 <= v < h + 2 and lab[u, v] == -1:
                            lab[u, v] = n
                            dq.append((u, v))
    return lab


def lab_at(lab, px):
    """component of the pixels (n,2); far outside is like the frame"""
    x = np.clip(px[:, 0] + 1, 0, lab.shape[0] - 1)
    y = np.clip(px[:, 1] + 1, 0, lab.shape[1] - 1)
    return lab[x, y]


class Grid(object):
    """lon/lat <-> pixels of our own (row 0 at the top), for a raster of w x h pixels over a bounding box"""

    def __init__(self, w, h, lon0=0., lat0=0., dlon=1., dlat=1.):
        self.w, self.h, self.lon0, self.lat0, self.dlon, self.dlat = w, h, lon0, lat0, dlon, dlat

    @property
    def bbox(self):
        return ((self.lon0, self.lat0), (self.lon0 + self.w * self.dlon, self.lat0 + self.h * self.dlat))

    def lonlat(self, px, frac=.5):
        px = np.asarray(px, float)
        fx, fy = (frac, frac) if np.isscalar(frac) else frac
        return np.c_[self.lon0 + (px[:, 0] + fx) * self.dlon, self.lat0 + (self.h - (px[:, 1] + fy)) * self.dlat]

    def pixel(self, pos):
        return np.c_[np.floor((pos[:, 0] - self.lon0) / self.dlon),
                     np.floor(self.h - (pos[:, 1] - self.lat0) / self.dlat)].astype(int)

    def world(self):
        return ((-179., -89.), (179., -89.), (179., 89.), (-179., 89.))


class Segs(object):
    """a fixed list of moves (pixel p -> pixel q) with everything about them that does not depend on the land"""

    def __init__(self, segs):
        self.p = np.array([s[0] for s in segs], int)
        self.q = np.array([s[1] for s in segs], int)
        self.n = len(segs)
        d = self.q - self.p
        self.d = d
        self.xmaj = np.abs(d[:, 0]) >= np.abs(d[:, 1])
        self.len = np.abs(d).max(1)
        pix, seg, idx = [], [], []
        for i, (p, q) in enumerate(segs):
            for px, k in must_line(tuple(p), tuple(q)):
                pix.append(px)
                seg.append(i)
                idx.append(k)
        self.pix, self.seg, self.idx = np.array(pix, int), np.array(seg, int), np.array(idx, int)

    def first_must(self, land):
        """index along each move of the first must pixel that is land (large: none)"""
        w, h = land.shape
        x, y = self.pix[:, 0], self.pix[:, 1]
        inn = (x >= 0) & (y >= 0) & (x < w) & (y < h)
        hit = np.zeros(len(x), bool)
        hit[inn] = land[x[inn], y[inn]] != 0
        out = np.full(self.n, 10 ** 9)
        np.minimum.at(out, self.seg[hit], self.idx[hit])
        return out


def judge(S, land, lab, beached, end_px, water_px, check, what=''):
    """compares the outcome of the moves S on ``land`` with the reference.  Moves that start on land are ignored."""
    w, h = land.shape
    start_ok = lab_at(lab, S.p) != 0
    first = S.first_must(land)

    def bad(mask, msg):
        mask = mask & start_ok
        if mask.any():
            i = np.where(mask)[0][0]
            check(False, '%s: %s: move %s -> %s, beached %s, at pixel %s, last water %s; land %s'
                  % (what, msg, S.p[i].tolist(), S.q[i].tolist(), bool(beached[i]), end_px[i].tolist(),
                     water_px[i].tolist(), np.argwhere(land)[:40].tolist()))
    free = ~beached
    bad(free & (first < 10 ** 9), 'went through a land pixel that lies on its way')
    bad(free & (end_px != S.q).any(1), 'was not stopped by land but is not where it was moved to')
    bad(free & (lab_at(lab, S.p) != lab_at(lab, end_px)), 'crossed a closed barrier of land')
    le = lab_at(lab, end_px)
    lw = lab_at(lab, water_px)
    bad(beached & (le != 0), 'is beached in the water')
    bad(beached & (lw == 0), 'has its last water position on land')
    bad(beached & (lw != lab_at(lab, S.p)), 'has its last water position in another water body')
    bad(beached & (np.abs(end_px - water_px).max(1) > 1), 'has its last water position away from where it beached')
    # on the way: distance from the ideal line, and not beyond the first land
    with np.errstate(all='ignore'):
        d = np.where(S.len == 0, 1, S.len)
        k = np.where(S.xmaj, np.abs(end_px[:, 0] - S.p[:, 0]), np.abs(end_px[:, 1] - S.p[:, 1]))
        ideal = np.where(S.xmaj, S.p[:, 1] + S.d[:, 1] * k / d, S.p[:, 0] + S.d[:, 0] * k / d)
        off = np.abs(np.where(S.xmaj, end_px[:, 1], end_px[:, 0]) - ideal)
    bad(beached & (k > S.len), 'is beached beyond the end of the move')
    bad(beached & (off > 1.5), 'is beached away from the straight line of its move')
    bad(beached & (first < k), 'is beached beyond the first land on its way')


def run_moves(S, land, mp, grid, frac=.5, frac2=.5):
    """one step of a real Model with one element per move; returns beached, end pixels, last-water pixels, model"""
    a = grid.lonlat(S.p, frac)
    b = grid.lonlat(S.q, frac2)
    m = Model(start_time=T0, duration=secs(3600), time_step=secs(900), map=mp)
    pos = np.c_[a, np.zeros(S.n)]
    m.spills += Spill(release=Release(release_time=T0, num_elements=S.n, custom_positions=pos))
    m.movers += TableMover(b - a)
    m.step()
    m.step()
    sc = m.spills.items()[0]
    st = sc['status_codes']
    return st, sc['positions'].copy(), sc['last_water_positions'].copy(), pos, m


def regular_map(land, grid, refloat=1., bounds=None, ratios=None):
    mp = RasterMap(raster=land, refloat_halflife=refloat,
                   projection=RegularGridProjection(grid.bbox, image_size=land.shape),
                   map_bounds=bounds or grid.world())
    if ratios is not None:
        mp.ratios = np.array(ratios, np.int32)
    return mp

"""Velocity fields written to files in the formats GNOME reads, with what the file says kept beside it."""
import math
import os

import netCDF4
import numpy as np

from vp.g import T0

DEG = 8.9992801e-06
LAT = np.array([0., .1, .2, .3])
LON = np.array([10., 10.1, 10.2, 10.3, 10.4])
UNIT = {'m/s': 1., 'cm/s': .01, 'knots': 1852. / 3600.}
FILL = -9.0e9


def tunits(unit, origin=T0):
    return '%s since %s' % (unit, origin.strftime('%Y-%m-%d %H:%M:%S'))


TSCALE = {'hours': 3600., 'minutes': 60., 'seconds': 1., 'days': 86400.}


def _open(path, grid, times, tunit):
    d = netCDF4.Dataset(path, 'w', format='NETCDF3_CLASSIC')
    d.grid_type = grid
    d.createDimension('time', None)
    x = d.createVariable('time', 'f8', ('time',))
    x.units = tunits(tunit)
    x[:] = np.asarray(times) / TSCALE[tunit]
    return d


class Grid:
    """one kind of grid; record k (any number) of the field is given by value(k) -> array over the points that carry data"""
    winds = False
    lat0 = 0.      # the grid lies this far north
    lon0 = 10.     # ... and its file starts at this longitude

    def moved(self, lat0=None, lon0=None):
        import copy
        g = copy.copy(self)
        if lat0 is not None:
            g.lat0 = lat0
        if lon0 is not None:
            g.lon0 = lon0
        return g

    @property
    def dlon(self):
        """what to add to a longitude of the grid at 10 E to have one where this grid is (-180 to 180)"""
        return (self.lon0 if self.lon0 <= 180 else self.lon0 - 360) - 10.

    def places(self):
        return [(x + self.dlon, y + self.lat0) for x, y in self.places0()]

    def at(self, k, lon, lat, **kw):
        return self.at0(k, lon - self.dlon, lat - self.lat0, **kw)

    def write(self, path, times, recs, units='m/s', tunit='hours'):
        raise NotImplementedError


class Regular(Grid):
    """velocities at the nodes of a regular grid, each standing for the cell around it"""
    name = 'regular'

    def __init__(self, winds=False):
        self.winds = winds

    def value(self, k):
        j, i = np.meshgrid(np.arange(len(LAT)), np.arange(len(LON)), indexing='ij')
        return np.stack([.05 + .01 * j + .03 * i + .2 * k * (1 + .1 * i), -.3 + .02 * i + .05 * j * k - .11 * (k % 3)], -1)

    def write(self, path, times, recs, units='m/s', tunit='hours', holes=()):
        d = _open(path, 'REGULAR', times, tunit)
        d.createDimension('lat', len(LAT))
        d.createDimension('lon', len(LON))
        d.createVariable('lat', 'f8', ('lat',))[:] = LAT + self.lat0
        d.createVariable('lon', 'f8', ('lon',))[:] = LON - 10 + self.lon0
        a = np.array([self.value(k) for k in recs]) / UNIT[units]
        for j, i in holes:
            a[:, j, i] = FILL
        for c, n in enumerate(('air_u', 'air_v') if self.winds else ('water_u', 'water_v')):
            x = d.createVariable(n, 'f4', ('time', 'lat', 'lon'), fill_value=FILL)
            x.units = units
            x[:] = a[..., c]
        d.close()

    def places0(self):
        return [(10.02, .01), (10.13, .07), (10.27, .21), (10.38, .29), (9.97, -.03), (10.43, .33), (9.9, .1), (10.2, .4)]

    def at0(self, k, lon, lat, holes=()):
        i = int(math.floor((lon - LON[0]) / .1 + .5))
        j = int(math.floor((lat - LAT[0]) / .1 + .5))
        if not (0 <= i < len(LON) and 0 <= j < len(LAT)) or (j, i) in holes:
            return np.zeros(2)
        return self.value(k)[j, i]

    def shown(self, m):
        """the places of the values the mover shows, in its order"""
        return [(LON[i] + self.dlon, LAT[j] + self.lat0) for j in range(len(LAT)) for i in range(len(LON))]


class Curvilinear(Grid):
    """velocities that are the same all over the grid"""
    name = 'curvilinear'

    def __init__(self, winds=False):
        self.winds = winds

    def value(self, k):
        return np.array([.05 + .2 * k, -.3 + .13 * (k % 3)])

    def write(self, path, times, recs, units='m/s', tunit='hours'):
        d = _open(path, 'CURVILINEAR', times, tunit)
        d.createDimension('y', len(LAT))
        d.createDimension('x', len(LON))
        la, lo = np.meshgrid(LAT, LON, indexing='ij')
        d.createVariable('lat', 'f4', ('y', 'x'))[:] = la + .02 * (lo - 10) + self.lat0
        d.createVariable('lon', 'f4', ('y', 'x'))[:] = lo + .03 * la - 10 + self.lon0
        a = np.array([self.value(k) for k in recs]) / UNIT[units]
        for c, n in enumerate(('air_u', 'air_v') if self.winds else ('u', 'v')):
            x = d.createVariable(n, 'f4', ('time', 'y', 'x'), fill_value=FILL)
            x.units = units
            x[:] = a[:, c][:, None, None]
        d.close()

    def places0(self):
        return [(10.05, .05), (10.17, .08), (10.27, .21), (10.36, .26), (10.9, .1), (10.2, .6)]

    def at0(self, k, lon, lat):
        y = (lat - .02 * (lon - 10)) / (1 - .0006)
        x = lon - 10 - .03 * y
        return self.value(k) if 0 <= x <= .4 and 0 <= y <= .3 else np.zeros(2)

    def shown(self, m):
        return [(float(p[0]), float(p[1])) for p in m.get_center_points()]


NODES = np.array([(10., 0.), (10.2, 0.), (10.2, .2), (10., .2), (10.1, .1)])
TRI = np.array([[0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]])
NBE = np.array([[2, 4, 0], [3, 1, 0], [4, 2, 0], [1, 3, 0]])
BND = np.array([[1, 2, 0, 1], [2, 3, 0, 1], [3, 4, 0, 1], [4, 1, 0, 1]])


class Triangular(Grid):
    """velocities at the nodes (linear in each triangle) or one for each triangle"""

    def __init__(self, on='node'):
        self.on = on
        self.name = 'triangular-' + on

    def value(self, k):
        if self.on == 'node':
            x, y = NODES[:, 0] - 10, NODES[:, 1]
            return np.stack([.1 + .2 * k + .8 * x - .5 * y, -.3 + .4 * y * (1 + k) + .13 * (k % 3)], -1)
        i = np.arange(4)
        return np.stack([.1 + .2 * k + .07 * i, -.3 + .05 * i * i + .13 * (k % 3)], -1)

    def write(self, path, times, recs, units='m/s', tunit='hours'):
        d = _open(path, 'TRIANGULAR', times, tunit)
        d.createDimension('node', len(NODES))
        d.createDimension('nele', len(TRI))
        d.createDimension('three', 3)
        d.createDimension('nbnd', len(BND))
        d.createDimension('nbi', 4)
        d.createVariable('lat', 'f4', ('node',))[:] = NODES[:, 1] + self.lat0
        d.createVariable('lon', 'f4', ('node',))[:] = NODES[:, 0] - 10 + self.lon0
        d.createVariable('bnd', 'i4', ('nbnd', 'nbi'))[:] = BND
        d.createVariable('nv', 'i4', ('three', 'nele'))[:] = TRI.T + 1
        x = d.createVariable('nbe', 'i4', ('three', 'nele'))
        x.order = 'ccw'
        x[:] = NBE.T
        a = np.array([self.value(k) for k in recs]) / UNIT[units]
        for c, n in enumerate('uv'):
            x = d.createVariable(n, 'f4', ('time', self.on), fill_value=FILL)
            x.units = units
            x[:] = a[..., c]
        d.close()

    def places0(self):
        return [(10.1, .04), (10.16, .11), (10.09, .17), (10.03, .1), (10.06, .05), (10.5, .1)]

    def triangle(self, lon, lat):
        x, y = lon - 10.1, lat - .1
        if abs(x) > .1 or abs(y) > .1:
            return None
        if abs(x) > abs(y):
            return 1 if x > 0 else 3
        return 2 if y > 0 else 0

    def at0(self, k, lon, lat):
        t = self.triangle(lon, lat)
        if t is None:
            return np.zeros(2)
        v = self.value(k)
        if self.on == 'nele':
            return v[t]
        a, b, c = NODES[TRI[t]]
        m = np.array([b - a, c - a]).T
        s, r = np.linalg.solve(m, np.array([lon, lat]) - a)
        i, j, l = TRI[t]
        return v[i] * (1 - s - r) + v[j] * s + v[l] * r

    def shown(self, m):
        p = m.get_center_points()
        return [(float(q[0]), float(q[1])) for q in p]


def write_list(path, files):
    with open(path, 'w') as f:
        f.write('NetCDF Files\n')
        for x in files:
            f.write('[FILE] %s\n' % x)


def value_at(grid, times, s, lon, lat, extrapolate, offset=0., holes=None):
    """what the data say at s seconds after T0: linear between the two records around s; None where they say nothing"""
    kw = {} if holes is None else {'holes': holes}
    t = [x + offset for x in times]
    if len(t) == 1:
        return grid.at(0, lon, lat, **kw)
    if s < t[0] or s > t[-1]:
        if not extrapolate:
            return None
        return grid.at(0 if s < t[0] else len(t) - 1, lon, lat, **kw)
    for k in range(len(t) - 1):
        if t[k] <= s <= t[k + 1]:
            f = (s - t[k]) / (t[k + 1] - t[k])
            return (1 - f) * grid.at(k, lon, lat, **kw) + f * grid.at(k + 1, lon, lat, **kw)

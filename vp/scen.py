"""Model configurations (scenarios) shared by several checks.  Each scenario
builds a complete model from a small dict of settings, and knows operations
which change a setting on a live model."""
import numpy as np

from vp.g import *
from gnome.maps.map import RasterMap, GnomeMap
from gnome.environment import Water, Waves
from gnome.environment.wind import Wind
from gnome.utilities.projections import RegularGridProjection
from gnome.spills.release import PolygonRelease, PointLineRelease, Release
from gnome.spills.spill import Spill
from gnome.spills.gnome_oil import GnomeOil
from gnome.weatherers import (Evaporation, NaturalDispersion, Emulsification,
                              Skimmer, Burn, ChemicalDispersion, FayGravityViscous,
                              HalfLifeWeatherer)


class Scen(object):
    name = None
    default = {}
    ops = []

    def build(self, cfg):
        raise NotImplementedError

    def apply(self, op, m, cfg, k):
        """performs op on the live model, updates cfg; returns the new step"""
        raise NotImplementedError


class Transport(Scen):
    """two spills (one continuous), wind with windage, diffusion, constant current"""
    name = 'transport'
    default = dict(dt=900, dt1=900, dt2=1200, dur=3600, unc=False, nmov=1, on2=True, ne=4, cur=True)
    ops = ['mover', 'rmmover', 'spill2', 'ne', 'curoff', 'pause']

    def build(self, cfg):
        m = Model(start_time=T0, duration=secs(cfg['dur']), time_step=secs(cfg['dt']),
                  uncertain=cfg['unc'])
        m.spills += gs.point_line_spill(num_elements=cfg['ne'], start_position=(0., 0., 0.),
                                        end_position=(.1, .2, 0.), release_time=T0,
                                        end_release_time=T0 + secs(2400), amount=10, units='kg')
        m.spills += gs.point_line_spill(num_elements=3, start_position=(1., 0., 0.), release_time=T0,
                                        on=cfg['on2'], amount=6, units='kg')
        m.movers += PointWindMover(constant_wind(5, 300, 'm/s'))
        m.movers += RandomMover(diffusion_coef=50000)
        m.movers += SimpleMover((.4, -.3, 0.), on=cfg['cur'])
        for i in range(cfg['nmov'] - 1):
            m.movers += SimpleMover((.1, .1 * (i + 1), 0.))
        return m

    def apply(self, op, m, cfg, k):
        if op == 'mover':
            if cfg['nmov'] < 3:
                m.movers += SimpleMover((.1, .1 * cfg['nmov'], 0.))
                cfg['nmov'] += 1
                return -1
        elif op == 'rmmover':
            if cfg['nmov'] > 1:
                del m.movers[-1]
                cfg['nmov'] -= 1
                return -1
        elif op == 'spill2':
            cfg['on2'] = not cfg['on2']
            m.spills[1].on = cfg['on2']
            m.rewind()
            return -1
        elif op == 'pause':
            if cfg['unc']:
                return k
            # switched off while the model is rewound, and on again
            for sp in (m.spills[0], m.spills[1]):
                was = sp.on
                sp.on = False
                m.rewind()
                sp.on = was
            return -1
        elif op == 'ne':
            cfg['ne'] = 9 - cfg['ne']
            m.spills[0].num_elements = cfg['ne']
            m.rewind()
            return -1
        elif op == 'curoff':
            cfg['cur'] = not cfg['cur']
            m.movers[2].on = cfg['cur']
            m.rewind()
            return -1
        return k


class Ways(Scen):
    """runs of days in either direction, from different starts, with releases on the way"""
    name = 'ways'
    default = dict(dt=43200, dt1=43200, dt2=36000, dur=216000, unc=False, back=False, start=0, ne=3)
    ops = ['back', 'start', 'ne']

    def build(self, cfg):
        s = -1 if cfg['back'] else 1
        m = Model(start_time=T0 + secs(cfg['start']), duration=s * secs(cfg['dur']), time_step=s * secs(cfg['dt']),
                  uncertain=cfg['unc'], run_backwards=cfg['back'])
        self.spills(m, cfg)
        wind = Wind(timeseries=[(T0 + secs(d * 86400), (5. + (d % 3), 40. * (d + 6) % 360)) for d in range(-6, 7)], units='m/s', coord_sys='r-theta', extrapolation_is_allowed=True)
        m.movers += PointWindMover(wind)
        m.movers += RandomMover(diffusion_coef=50000)
        m.movers += SimpleMover((.1, -.2, 0.))
        return m

    def spills(self, m, cfg):
        s = -1 if cfg['back'] else 1
        for i, off in enumerate((0, 1.25, 2.5)):
            m.spills += gs.point_line_spill(num_elements=cfg['ne'] + i, start_position=(i, 0., 0.), end_position=(i + .1, .2, 0.),
                                            release_time=T0 + secs(cfg['start']) + s * secs(off * 43200), amount=10, units='kg')

    def replace(self, m, cfg):
        s = -1 if cfg['back'] else 1
        for i, off in enumerate((0, 1.25, 2.5)):
            sp = m.spills[i]
            sp.end_release_time = None
            sp.release_time = T0 + secs(cfg['start']) + s * secs(off * 43200)
        m.rewind()

    def apply(self, op, m, cfg, k):
        if op == 'back':
            cfg['back'] = not cfg['back']
            m.run_backwards = cfg['back']
            self.replace(m, cfg)
        elif op == 'start':
            cfg['start'] = 43200 - cfg['start']
            m.start_time = T0 + secs(cfg['start'])
            self.replace(m, cfg)
        else:
            cfg['ne'] = 7 - cfg['ne']
            for i in range(3):
                m.spills[i].num_elements = cfg['ne'] + i
            m.rewind()
        return -1


def raster(land, refloat=1., res=None, bounds=None, seed=1):
    """a raster map over lon/lat 0..w x 0..h with land cells [(col,row)], one
    degree/100 per pixel; row 0 at the top"""
    return land


def band_map(refloat_halflife=1.):
    """water with a strip of land at its right"""
    arr = np.zeros((20, 20), dtype=np.uint8)
    arr[12:15, :] = 1
    b = ((0., 0.), (1., 1.))
    return RasterMap(refloat_halflife=refloat_halflife, raster=arr, projection=RegularGridProjection(b, (20, 20)),
                     map_bounds=((0., 0.), (1., 0.), (1., 1.), (0., 1.)))


class Land(Scen):
    """beaching, refloating and leaving the map"""
    name = 'land'
    default = dict(dt=900, dt1=900, dt2=1800, dur=4500, unc=False, half=0.2, toward='land')
    ops = ['turn', 'half']

    def build(self, cfg):
        m = Model(start_time=T0, duration=secs(cfg['dur']), time_step=secs(cfg['dt']),
                  uncertain=cfg['unc'], map=band_map(cfg['half']))
        m.spills += gs.point_line_spill(num_elements=6, start_position=(.45, .2, 0.), end_position=(.05, .8, 0),
                                        release_time=T0, end_release_time=T0 + secs(900))
        m.movers += RandomMover(diffusion_coef=30000000)
        v = 3. if cfg['toward'] == 'land' else -12.
        m.movers += SimpleMover((v, 0., 0.))
        return m

    def apply(self, op, m, cfg, k):
        if op == 'turn':
            cfg['toward'] = 'sea' if cfg['toward'] == 'land' else 'land'
            v = 3. if cfg['toward'] == 'land' else -12.
            m.movers[1] = SimpleMover((v, 0., 0.))
            return -1
        if op == 'half':
            cfg['half'] = 0.7 - cfg['half']
            m.map = band_map(cfg['half'])
            return -1
        return k


class Poly(Scen):
    """random placement in polygons, with thickness, continuous"""
    name = 'polygon'
    default = dict(dt=900, dt1=900, dt2=1800, dur=3600, unc=False, ne=5)
    ops = ['ne']

    def build(self, cfg):
        from shapely.geometry import Polygon
        m = Model(start_time=T0, duration=secs(cfg['dur']), time_step=secs(cfg['dt']),
                  uncertain=cfg['unc'])
        rel = PolygonRelease(polygons=[Polygon([(0, 0), (1, 0), (1, 1), (0, 1)]),
                                       Polygon([(2, 0), (3, 0), (2.5, 2)])],
                             thicknesses=[1., 2.], num_elements=cfg['ne'], release_time=T0,
                             end_release_time=T0 + secs(2000))
        m.spills += Spill(release=rel, amount=5, units='kg')
        rel2 = Release(release_time=T0, num_elements=4, custom_positions=[(5., 5., 0.), (6., 6., 0.), (7., 7., 0.)])
        m.spills += Spill(release=rel2, amount=1, units='kg')
        m.movers += RandomMover(diffusion_coef=1000)
        return m

    def apply(self, op, m, cfg, k):
        cfg['ne'] = 12 - cfg['ne']
        m.spills[0].num_elements = cfg['ne']
        m.rewind()
        return -1


_OIL = {}


def oil():
    """a fresh oil object (substances must not be shared between models)"""
    return GnomeOil('oil_ans_mp')


class Weather(Scen):
    """a weathering spill with every standard process and the clean-up options"""
    name = 'weather'
    default = dict(dt=900, dt1=900, dt2=1800, dur=3600, unc=False, evap=True, skim=True)
    ops = ['evap', 'skim']

    def build(self, cfg):
        m = Model(start_time=T0, duration=secs(cfg['dur']), time_step=secs(cfg['dt']),
                  uncertain=cfg['unc'])
        wind = constant_wind(8, 270, 'm/s')
        water = Water(288.)
        waves = Waves(wind, water)
        m.environment += [wind, water, waves]
        m.spills += gs.point_line_spill(num_elements=4, start_position=(0., 0., 0.), release_time=T0,
                                        end_release_time=T0 + secs(1500),
                                        substance=oil(), amount=100, units='bbl')
        m.movers += PointWindMover(wind)
        m.weatherers += Evaporation(water=water, wind=wind, on=cfg['evap'])
        m.weatherers += NaturalDispersion(waves=waves, water=water)
        m.weatherers += Emulsification(waves=waves)
        m.weatherers += Skimmer(amount=10, units='bbl', efficiency=.5,
                                active_range=(T0 + secs(900), T0 + secs(2700)), water=water,
                                on=cfg['skim'])
        return m

    def apply(self, op, m, cfg, k):
        cls = {'evap': Evaporation, 'skim': Skimmer}[op]
        cfg[op] = not cfg[op]
        for w in m.weatherers:
            if isinstance(w, cls):
                w.on = cfg[op]
        m.rewind()
        return -1


SCENARIOS = {s.name: s for s in (Transport(), Land(), Poly(), Weather(), Ways())}

"""More model configurations for the check of history independence: fields with uncertainty that is drawn anew during
the run, oil under water, the clean-up operations, runs in both directions.  Every operation switches one setting
between two values on the live model."""
import os

from vp.core import scratch_dir
from vp.scen import *
from vp import gridfiles as gf
from gnome.environment import Tide, RunningAverage
from gnome.movers import CatsMover, RiseVelocityMover, RandomMover3D, c_GridCurrentMover
from gnome.movers.py_current_movers import CurrentMover
from gnome.movers.py_wind_movers import WindMover
from gnome.spills.release import SubsurfaceRelease, GridRelease
from gnome.utilities.distributions import UniformDistribution, NormalDistribution, WeibullDistribution
from gnome.weatherers import Beaching, Langmuir
from gnome.basic_types import datetime_value_2d


class Toggle(Scen):
    tog = {}       # operation: (two values, setter(model, value))

    @property
    def ops(self):
        return list(self.tog)

    def __init__(self):
        self.default = dict(self.base)
        for k, (vals, _) in self.tog.items():
            self.default[k] = 0

    def val(self, cfg, k):
        return self.tog[k][0][cfg[k]]

    def apply(self, op, m, cfg, k):
        cfg[op] = 1 - cfg[op]
        self.tog[op][1](m, self.val(cfg, op))
        m.rewind()
        return -1


def wind_series(rows):
    a = np.zeros(len(rows), dtype=datetime_value_2d)
    for i, (s, v) in enumerate(rows):
        a[i] = (T0 + secs(s), v)
    return a


SER = [[(-9000, (4., 100.)), (0, (9., 200.)), (1800, (5., 300.)), (9000, (8., 60.))],
       [(-9000, (3., 10.)), (900, (12., 80.)), (9000, (1., 250.))]]


def _find(m, cls, i=0):
    return [x for x in m.movers if type(x) is cls][i]


def _set_series(m, rows):
    for e in m.environment:
        if isinstance(e, Wind):
            e.set_wind_data(wind_series(rows), 'm/s')


def _sub(m, name, v):
    for sp in m.spills:
        setattr(sp.substance, name, v)


class Fields(Toggle):
    """winds and currents, uncertainty drawn anew every half hour, both directions"""
    name = 'fields'
    base = dict(dt=900, dt1=900, dt2=1800, dur=4500, unc=True)
    tog = {
        'series': (SER, _set_series),
        'windage': ([(.01, .04), (.03, .03)], lambda m, v: _sub(m, 'windage_range', v)),
        'persist': ([900, -1], lambda m, v: _sub(m, 'windage_persist', v)),
        'scale': ([.7, 1.3], lambda m, v: (setattr(_find(m, WindMover), 'scale_value', v), setattr(_find(m, CurrentMover), 'scale_value', v))),
        'cdur': ([1800., 900.], lambda m, v: setattr(_find(m, CurrentMover), 'uncertain_duration', v)),
        'wspeed': ([2., 1.], lambda m, v: setattr(_find(m, PointWindMover), 'uncertain_speed_scale', v)),
        'delay': ([0., .25], lambda m, v: setattr(_find(m, PointWindMover), 'uncertain_time_delay', v)),
        'diff': ([50000., 90000.], lambda m, v: setattr(_find(m, RandomMover), 'diffusion_coef', v)),
        'range': ([(T0 - hrs(99), T0 + hrs(99)), (T0 - secs(1000), T0 + secs(1700))], lambda m, v: setattr(_find(m, SimpleMover), 'active_range', v)),
        'back': ([False, True], lambda m, v: setattr(m, 'run_backwards', v)),
    }

    def build(self, cfg):
        from checks.c22 import Field, shear
        v = lambda k: self.val(cfg, k)
        m = Model(start_time=T0, duration=secs(cfg['dur']), time_step=secs(cfg['dt']), uncertain=cfg['unc'], run_backwards=v('back'))
        w = Wind(timeseries=wind_series(v('series')), units='m/s', extrapolation_is_allowed=True)
        m.environment += w
        for i in range(2):
            m.spills += gs.point_line_spill(num_elements=3 + i, start_position=(1. * i, 2., 0.), release_time=T0, amount=10, units='kg')
        _sub(m, 'windage_range', v('windage'))
        _sub(m, 'windage_persist', v('persist'))
        m.movers += PointWindMover(w, uncertain_duration=.5, uncertain_speed_scale=v('wspeed'), uncertain_time_delay=v('delay'))
        m.movers += WindMover(wind=w, scale_value=v('scale'), uncertain_duration=1800.)
        m.movers += CurrentMover(current=Field(shear), scale_value=v('scale'), uncertain_duration=v('cdur'))
        m.movers += RandomMover(diffusion_coef=v('diff'))
        m.movers += SimpleMover((.4, .1, 0.), active_range=v('range'))
        return m


_FILES = {}


def _file():
    if os.getpid() not in _FILES:
        p = os.path.join(scratch_dir('scen2'), 'f.nc')
        gf.Regular().write(p, [-3600. * 6, 0, 1800., 5400., 3600. * 9], [0, 1, 2, 3, 4])
        _FILES[os.getpid()] = p
    return _FILES[os.getpid()]


CATS = (-66.116667, 18.458333, 0.)


class Native(Toggle):
    """CATS with its tide and a current from a file"""
    name = 'native'
    base = dict(dt=900, dt1=900, dt2=3600, dur=5400, unc=False)
    tog = {
        'scale': ([.5, 1.5], lambda m, v: setattr(_find(m, CatsMover), 'scale_value', v)),
        # (a tide switches scaling on, and taking it away switches it off)
        'scaled': ([True, False], lambda m, v: setattr(_find(m, CatsMover, 1), 'scale', v)),
        'tide': ([1., .4], lambda m, v: setattr(_find(m, CatsMover), 'tide', _tide(v))),
        'tscale': ([1., .3], lambda m, v: setattr(_find(m, CatsMover, 2).tide, 'scale_factor', v)),
        'cuncert': ([.3, .6], lambda m, v: setattr(_find(m, CatsMover), 'up_cur_uncertain', v)),
        'cudur': ([.5, .25], lambda m, v: setattr(_find(m, CatsMover), 'uncertain_duration', v)),
        'cscale': ([1., 2.], lambda m, v: setattr(_find(m, c_GridCurrentMover), 'current_scale', v)),
        'offset': ([0, 1], lambda m, v: setattr(_find(m, c_GridCurrentMover), 'time_offset', v)),
        'gdur': ([.5, .25], lambda m, v: setattr(_find(m, c_GridCurrentMover), 'uncertain_duration', v)),
        'start': ([T0, T0 + hrs(1)], lambda m, v: _move_start(m, v)),
    }

    def build(self, cfg):
        from checks.c22 import DATA
        v = lambda k: self.val(cfg, k)
        m = Model(start_time=v('start'), duration=secs(cfg['dur']), time_step=secs(cfg['dt']), uncertain=cfg['unc'])
        for p in (CATS, (-66.11, 18.46, 0.), (10.13, .07, 0.), (10.27, .21, 0.)):
            m.spills += gs.point_line_spill(num_elements=2, start_position=p, release_time=v('start'), amount=10, units='kg')
        m.movers += CatsMover(os.path.join(DATA, 'EbbTides.cur'), tide=_tide(v('tide')), scale=True, scale_refpoint=CATS, scale_value=v('scale'),
                              uncertain_duration=v('cudur'), up_cur_uncertain=v('cuncert'))
        m.movers += CatsMover(os.path.join(DATA, 'EbbTides.cur'), scale=v('scaled'), scale_refpoint=CATS, scale_value=.3)
        m.movers += CatsMover(os.path.join(DATA, 'EbbTides.cur'), tide=_tide(v('tscale')), scale=True, scale_refpoint=CATS, scale_value=.3)
        m.movers += c_GridCurrentMover(_file(), current_scale=v('cscale'), time_offset=v('offset'), uncertain_duration=v('gdur'), extrapolate=True)
        return m


def _tide(f):
    from checks.c22 import DATA
    return Tide(os.path.join(DATA, 'EbbTidesShioHt.txt'), scale_factor=f)


def _move_start(m, v):
    m.start_time = v
    for sp in m.spills:
        sp.release_time = v


DISTS = [lambda: UniformDistribution(low=1e-4, high=4e-4), lambda: NormalDistribution(mean=3e-4, sigma=5e-5)]


class Under(Toggle):
    """droplets, vertical mixing, release on a grid"""
    name = 'under'
    base = dict(dt=900, dt1=900, dt2=300, dur=3600, unc=False)
    tog = {
        'dist': ([0, 1], lambda m, v: setattr(m.spills[0].release, 'distribution', DISTS[v]())),
        'kv': ([5., 11.], lambda m, v: setattr(_find(m, RandomMover3D), 'vertical_diffusion_coef_above_ml', v)),
        'layer': ([10., 4.], lambda m, v: setattr(_find(m, RandomMover3D), 'mixed_layer_depth', v)),
        'surf': ([False, True], lambda m, v: setattr(_find(m, RandomMover3D), 'surface_is_allowed', v)),
        'rise': ([True, False], lambda m, v: setattr(_find(m, RiseVelocityMover), 'on', v)),
        'ne': ([7, 9], lambda m, v: setattr(m.spills[0], 'num_elements', v)),
        'amount': ([100, 50], lambda m, v: setattr(m.spills[0], 'amount', v)),
        'end': ([T0 + secs(1800), T0 + secs(900)], lambda m, v: setattr(m.spills[0], 'end_release_time', v)),
    }

    def build(self, cfg):
        v = lambda k: self.val(cfg, k)
        m = Model(start_time=T0, duration=secs(cfg['dur']), time_step=secs(cfg['dt']), uncertain=cfg['unc'])
        m.environment += Water(288.)
        rel = SubsurfaceRelease(distribution=DISTS[v('dist')](), distribution_type='droplet_size', release_time=T0, start_position=(0., 0., 8.), end_position=(.01, 0., 30.),
                                num_elements=v('ne'), end_release_time=v('end'))
        m.spills += Spill(release=rel, amount=v('amount'), units='kg', substance=oil(), water=m.environment[0])
        m.spills += Spill(release=GridRelease(T0, ((1., 1.), (1.1, 1.2)), (2, 2)), amount=3, units='kg', substance=m.spills[0].substance)
        m.movers += RiseVelocityMover(on=v('rise'))
        m.movers += RandomMover3D(vertical_diffusion_coef_above_ml=v('kv'), vertical_diffusion_coef_below_ml=.3, mixed_layer_depth=v('layer'), surface_is_allowed=v('surf'))
        return m


def _each(m, cls, f):
    for w in m.weatherers:
        if type(w) is cls:
            f(w)


def _set_oil(m, v):
    # a spill keeps its mass when the substance changes
    a = round(m.spills[0].amount, 6)
    m.spills[0].substance = _oil(v)
    m.spills[0].amount = a


class Cleanup(Toggle):
    """all processes and operations, their settings and those of wind, water and oil"""
    name = 'cleanup'
    base = dict(dt=900, dt1=900, dt2=1800, dur=5400, unc=False)
    tog = {
        'temp': ([288., 300.], lambda m, v: setattr(m.environment[1], 'temperature', v)),
        'series': (SER, _set_series),
        'amount': ([100, 30], lambda m, v: setattr(m.spills[0], 'amount', v)),
        'substeps': ([1, 3], lambda m, v: setattr(m, 'weathering_substeps', v)),
        'oil': (['oil_ans_mp', 'oil_diesel'], _set_oil),
        'burn': ([.8, .3], lambda m, v: _each(m, Burn, lambda w: setattr(w, 'efficiency', v))),
        'skim': ([10, 4], lambda m, v: _each(m, Skimmer, lambda w: setattr(w, 'amount', v))),
        'window': ([(T0 + secs(900), T0 + secs(2700)), (T0 + secs(1000), T0 + secs(5000))], lambda m, v: _each(m, Skimmer, lambda w: setattr(w, 'active_range', v))),
        'disp': ([.2, .5], lambda m, v: _each(m, ChemicalDispersion, lambda w: setattr(w, 'fraction_sprayed', v))),
        'emul': ([True, False], lambda m, v: _each(m, Emulsification, lambda w: setattr(w, 'on', v))),
    }

    def build(self, cfg):
        v = lambda k: self.val(cfg, k)
        m = Model(start_time=T0, duration=secs(cfg['dur']), time_step=secs(cfg['dt']), uncertain=cfg['unc'])
        m.weathering_substeps = v('substeps')
        wind = Wind(timeseries=wind_series(v('series')), units='m/s', extrapolation_is_allowed=True)
        water = Water(v('temp'))
        waves = Waves(wind, water)
        m.environment += [wind, water, waves]
        m.spills += gs.point_line_spill(num_elements=5, start_position=(0., 0., 0.), release_time=T0, end_release_time=T0 + secs(2000),
                                        substance=_oil(v('oil')), amount=v('amount'), units='bbl')
        m.movers += PointWindMover(wind)
        m.weatherers += [Evaporation(water=water, wind=wind), NaturalDispersion(waves=waves, water=water), Emulsification(waves=waves, on=v('emul')),
                         Skimmer(amount=v('skim'), units='bbl', efficiency=.5, active_range=v('window'), water=water),
                         Burn(area=100., thickness=.02, active_range=(T0 + secs(1850), T0 + secs(5400)), efficiency=v('burn'), wind=wind, water=water),
                         ChemicalDispersion(fraction_sprayed=v('disp'), active_range=(T0 + secs(2000), T0 + secs(5300)), waves=waves, efficiency=.3),
                         Beaching(active_range=(T0 + secs(950), T0 + secs(5400)), units='bbl', timeseries=[(T0 + secs(3600), 5.), (T0 + secs(5400), 3.)], water=water)]
        return m


def _oil(name):
    return GnomeOil(name)


for s_ in (Fields(), Native(), Under(), Cleanup()):
    SCENARIOS[s_.name] = s_

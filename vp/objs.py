"""The objects users save, with the attributes they set: a table written from
the public documentation of the constructors, independent of the schemas."""
import hashlib
import os

import numpy as np
from shapely.geometry import Polygon

from vp.g import *
from gnome.environment import Water, Waves, Wind, Tide, SteadyUniformCurrent
from gnome.environment.wind import constant_wind
from gnome.movers import (SimpleMover, RandomMover, RandomMover3D, PointWindMover, WindMover, CatsMover,
                          RiseVelocityMover, CurrentMover, c_GridCurrentMover, c_GridWindMover, ComponentMover)
from vp import gridfiles as gf
from gnome.maps.map import GnomeMap, MapFromBNA
from gnome.spills.release import Release, PointLineRelease, PolygonRelease, GridRelease, SubsurfaceRelease
from gnome.spills.spill import Spill
from gnome.spills.substance import NonWeatheringSubstance, SubsurfaceSubstance
from gnome.spills.gnome_oil import GnomeOil
from gnome.weatherers import (Evaporation, NaturalDispersion, Emulsification, Skimmer, Burn, ChemicalDispersion,
                              Beaching, Dissolution, Biodegradation, FayGravityViscous, HalfLifeWeatherer, Langmuir,
                              ConstantArea)
from gnome.outputters import (Renderer, NetCDFOutput, KMZOutput, ShapeOutput, TrajectoryGeoJsonOutput,
                              WeatheringOutput, BinaryOutput, SpillJsonOutput)
from gnome.utilities.inf_datetime import InfDateTime
from gnome.utilities.time_utils import TZOffset
from gnome.utilities.distributions import (UniformDistribution, NormalDistribution, LogNormalDistribution,
                                           WeibullDistribution)

T1, T2 = T0 + hrs(1), T0 + mins(151)
TS = [(T0, (5., 30.)), (T0 + hrs(1), (8., 260.)), (T0 + hrs(4), (2.123456789, 3.))]
RANGE = [(T1, T2), (InfDateTime('-inf'), T2), (T1, InfDateTime('inf'))]
PROC = {'on': [False], 'active_range': RANGE, 'name': ['a name', 'Größe / "x"']}
OUT = {'on': [False], 'output_zero_step': [False], 'output_last_step': [False], 'output_single_step': [True],
       'output_timestep': [hrs(2), secs(1800)], 'output_start_time': [T1], 'name': ['out 1']}
WINDU = {'uncertain_duration': [5.], 'uncertain_time_delay': [1.5], 'uncertain_speed_scale': [1.25], 'uncertain_angle_scale': [.7]}
BNA = os.path.join('/repo', 'py_gnome', 'tests', 'unit_tests', 'sample_data', 'MapBounds_2Spillable2Islands2Lakes.bna')
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')
_COPY = {}


def data(name):
    """a copy of a data file in the scratch directory (movers write beside their files)"""
    pid = os.getpid()
    if (pid, name) not in _COPY:
        import shutil
        from vp.core import scratch_dir
        d = scratch_dir('objs')
        f = os.path.join(d, name)
        if name == 'grid.nc':
            gf.Regular().write(f, [-3600. * 6, 0, 1800., 5400., 3600. * 9], [0, 1, 2, 3, 4])
        elif name == 'wind.nc':
            gf.Regular(winds=True).write(f, [-3600. * 6, 0, 1800., 5400., 3600. * 9], [0, 1, 2, 3, 4])
        else:
            shutil.copy(os.path.join(DATA, name), f)
        _COPY[pid, name] = f
    return _COPY[pid, name]


def tide(f=None):
    return Tide(data('EbbTidesShioHt.txt'), scale_factor=f)


CATS = (-66.116667, 18.458333, 0.)


def wind():
    return Wind(timeseries=TS, units='knots')


def water():
    return Water(290.)


def waves():
    return Waves(constant_wind(7, 120), Water(285.))


def dist(k):
    return [UniformDistribution(low=.001, high=.003), NormalDistribution(mean=.01, sigma=.002),
            LogNormalDistribution(mean=.5, sigma=.25), WeibullDistribution(alpha=1.8, lambda_=.000248, min_=.0001, max_=.002)][k]


POLY = [Polygon([(0., 0.), (1., 0.), (1., 1.), (0., 1.)]), Polygon([(2., 2.), (3., 2.), (2.5, 3.)]),
        Polygon([(4, 0), (6, 0), (6, 2), (5, 2), (5, 1), (4, 1)], [[(5.2, .5), (5.4, .5), (5.3, .7)]])]
_d = dict


# name -> (class, fixed arguments, {attribute: values})
def table():
    t = {}
    t['Water'] = (Water, {}, _d(temperature=[283.25], salinity=[12.5], sediment=[.25], wave_height=[1.75], fetch=[1234.5],
                                units=[{'temperature': 'C', 'salinity': 'psu', 'sediment': 'mg/l', 'wave_height': 'ft', 'fetch': 'km', 'density': 'kg/m^3', 'kinematic_viscosity': 'm^2/s'}],
                                name=['w'], _post=lambda o: None))
    t['Wind'] = (Wind, _d(timeseries=TS, units='knots'),
                 _d(latitude=[28.5], longitude=[-88.25], speed_uncertainty_scale=[.3], extrapolation_is_allowed=[True],
                    timezone_offset=[TZOffset(-8., 'PST'), TZOffset(5.5)], description=['d'], source_id=['42'], source_type=['nws', 'buoy', 'manual'],
                    updated_at=[T1], name=['wnd']))
    t['Waves'] = (Waves, {}, _d(wind=[wind], water=[water], name=['wv'], make_default_refs=[False]))
    t['SteadyUniformCurrent'] = (SteadyUniformCurrent, _d(speed=1., direction=40.), _d(speed=[.75], direction=[270.], name=['c']))
    t['SimpleMover'] = (SimpleMover, _d(velocity=(1., 2., .5)), dict(PROC, velocity=[(.1, -.333333333333, 0.)], uncertainty_scale=[.75]))
    t['RandomMover'] = (RandomMover, {}, dict(PROC, diffusion_coef=[12345.678], uncertain_factor=[3.5]))
    t['RandomMover3D'] = (RandomMover3D, {}, dict(PROC, vertical_diffusion_coef_above_ml=[7.5], vertical_diffusion_coef_below_ml=[.5], mixed_layer_depth=[23.5],
                                                  horizontal_diffusion_coef_above_ml=[1234.5], horizontal_diffusion_coef_below_ml=[99.5], surface_is_allowed=[True]))
    t['RiseVelocityMover'] = (RiseVelocityMover, {}, dict(PROC))
    t['PointWindMover'] = (PointWindMover, _d(wind=wind), dict(PROC, **WINDU))
    t['WindMover'] = (WindMover, _d(wind=wind), dict(PROC, scale_value=[1.5], default_num_method=['Euler', 'RK4'], **WINDU))
    t['CurrentMover'] = (CurrentMover, _d(current=lambda: SteadyUniformCurrent(1., 30.)),
                         dict(PROC, scale_value=[1.5], default_num_method=['Euler'], uncertain_duration=[5.], uncertain_time_delay=[1.5], uncertain_along=[.25], uncertain_cross=[.125]))
    cu = _d(uncertain_duration=[5.], uncertain_time_delay=[1.5])
    t['Tide'] = (Tide, _d(filename=lambda: data('EbbTidesShioHt.txt')), _d(scale_factor=[.75]))
    t['CatsMover'] = (CatsMover, _d(filename=lambda: data('EbbTides.cur'), scale_refpoint=CATS),
                      dict(PROC, tide=[tide, lambda: tide(.5)], scale=[True], scale_value=[.625], scale_refpoint=[(-66.11, 18.46, 0.)], up_cur_uncertain=[.45], down_cur_uncertain=[-.45],
                           right_cur_uncertain=[.2], left_cur_uncertain=[-.2], uncertain_eddy_diffusion=[12.5], uncertain_eddy_v0=[.25], **cu))
    t['c_GridCurrentMover'] = (c_GridCurrentMover, _d(filename=lambda: data('grid.nc')),
                               dict(PROC, current_scale=[1.5], time_offset=[-3, 5.5], num_method=['RK4'], uncertain_along=[.375], uncertain_cross=[.125], extrapolate=[True], **cu))
    t['c_GridWindMover'] = (c_GridWindMover, _d(filename=lambda: data('wind.nc')), dict(PROC, wind_scale=[1.5], time_offset=[-3, 5.5], extrapolate=[True], **WINDU))
    t['ComponentMover'] = (ComponentMover, _d(filename1=lambda: data('EbbTides.cur'), filename2=lambda: data('Offshore.cur')),
                           dict(PROC, wind=[wind], scale_refpoint=[CATS], pat1_angle=[30.], pat1_speed=[7.5], pat1_speed_units=[1], pat1_scale_to_value=[.25],
                                pat2_angle=[45.], pat2_speed=[6.5], pat2_speed_units=[3], pat2_scale_to_value=[.375], scale_by=[1], **cu))
    t['GnomeMap'] = (GnomeMap, {}, _d(map_bounds=[((-10., -5.), (10., -5.), (10., 5.), (-10., 5.))], name=['m']))
    t['MapFromBNA'] = (MapFromBNA, _d(filename=BNA), _d(refloat_halflife=[2.5], raster_size=[4096 * 64], map_bounds=[((-127., 47.), (-126., 47.), (-126., 48.), (-127., 48.))], name=['bna map']))
    rel = _d(retain_initial_positions=[True], end_release_time=[T2], num_elements=[7], release_mass=[12.5], name=['r'], timezone_offset=[TZOffset(-8., 'PST')])
    t['PointLineRelease'] = (PointLineRelease, _d(release_time=T1, start_position=(1., 2., 3.)),
                             dict(rel, end_position=[(4., 5., 6.)], num_per_timestep=[None]))
    t['PointLineReleaseNum'] = (PointLineRelease, _d(release_time=T1, start_position=(1., 2., 3.), num_elements=None, num_per_timestep=4), _d(num_per_timestep=[9]))
    t['PolygonRelease'] = (PolygonRelease, _d(release_time=T1, polygons=POLY), dict(rel, weights=[[.25, .25, .5]], thicknesses=[[.1, .2, .3]]))
    t['Release'] = (Release, _d(release_time=T1, custom_positions=[(1., 2., 3.), (-4., 5., 6.)]), rel)
    t['SubsurfaceRelease'] = (SubsurfaceRelease, _d(release_time=T1, start_position=(1., 2., 3.), distribution=lambda: dist(0)),
                              dict(rel, end_position=[(4., 5., 6.)], distribution=[lambda: dist(1), lambda: dist(2), lambda: dist(3)], distribution_type=['rise_velocity']))
    t['SubsurfaceSubstance'] = (SubsurfaceSubstance, _d(distribution=lambda: dist(3)), _d(windage_range=[(.02, .05)], distribution=[lambda: dist(0)], standard_density=[912.5]))
    t['GridRelease'] = (GridRelease, _d(release_time=T1, bounds=((0., 0.), (2., 3.)), resolution=3), _d(name=['g'], release_mass=[4.]))
    t['NonWeatheringSubstance'] = (NonWeatheringSubstance, {}, _d(windage_range=[(.02, .05)], windage_persist=[-1, 600], standard_density=[873.25], name=['nws']))
    t['GnomeOil'] = (GnomeOil, _d(oil_name='oil_crude'), _d(windage_range=[(.02, .05)], windage_persist=[-1, 600], water=[water], name=['my oil']))
    t['Spill'] = (Spill, _d(release=lambda: PointLineRelease(T1, (1., 2., 3.), num_elements=4)),
                  _d(on=[False], amount=[12.5], units=['bbl', 'kg'], amount_uncertainty_scale=[.25], water=[water], name=['sp'],
                     substance=[lambda: NonWeatheringSubstance(windage_range=(.03, .06))]))
    t['Evaporation'] = (Evaporation, {}, dict(PROC, wind=[wind], water=[water]))
    t['NaturalDispersion'] = (NaturalDispersion, {}, dict(PROC, waves=[waves], water=[water], algorithm=['D&S1988', 'Li2017']))
    t['Emulsification'] = (Emulsification, {}, dict(PROC, waves=[waves]))
    t['Dissolution'] = (Dissolution, {}, dict(PROC, waves=[waves], wind=[wind]))
    t['Biodegradation'] = (Biodegradation, {}, dict(PROC, waves=[waves]))
    t['FayGravityViscous'] = (FayGravityViscous, {}, dict(PROC, water=[water], thickness_limit=[.0005]))
    t['Langmuir'] = (Langmuir, {}, dict(PROC, wind=[wind], water=[water]))
    t['HalfLifeWeatherer'] = (HalfLifeWeatherer, {}, dict(PROC, half_lives=[(3600.,), (1800., 900.)]))
    rng = _d(active_range=(T0, T2))
    t['Skimmer'] = (Skimmer, dict(rng, amount=10., efficiency=.5, units='bbl'),
                    _d(on=[False], name=['s'], active_range=RANGE[:1], amount=[7.25], efficiency=[.3], units=['kg', 'gal'], water=[water]))
    t['Burn'] = (Burn, _d(area=100., thickness=.02, active_range=(T0, InfDateTime('inf'))),
                 _d(on=[False], name=['b'], area=[77.5], thickness=[.03], area_units=['ft^2'], thickness_units=['cm'], efficiency=[.45], wind=[wind], water=[water]))
    t['ChemicalDispersion'] = (ChemicalDispersion, dict(rng, fraction_sprayed=.2, efficiency=.3),
                               _d(on=[False], name=['cd'], active_range=RANGE[:1], fraction_sprayed=[.35], efficiency=[.45], waves=[waves]))
    t['Beaching'] = (Beaching, dict(rng, units='bbl', timeseries=[(T1, 5.), (T2, 3.)]),
                     _d(on=[False], name=['be'], units=['kg'], water=[water], timeseries=[[(T1, 2.25), (T2, 7.)]]))
    t['UniformDistribution'] = (UniformDistribution, {}, _d(low=[.25], high=[.75]))
    t['NormalDistribution'] = (NormalDistribution, {}, _d(mean=[.25], sigma=[.75]))
    t['LogNormalDistribution'] = (LogNormalDistribution, {}, _d(mean=[.25], sigma=[.75]))
    t['WeibullDistribution'] = (WeibullDistribution, _d(alpha=1.5), _d(alpha=[1.8], lambda_=[.25], min_=[.1], max_=[.9]))
    t['NetCDFOutput'] = (NetCDFOutput, _d(filename='out.nc'), dict(OUT, which_data=['all', 'most'], compress=[False], zip_output=[True]))
    t['KMZOutput'] = (KMZOutput, _d(filename='out.kmz'), dict(OUT))
    t['ShapeOutput'] = (ShapeOutput, _d(filename='out'), dict(OUT, zip_output=[False], include_certain_boundary=[True], certain_boundary_separate_by_spill=[False],
                                                            certain_boundary_hull_ratio=[.25], certain_boundary_hull_allow_holes=[True], include_uncertain_boundary=[True],
                                                            include_certain_in_uncertain_boundary=[False], uncertain_boundary_separate_by_spill=[False], uncertain_boundary_hull_ratio=[.75],
                                                            uncertain_boundary_hull_allow_holes=[True], timeoffset=[-7]))
    t['TrajectoryGeoJsonOutput'] = (TrajectoryGeoJsonOutput, {}, dict(OUT, round_data=[False], round_to=[2]))
    t['WeatheringOutput'] = (WeatheringOutput, {}, dict(OUT))
    t['BinaryOutput'] = (BinaryOutput, _d(filename='out.bin'), dict(OUT, zip_output=[True]))
    t['SpillJsonOutput'] = (SpillJsonOutput, {}, dict(OUT, include_uncertain_bounds=[True]))
    t['Renderer'] = (Renderer, {}, dict(OUT, image_size=[(320, 200)], viewport=[((-1., -2.), (3., 4.))], draw_ontop=['uncertain'], formats=[['bna', 'gif'], ['gif']],
                                        map_filename=[BNA]))
    t['Model'] = (Model, _d(start_time=T0), _d(name=['the model'], time_step=[secs(300), mins(7)], start_time=[T1, T0 - secs(1)], duration=[hrs(3), secs(5000)], uncertain=[True],
                                               cache_enabled=[True], mode=['adios', 'roc'], make_default_refs=[False], weathering_activated=[True], run_backwards=[True],
                                               location=[[-88.25, 28.5]], timezone_offset=[TZOffset(-8., 'PST'), TZOffset(5.5)],
                                               map=[lambda: GnomeMap(map_bounds=((-10., -5.), (10., -5.), (10., 5.), (-10., 5.)))]))
    return t


def val(v):
    return v() if callable(v) else v


def make(entry, extra):
    cls, fixed, attrs = entry
    kw = {k: val(v) for k, v in fixed.items()}
    kw.update({k: val(v) for k, v in extra.items()})
    return cls(**kw)


def plain(v, depth=0):
    """a value as nested plain data; objects as (class, their table attributes)"""
    if isinstance(v, np.ndarray):
        if v.dtype.names:
            return [[plain(r[n]) for n in v.dtype.names] for r in v]
        return plain(v.tolist())
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return v.item()
    if isinstance(v, np.datetime64):
        return v.astype('datetime64[s]').astype(object)
    if isinstance(v, os.PathLike):
        return os.fspath(v)
    if isinstance(v, Polygon):
        return [plain(list(v.exterior.coords))] + [plain(list(r.coords)) for r in v.interiors]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if hasattr(v, 'obj_type') and depth < 4:
        return describe(v, depth + 1)
    if type(v).__name__ in ('PolygonSet', 'Polygon', 'Bunch'):
        return [plain(x) for x in v]
    return v


_TAB = None
EXTRA = {'Release': ['release_time', 'custom_positions'], 'Wind': ['timeseries', 'units'], 'PointLineRelease': ['release_time', 'start_position'],
         'PolygonRelease': ['release_time', 'polygons', 'weights', 'thicknesses'], 'GridRelease': ['release_time', 'bounds', 'resolution', 'custom_positions', 'num_elements'],
         'Spill': ['release', 'substance'], 'PointWindMover': ['wind'], 'WindMover': ['wind'], 'CurrentMover': ['current']}
# not attributes of their own: the name of these follows from the file or oil name
DATAFILES = {'MapFromBNA', 'Tide', 'CatsMover', 'c_GridCurrentMover', 'c_GridWindMover', 'ComponentMover'}
IGNORE = {'c_GridCurrentMover': ['name'], 'c_GridWindMover': ['name'], 'NetCDFOutput': ['name'], 'BinaryOutput': ['name'], 'GnomeOil': ['name']}


def describe(o, depth=0):
    global _TAB
    if _TAB is None:
        _TAB = table()
    n = type(o).__name__
    out = {'#class': n}
    ent = _TAB.get(n)
    if ent is None:
        return out
    names = set(k for k in ent[2] if not k.startswith('_p')) | set(EXTRA.get(n, [])) | set(ent[1])
    for a in sorted(names):
        if n in IGNORE and a in IGNORE[n]:
            continue
        if a in ('filename', 'map_filename', 'filename1', 'filename2'):
            f = getattr(o, a)
            if n in DATAFILES:
                out[a] = hashlib.sha1(open(f, 'rb').read()).hexdigest()
            else:
                out[a] = None if f is None else os.path.basename(os.fspath(f))
            continue
        if hasattr(o, a):
            out[a] = plain(getattr(o, a), depth)
    return out


def close(a, b, tol=0.):
    if isinstance(a, float) or isinstance(b, float):
        try:
            return a == b or abs(a - b) <= tol * max(abs(a), abs(b)) or (a != a and b != b)
        except TypeError:
            return False
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], tol) for k in a)
    return a == b


def differences(a, b, tol=0., path=''):
    if isinstance(a, dict) and isinstance(b, dict) and '#class' in a and '#class' in b:
        out = []
        for k in sorted(set(a) | set(b)):
            out += differences(a.get(k), b.get(k), tol, path + '.' + k)
        return out
    return [] if close(a, b, tol) else [(path, a, b)]

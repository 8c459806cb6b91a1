"""C30  a save file of an older version is loaded as the set-up it holds."""
import contextlib
import copy
import itertools
import json
import os
import shutil
import tempfile
import zipfile

from vp.core import Part, check, scratch_dir
from vp.g import *
from vp.objs import *
from gnome.spills.spill import point_line_spill, surface_point_line_spill, subsurface_spill

PROPERTY = 'C30'
LEVEL = 'model_checking'
NOTE = ('every set-up of the stated grid is written in the layout of every older version of the save format (1 to 4), loaded, '
        'and compared with the set-up that was saved; the conversion is interrupted before each of its file operations and taken up again')
ASSUMPTIONS = ['the layouts of the older versions are those of the version 1 save files that come with the repository and of the renamings between the versions',
               'an interruption is one between two operations on files, not in the middle of writing one',
               'the record of an oil in a version 1 file may be one the present oil can not use: the spill then has a non-weathering substance with the windage of the oil (as documented); anything else of the set-up is the same',
               'version 0 (no version.txt): no such file is at hand, not covered']


@contextlib.contextmanager
def work():
    d = scratch_dir('c30')
    old = tempfile.tempdir
    t = os.path.join(d, 'tmp')
    os.mkdir(t)
    tempfile.tempdir = t
    try:
        yield d
    finally:
        tempfile.tempdir = old
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------ the set-ups

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')

MV = {
    'point': lambda: PointWindMover(Wind(timeseries=TS, units='knots', extrapolation_is_allowed=True, name='w1'), name='pwm', uncertain_duration=5.),
    'pywind': lambda: WindMover(Wind(timeseries=TS, units='m/s', extrapolation_is_allowed=True, name='w2'), name='wm', scale_value=1.5),
    'pycurrent': lambda: CurrentMover(SteadyUniformCurrent(.75, 40.), name='cm', scale_value=.5),
    'cats': lambda: CatsMover(os.path.join(DATA, 'Offshore.cur'), name='cats', uncertain_duration=7.),
    'random': lambda: RandomMover(diffusion_coef=54321.),
}
WT = {
    'evap': lambda: Evaporation(Water(290.), constant_wind(5., 20.)),
    'nat': lambda: NaturalDispersion(waves(), Water(290.)),
    'fay': lambda: FayGravityViscous(Water(290.)),
}
SP = {
    'nws': lambda: [surface_point_line_spill(6, (1., 2., 0.), T0, end_position=(1.5, 2., 0.), amount=5, units='bbl',
                                             substance=NonWeatheringSubstance(windage_range=(.02, .03), windage_persist=-1, standard_density=950.))],
    'poly': lambda: [Spill(release=PolygonRelease(polygons=POLY, weights=[.2, .3, .5], release_time=T0, num_elements=12), amount=3, units='kg',
                           substance=NonWeatheringSubstance(windage_range=(.01, .05), windage_persist=600))],
    'two': lambda: (lambda s: [point_line_spill(3, (1., 2., 0.), T0, substance=s, name='Spill #1'),
                               Spill(release=PolygonRelease(polygons=POLY[:2], release_time=T0, num_elements=4), substance=s, name='Spill #2', amount=1, units='kg')])(NonWeatheringSubstance(windage_range=(.03, .04), windage_persist=300)),
    'offother': lambda: [point_line_spill(3, (1., 2., 0.), T0, substance=NonWeatheringSubstance(windage_range=(.03, .04), windage_persist=300, name='one'), name='Spill #1'),
                         Spill(release=PolygonRelease(polygons=POLY[:2], release_time=T0, num_elements=4), on=False, name='Spill #2',
                               substance=NonWeatheringSubstance(windage_range=(.05, .06), windage_persist=-1, name='two'))],
    'oil': lambda: [surface_point_line_spill(6, (1., 2., 0.), T0, amount=5, units='bbl', substance=GnomeOil('oil_crude', water=Water(285.), windage_range=(.03, .06), windage_persist=1200))],
    'none': lambda: [],
}


def setup(case):
    mv, wt, sp, mp = case
    kw = {}
    if mp == 'bounds':
        kw['map'] = GnomeMap(map_bounds=((-3., -3.), (7., -3.), (7., 7.), (-3., 7.)))
    elif mp == 'bna':
        kw['map'] = MapFromBNA(BNA, refloat_halflife=2.5)
    m = Model(start_time=T0, time_step=600, duration=hrs(1), name='my model', **kw)
    for n in mv:
        m.movers += MV[n]()
    for n in wt:
        m.weatherers += WT[n]()
    for s in SP[sp]():
        m.spills += s
    return m


def told(m):
    """the set-up as plain data"""
    out = {'times': (m.start_time, m.time_step, m.duration, m.uncertain, m.name), 'map': describe(m.map)}
    for c in ('movers', 'environment', 'weatherers', 'outputters'):
        out[c] = [describe(o) for o in getattr(m, c)]
    out['spills'] = [(describe(s), describe(s.release), describe(s.substance)) for s in m.spills]
    return out


def compare(want, got, tol, v=5):
    if v == 1:
        # an oil that can not be used any more
        for i, (x, y) in enumerate(zip(want['spills'], got['spills'])):
            if x[2]['#class'] == 'GnomeOil' and y[2]['#class'] == 'NonWeatheringSubstance':
                for a in ('windage_range', 'windage_persist'):
                    check(close(x[2][a], y[2][a], tol), 'the substance in place of the oil has %s %s, the oil had %s', a, y[2][a], x[2][a])
                for q in (x, y):
                    q[1].pop('release_mass')
                    q[0].pop('substance', None)
                    q[0]['release'].pop('release_mass', None)
                    q[2].clear()
    for k in want:
        a, b = want[k], got[k]
        if not isinstance(a, list):
            a, b = [a], [b]
        check(len(a) == len(b), '%s: %d, were %d: %s', k, len(b), len(a), b)
        for x, y in zip(a, b):
            if k == 'spills':
                for p, q in zip(x, y):
                    df = differences(p, q, tol)
                    check(not df, 'loaded differs: %s %s', k, df)
            elif isinstance(x, dict):
                df = differences(x, y, tol)
                check(not df, 'loaded differs: %s %s', k, df)
            else:
                check(x == y, 'loaded differs: %s: %s, saved %s', k, y, x)


# ------------------------------------------- the layouts of the older versions

def edit(d, f):
    for fn in sorted(os.listdir(d)):
        if fn.endswith('.json'):
            p = os.path.join(d, fn)
            with open(p, encoding='utf-8') as fp:
                js = json.load(fp)
            if f(fn, js):
                with open(p, 'w', encoding='utf-8') as fp:
                    json.dump(js, fp, indent=1)


V4 = {'gnome.movers.py_current_movers.CurrentMover': 'gnome.movers.py_current_movers.PyCurrentMover',
      'gnome.movers.py_wind_movers.WindMover': 'gnome.movers.py_wind_movers.PyWindMover',
      'gnome.movers.c_wind_movers.PointWindMover': 'gnome.movers.c_wind_movers.WindMover'}


def to4(d, opt):
    def f(fn, js):
        if js['obj_type'] in V4:
            js['obj_type'] = V4[js['obj_type']]
            return True
    edit(d, f)


WD = 'gnome.weatherers.weathering_data.WeatheringData'


def to3(d, opt):
    """the WeatheringData among the weatherers, at the places asked for"""
    names = []
    for i, at in enumerate(opt['wd']):
        n = 'WeatheringData_%d' % i if i else 'WeatheringData'
        names.append((at, n + '.json'))
        with open(os.path.join(d, n + '.json'), 'w') as fp:
            json.dump({'active_range': ['-inf', 'inf'], 'on': bool(i), 'obj_type': WD, 'name': n, 'water': None, 'id': 'wd-%d' % i}, fp)

    def f(fn, js):
        if js['obj_type'] == 'gnome.model.Model':
            w = js['weatherers']
            for at, n in names:
                w.insert(at if at >= 0 else len(w), n)
            return True
    edit(d, f)


def to2(d, opt):
    def f(fn, js):
        t = js['obj_type']
        t = t.replace('gnome.spills.', 'gnome.spill.').replace('.gnome_oil.GnomeOil', '.substance.GnomeOil')
        t = t.replace('PolygonRelease', 'SpatialRelease').replace('.c_current_movers.', '.current_movers.').replace('.c_wind_movers.', '.wind_movers.')
        t = t.replace('c_Grid', 'Grid')
        if t != js['obj_type']:
            js['obj_type'] = t
            return True
    edit(d, f)


def to1(d, opt):
    k = [10]

    def f(fn, js):
        if 'windage_range' in js and '.substance.' in js['obj_type']:
            n = 'InitWindages_%d' % k[0]
            k[0] += 1
            with open(os.path.join(d, n + '.json'), 'w') as fp:
                json.dump({'windage_range': js.pop('windage_range'), 'windage_persist': js.pop('windage_persist'),
                           'obj_type': 'gnome.spill.initializers.InitWindages', 'id': n, 'name': n}, fp)
            js['initializers'] = [n + '.json']
            return True
    edit(d, f)


STEPS = [(4, to4), (3, to3), (2, to2), (1, to1)]


def downgrade(d, v, opt):
    for k, f in STEPS:
        if k >= v:
            f(d, opt)
    with open(os.path.join(d, 'version.txt'), 'w') as fp:
        fp.write('%d\n' % v)


def packed(d, how, src):
    """the directory, or an archive of it"""
    if how == 'dir':
        return src
    z = os.path.join(d, 'old.gnome')
    with zipfile.ZipFile(z, 'w') as zf:
        if how == 'folder':
            zf.writestr(zipfile.ZipInfo('top/'), '')
        for fn in sorted(os.listdir(src)):
            zf.write(os.path.join(src, fn), ('top/' if how == 'folder' else '') + fn)
    return z


def tol_of(case):
    return 1e-6 if case[2] == 'oil' else 1e-12


def write_old(d, case, v, opt):
    m = setup(case)
    want = told(m)
    f = os.path.join(d, 'x.gnome')
    m.save(f)
    src = os.path.join(d, 'src')
    with zipfile.ZipFile(f) as z:
        z.extractall(src)
    check(int(open(os.path.join(src, 'version.txt')).readline()) >= 5, 'version of a new file')
    downgrade(src, v, opt)
    return want, src


def lad_run(c):
    case, v, wd, how = c
    with work() as d:
        want, src = write_old(d, case, v, dict(wd=wd))
        loc = packed(d, how, src)
        m = Model.load(loc)
        compare(copy.deepcopy(want), told(m), tol_of(case), v)
        # and what is loaded is of the present version: a second load finds the same
        if how == 'dir':
            m = Model.load(loc)
            compare(copy.deepcopy(want), told(m), tol_of(case), v)
        g = os.path.join(d, 'y.gnome')
        m.save(g)
        compare(copy.deepcopy(want), told(Model.load(g)), tol_of(case), v)
    return dict(states=3, transitions=6, sig=(v, wd, how, case[2], len(case[0])))


def wds(n):
    """places for up to two WeatheringData among n weatherers"""
    yield ()
    for i in range(n + 1):
        yield (i,)
    for i in range(n + 1):
        for j in range(i, n + 2):
            yield (i, j)


def lad_cases(full):
    def it():
        mvs = [()] + [(n,) for n in MV] + [('point', 'pywind'), ('pywind', 'point', 'pycurrent'), tuple(MV)]
        wts = [(), ('evap',), ('evap', 'nat'), ('fay', 'evap', 'nat')]
        for v in (1, 2, 3, 4):
            for mv in mvs:
                for sp in SP:
                    for mp in ('none', 'bounds', 'bna') if full else ('none',):
                        yield (mv, ('evap',) if sp == 'oil' else (), sp, mp), v, (0,), 'zip'
            for how in ('dir', 'zip', 'folder'):
                for sp in SP:
                    for mp in ('none', 'bounds', 'bna'):
                        yield (('point', 'pycurrent'), ('evap', 'nat'), sp, mp), v, (1,), how
            if v <= 3:
                for wt in wts:
                    for wd in wds(len(wt)):
                        yield (('random',), wt, 'oil' if full else 'nws', 'none'), v, wd, 'zip'
    return it


# -------------------------------------------- interrupted and taken up again

class Interrupted(BaseException):
    pass


@contextlib.contextmanager
def interrupt(k, inside):
    """stop before the k-th operation that alters a file below `inside`"""
    import builtins
    import pathlib
    n = [0]
    inside = os.path.realpath(inside)
    saved = builtins.open, os.remove, os.unlink, pathlib.Path.unlink, os.rename, os.replace

    def hit(path):
        if not os.path.realpath(os.fspath(path)).startswith(inside):
            return
        n[0] += 1
        if n[0] == k + 1:
            raise Interrupted()

    def w(f, i=0):
        def g(*a, **kw):
            hit(a[i])
            return f(*a, **kw)
        return g

    def op(file, mode='r', *a, **kw):
        if not isinstance(file, int) and any(x in mode for x in 'wax+'):
            hit(file)
        return saved[0](file, mode, *a, **kw)
    builtins.open = op
    os.remove, os.unlink, os.rename, os.replace = w(saved[1]), w(saved[2]), w(saved[4]), w(saved[5])
    pathlib.Path.unlink = w(saved[3])
    try:
        yield n
    finally:
        builtins.open, os.remove, os.unlink, pathlib.Path.unlink, os.rename, os.replace = saved


CRASH = [(('pywind', 'point', 'pycurrent'), ('evap', 'nat'), 'two', 'none'), (('point',), ('evap',), 'oil', 'none'),
         (('random', 'point'), (), 'offother', 'bounds'), (('pycurrent', 'pywind'), ('fay',), 'poly', 'none')]


def crash_run(c):
    case, v, wd, twice = c
    with work() as d:
        want, src = write_old(d, case, v, dict(wd=wd))
        keep = os.path.join(d, 'keep')
        shutil.copytree(src, keep)
        k = 0
        points = 0
        while True:
            shutil.rmtree(src)
            shutil.copytree(keep, src)
            done = False
            with interrupt(k, src):
                try:
                    m = Model.load(src)
                    done = True
                except Interrupted:
                    pass
            if done:
                compare(copy.deepcopy(want), told(m), tol_of(case), v)
                break
            if twice:
                with interrupt(k // 2, src):
                    try:
                        Model.load(src)
                    except Interrupted:
                        pass
            points += 1
            m = Model.load(src)
            compare(copy.deepcopy(want), told(m), tol_of(case), v)
            k += 1
    return dict(states=points, transitions=2 * points, sig=(v, points))


def crash_cases(full):
    def it():
        for case in CRASH if full else CRASH[:3]:
            for v in (1, 2, 3, 4):
                for wd in ((), (0,), (0, 1)) if full and v <= 3 else ((0,),):
                    for twice in (False, True) if full else (False,):
                        yield case, v, wd, twice
    return it


def parts(tier):
    full = tier == 'thorough'
    return [Part('ladder', lad_cases(full), lad_run, rule='versions 1-4 x sets of movers x spills x maps x containers; WeatheringData at every place among the weatherers'),
            Part('interrupted', crash_cases(full), crash_run, rule='set-ups x versions 1-4 x every file operation of the conversion')]

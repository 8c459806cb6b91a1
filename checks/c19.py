"""C19  what is in the output files is what the model computed."""
import contextlib
import csv
import io
import itertools
import json
import os
import re
import shutil
import zipfile

import netCDF4
import numpy as np

from vp.core import Part, check, scratch_dir
from vp.g import *
from vp.scen import band_map, oil
from gnome.maps import GnomeMap
from gnome.environment import Water, Waves
from gnome.weatherers import Evaporation, NaturalDispersion
from gnome.outputters import NetCDFOutput, TrajectoryGeoJsonOutput, WeatheringOutput, SpillJsonOutput, BinaryOutput, ShapeOutput, KMZOutput, OilBudgetOutput
from gnome.outputters.memory_outputter import MemoryOutputter

PROPERTY = 'C19'
LEVEL = 'model_checking'
NOTE = 'the real Model is run with the real outputter; the state of the elements is copied after every step and every file is read back (netCDF4, read_data, json, csv, zipfile, numpy, geopandas) and compared element by element with those copies'
ASSUMPTIONS = ['precision of each format as documented (rounding of JSON, float32 of the binary format)']

STEP = 900
N = 6
MULT = 1


def make(world, unc=False, back=False, spills=2, cont=True):
    kw_ = {}
    start, end = (0., 0., 0.), (.004, .006, 0.)
    if world in ('leave', 'leave_w'):
        b = .012
        kw_['map'] = GnomeMap(map_bounds=[(-b, -b), (-b, b), (b, b), (b, -b)])
    if world == 'land':
        kw_['map'] = band_map(.1)
        start, end = (.45, .2, 0.), (.55, .8, 0.)
    m = Model(start_time=T0, duration=timedelta(seconds=(N - 1) * STEP), time_step=timedelta(seconds=STEP), uncertain=unc, run_backwards=back, name='m', **kw_)
    s = -1 if back else 1
    sub = None
    if world.endswith('_w'):
        w, wat = constant_wind(6, 270, 'm/s'), Water(288.)
        m.environment += [w, wat]
        m.weatherers += [Evaporation(water=wat, wind=w)]
        sub = oil()
    if world != 'empty':
        for i in range(spills):
            rt = T0 + s * timedelta(seconds=2.5 * STEP if world == 'late' else i * 1200 * STEP // 900 if cont else 0)
            m.spills += gs.point_line_spill(num_elements=(5 + 2 * i) * MULT, start_position=start, end_position=end, release_time=rt,
                                            end_release_time=None if i else (T0 + timedelta(seconds=2000 * STEP // 900) if cont and not back and world != 'late' else None),
                                            amount=10 + i, units='kg', substance=sub, windage_range=(.01, .02))
    if world == 'land':
        m.movers += SimpleMover((3., 0., 0.))
        m.movers += RandomMover(diffusion_coef=20000000)
    else:
        m.movers += RandomMover(diffusion_coef=600000)
        m.movers += SimpleMover((.2, -.1, 0.))
    return m


def grab(m):
    """copy of what the model holds now"""
    out = []
    for sc in m.spills.items():
        out.append(dict(unc=sc.uncertain, time=m.model_time, arr={k: np.array(sc[k]) for k in sc.data_arrays}, mb=dict(sc.mass_balance), n=len(sc)))
    return out


def go(m, upto=None, infos=None):
    snaps = []
    with contextlib.redirect_stdout(io.StringIO()):
        k = 0
        while upto is None or k < upto:
            try:
                info = m.step()
            except StopIteration:
                break
            snaps.append(grab(m))
            if infos is not None:
                infos.append(info)
            k += 1
    return snaps


def written(snaps, out, zero, last):
    """indices of the snapshots written with output_timestep = out steps (None: all)"""
    n = N
    w = []
    for k in range(len(snaps)):
        if k == 0:
            y = zero
        else:
            y = out is None or k % out == 0
        if k == n - 1 and last:
            y = True
        if y:
            w.append(k)
    return w


def nc_times(f):
    with netCDF4.Dataset(f) as nc:
        t = nc.variables['time']
        return [x for x in netCDF4.num2date(t[:], t.units, calendar=t.calendar, only_use_cftime_datetimes=False, only_use_python_datetimes=True)]


SKIP = {'surface_concentration'}


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def check_nc(f, snaps, which, k, names=None, reader=True):
    """file f against snapshots (already the k-th container of each)"""
    snaps = [s[k] for s in snaps]
    check(os.path.exists(f), '%s does not exist', os.path.basename(f))
    with netCDF4.Dataset(f) as nc:
        v = {k_: x if k_ == 'time' else x[:] for k_, x in nc.variables.items()}
        t = v['time']
        check(len(t) == len(snaps), '%s: %d times in the file, %d expected', os.path.basename(f), len(t), len(snaps))
        times = [] if not len(t) else list(netCDF4.num2date(t[:], t.units, calendar=t.calendar, only_use_cftime_datetimes=False, only_use_python_datetimes=True))
        check(times == [s['time'] for s in snaps], '%s: times %r, expected %r', os.path.basename(f), times, [s['time'] for s in snaps])
        pc = [int(x) for x in v['particle_count'][:]]
        check(pc == [s['n'] for s in snaps], '%s: particle_count %r, expected %r', os.path.basename(f), pc, [s['n'] for s in snaps])
        check(len(nc.dimensions['data']) == sum(pc), '%s: %d rows of data for %d elements', os.path.basename(f), len(nc.dimensions['data']), sum(pc))
        i0, g = 0, None
        for i, s in enumerate(snaps):
            i1 = i0 + s['n']
            for j, nm in enumerate(('longitude', 'latitude', 'depth')):
                check(same(v[nm][i0:i1], s['arr']['positions'][:, j]), '%s: %s of time %d: %r, the model had %r', os.path.basename(f), nm, i, np.asarray(v[nm][i0:i1]).tolist(), s['arr']['positions'][:, j].tolist())
            std = set(NetCDFOutput.standard_arrays) - {'longitude', 'latitude', 'depth'} - SKIP
            want = {n for n in s['arr'] if n != 'positions'} - SKIP
            if which == 'standard':
                want &= std
            elif which == 'most':
                want -= set(NetCDFOutput.usually_skipped_arrays)
            if names is not None:
                want = {n for n in want if n in names}
            for nm in sorted(want):
                check(nm in v, '%s: %s is missing', os.path.basename(f), nm)
                check(same(v[nm][i0:i1], s['arr'][nm]), '%s: %s of time %d: %r, the model had %r', os.path.basename(f), nm, i, np.asarray(v[nm][i0:i1]).tolist(), s['arr'][nm].tolist())
            have = set(v) - {'time', 'particle_count', 'longitude', 'latitude', 'depth'} - SKIP
            check(have <= want, '%s: arrays that were not asked for: %r', os.path.basename(f), sorted(have - want))
            if s['mb']:
                if g is None:
                    g = nc.groups['mass_balance'].variables
                    gts = netCDF4.num2date(g['time'][:], g['time'].units, calendar=g['time'].calendar, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
                    g = {k_: x[:] for k_, x in g.items()}
                gt = gts[i]
                check(gt == s['time'], '%s: time %d of the mass balance is %s, expected %s', os.path.basename(f), i, gt, s['time'])
                for key, val in s['mb'].items():
                    check(key in g and same(float(g[key][i]), float(val)), '%s: mass_balance %s of time %d: %r, the model had %r', os.path.basename(f), key, i, g[key][i] if key in g else None, val)
            i0 = i1
    # the reader of the package
    if not reader:
        return
    n = len(snaps)
    for i, s in enumerate(snaps):
        if n > 12 and i not in (0, 1, n // 2, n - 2, n - 1):
            continue
        for how in (dict(index=i), dict(index=i - len(snaps)), dict(time=s['time'])):
            d, mb = NetCDFOutput.read_data(f, which_data='all', **how)
            check(same(d['positions'], s['arr']['positions']), 'read_data(%r): positions differ', how)
            tt = d['current_time_stamp'].item()
            check((tt.year, tt.month, tt.day, tt.hour, tt.minute, tt.second) == s['time'].timetuple()[:6], 'read_data(%r): time %r, expected %r', how, tt, s['time'])
            for nm in d:
                if nm in s['arr'] and nm not in SKIP:
                    check(same(d[nm], s['arr'][nm]), 'read_data(%r): %s differs', how, nm)


def nc_file(d, name, o, unc, zipped):
    """paths of the two files, unpacked if need be"""
    a, b = os.path.join(d, name + '.nc'), os.path.join(d, name + '_uncertain.nc')
    if zipped:
        z = os.path.join(d, name + '.zip')
        check(os.path.exists(z), 'no %s.zip', name)
        to = os.path.join(d, 'unz')
        shutil.rmtree(to, ignore_errors=True)
        with zipfile.ZipFile(z) as zf:
            want = {name + '.nc'} | ({name + '_uncertain.nc'} if unc else set())
            check(set(zf.namelist()) == want, 'members of the archive: %r', zf.namelist())
            zf.extractall(to)
        check(not os.path.exists(a) and not os.path.exists(b), 'the files are still there next to the archive')
        a, b = os.path.join(to, name + '.nc'), os.path.join(to, name + '_uncertain.nc')
    return a, b


WORLDS = ['open', 'leave', 'land', 'late', 'empty', 'leave_w']


def nc_cases(tier):
    worlds = WORLDS
    for world in worlds:
        for unc in (False, True):
            for back in (False, True):
                if back and world.endswith('_w'):
                    continue
                for which in ('standard', 'most', 'all'):
                    for zipped in (False, True):
                        for out, zero, last in ([(None, True, True), (2, False, False)] if tier == 'quick' else
                                                list(itertools.product((None, 2, 3, 9), (True, False), (True, False)))):
                            if tier == 'quick' and which != 'all' and (zipped or out):
                                continue
                            for comp in ((True,) if tier == 'quick' else (True, False)):
                                for upto in ((None, 3) if tier == 'quick' else (None, 1, 2, 3, 4, 5)):
                                    if upto and (zipped or which != 'all'):
                                        continue
                                    yield world, unc, back, which, zipped, out, zero, last, comp, upto


def nc_run(case):
    world, unc, back, which, zipped, out, zero, last, comp, upto = case
    d = scratch_dir('c19')
    try:
        m = make(world, unc, back)
        o = NetCDFOutput(os.path.join(d, 'o.nc'), zip_output=zipped, which_data=which, compress=comp, surface_conc=None,
                         output_timestep=None if out is None else timedelta(seconds=out * STEP), output_zero_step=zero, output_last_step=last)
        m.outputters += o
        for r in range(2):
            m.rewind()
            s = go(m, upto)
            s = [s[i] for i in written(s, out, zero, last)]
            a, b = nc_file(d, 'o', o, unc, zipped)
            check_nc(a, s, which, 0, reader=r == 0)
            if unc:
                check_nc(b, s, which, 1, reader=r == 1)
            else:
                check(not os.path.exists(b), 'an uncertainty file of a run without uncertainty')
        return dict(states=2 * N, transitions=2 * N)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- histories: run, change something, run again
NCOPS = ['unc', 'back', 'name', 'which', 'zip', 'compress', 'spill', 'weather', 'partial', 'world', 'save', 'on']


def nchist_cases(depth):
    return itertools.product(NCOPS, repeat=depth)


def nchist_run(ops):
    import gnome.scripting as gs_
    d = scratch_dir('c19')
    try:
        cur = dict(unc=False, back=False, name='o', which='standard', zip=False, compress=True, on=True)
        m = make('leave', False, cont=False)
        o = NetCDFOutput(os.path.join(d, 'o.nc'), surface_conc=None)
        m.outputters += o
        m.rewind()
        for i, op in enumerate(('nothing',) + tuple(ops)):
            if op == 'unc':
                cur['unc'] = not cur['unc']
                m.uncertain = cur['unc']
            elif op == 'back':
                cur['back'] = not cur['back']
                m.run_backwards = cur['back']
                m.rewind()
            elif op == 'name':
                cur['name'] += 'x'
                m.rewind()
                o.filename = os.path.join(d, cur['name'] + ('.zip' if cur['zip'] else '.nc'))
            elif op == 'which':
                cur['which'] = {'standard': 'all', 'all': 'most', 'most': 'standard'}[cur['which']]
                m.rewind()
                o.which_data = cur['which']
            elif op == 'zip':
                cur['zip'] = not cur['zip']
                m.rewind()
                m.outputters.remove(o.id)
                o = NetCDFOutput(os.path.join(d, cur['name'] + '.nc'), zip_output=cur['zip'], which_data=cur['which'], compress=cur['compress'], surface_conc=None, on=cur['on'])
                m.outputters += o
            elif op == 'compress':
                cur['compress'] = not cur['compress']
                m.rewind()
                o.compress = cur['compress']
            elif op == 'spill':
                if len(m.spills) > 1:
                    m.spills.remove(m.spills[0].id)
                else:
                    m.spills += gs.point_line_spill(num_elements=3, start_position=(0, 0, 0), release_time=T0, amount=1, units='kg', substance=m.spills[0].substance)
            elif op == 'weather':
                if cur['back'] or len(m.weatherers) or not len(m.spills):
                    if len(m.weatherers):
                        del m.weatherers[-1]
                        m.rewind()
                else:
                    w, wat = constant_wind(6, 270, 'm/s'), Water(288.)
                    m.environment += [w, wat]
                    m.spills[0].substance = oil()
                    for s in m.spills:
                        s.substance = m.spills[0].substance
                    m.weatherers += Evaporation(water=wat, wind=w)
                    m.rewind()
            elif op == 'world':
                m.map = band_map(.1) if not isinstance(m.map, GnomeMap) or type(m.map) is GnomeMap else GnomeMap()
                m.rewind()
            elif op == 'on':
                m.rewind()
                cur['on'] = not cur['on']
                o.on = cur['on']
            elif op == 'save':
                m.rewind()
                f = o.save(d)
                f = f[1] if isinstance(f, tuple) else f
                o2 = NetCDFOutput.load(f)
                os.remove(f)
                o2.filename = os.path.join(d, os.path.basename(o2.filename))
                m.outputters.remove(o.id)
                o = o2
                m.outputters += o
                m.rewind()
            if cur['back'] and len(m.weatherers):
                return dict(states=i, transitions=i)
            if op == 'partial':
                m.rewind()
                s = go(m, 3)
                z = False
            else:
                m.rewind()
                s = go(m)
                z = cur['zip']
            if not cur['on']:
                continue
            a, b = nc_file(d, cur['name'], o, cur['unc'], z)
            check_nc(a, s, cur['which'], 0, reader=False)
            if cur['unc']:
                check_nc(b, s, cur['which'], 1, reader=False)
            if op == 'partial':
                m.rewind()
        return dict(states=(len(ops) + 1) * N, transitions=(len(ops) + 1) * N)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- the other formats
def other_cases(tier):
    for kind in ('geojson', 'spilljson', 'binary', 'kmz', 'shape', 'weathering', 'budget', 'memory'):
        for world in WORLDS:
            for unc in (False, True):
                if kind == 'memory' and unc:
                    continue
                for back in (False, True):
                    if back and world.endswith('_w'):
                        continue
                    for zipped in ((False, True) if kind in ('binary', 'shape') else (False,)):
                        for out, zero, last in ([(None, True, True), (2, False, False)] if tier == 'quick' else list(itertools.product((None, 2, 3), (True, False), (True, False)))):
                            for upto in ((None,) if tier == 'quick' or kind == 'shape' else (None, 1, 3)):
                                yield kind, world, unc, back, zipped, out, zero, last, upto


def check_features(fc, s, sc_type, what, rnd=4):
    arr = s['arr']
    feats = [f for f in fc['features'] if f['properties']['sc_type'] == sc_type]
    check(len(feats) == s['n'], '%s: %d %s features, the model had %d elements', what, len(feats), sc_type, s['n'])
    for i, f in enumerate(feats):
        check(f['id'] == i and f['geometry']['type'] == 'Point', '%s: feature %d: %r', what, i, f)
        xy = [float(x) for x in f['geometry']['coordinates'][:2]]
        exp = arr['positions'][i, :2].round(rnd)
        check(np.allclose(xy, exp, atol=1e-9), '%s: %s element %d at %r, the model had %r', what, sc_type, i, xy, exp.tolist())
        p = f['properties']
        check(p['status_code'] == int(arr['status_codes'][i]) and p['spill_num'] == int(arr['spill_num'][i]) and abs(p['mass'] - float(arr['mass'][i])) <= 0.5001 * 10 ** -rnd,
              '%s: %s element %d: %r, the model had status %r spill %r mass %r', what, sc_type, i, p, arr['status_codes'][i], arr['spill_num'][i], arr['mass'][i])


def other_run(case):
    kind, world, unc, back, zipped, out, zero, last, upto = case
    top = d = scratch_dir('c19')
    k = dict(output_timestep=None if out is None else timedelta(seconds=out * STEP), output_zero_step=zero, output_last_step=last)
    try:
        m = make(world, unc, back)
        if kind == 'geojson':
            o = TrajectoryGeoJsonOutput(output_dir=os.path.join(d, 'gj'), **k)
        elif kind == 'spilljson':
            o = SpillJsonOutput(_additional_data=['age', 'depth'], **k)
        elif kind == 'binary':
            o = BinaryOutput(os.path.join(d, 'bin.dat'), zip_output=zipped, **k)
        elif kind == 'kmz':
            o = KMZOutput(os.path.join(d, 'k.kmz'), **k)
        elif kind == 'shape':
            o = ShapeOutput(os.path.join(d, 's'), zip_output=zipped, surface_conc=None, include_uncertain_boundary=False, **k)
        elif kind == 'weathering':
            o = WeatheringOutput(output_dir=os.path.join(d, 'w'), **k)
        elif kind == 'budget':
            zero = last = True
            o = OilBudgetOutput(filename=os.path.join(d, 'b.csv'), output_timestep=k['output_timestep'])
        else:
            o = MemoryOutputter(**k)
        m.outputters += o
        for r in range(2):
            m.rewind()
            if r == 1 and kind in ('binary', 'kmz', 'shape', 'budget'):
                # the second run goes to another directory
                base = os.path.basename(str(o.filename))
                d = os.path.join(d, 'second')
                os.mkdir(d)
                o.filename = os.path.join(d, base)
            infos = []
            s = go(m, upto, infos)
            w = written(s, out, zero, last)
            stopped = upto is not None
            if stopped and kind in ('kmz', 'shape', 'budget'):
                m.post_model_run()
            READ[kind](d, o, s, w, infos, unc, zipped, stopped)
        return dict(states=2 * N, transitions=2 * N)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def rd_geojson(d, o, s, w, infos, unc, zipped, stopped):
    names = sorted(os.listdir(os.path.join(d, 'gj')))
    check(len(names) == len(w), 'files %r, expected those of steps %r', names, w)
    for i in range(len(s)):
        info = infos[i].get('TrajectoryGeoJsonOutput')
        check((info is not None) == (i in w), 'step %d returned %r', i, info is not None)
        if i not in w:
            continue
        f = os.path.join(d, 'gj', 'geojson_%06d.geojson' % i)
        check(os.path.exists(f) and info['output_filename'] == f, 'file of step %d: %r', i, info['output_filename'])
        with open(f) as fh:
            fc = json.load(fh)
        check(info['time_stamp'] == s[i][0]['time'].isoformat(), 'time stamp of step %d: %r', i, info['time_stamp'])
        for c in s[i]:
            st = 'uncertain' if c['unc'] else 'forecast'
            check_features(fc, c, st, 'file of step %d' % i)
            check_features(info['uncertain' if c['unc'] else 'certain'], c, st, 'returned at step %d' % i)
        check(len(fc['features']) == sum(c['n'] for c in s[i]), 'file of step %d has %d features', i, len(fc['features']))


def rd_spilljson(d, o, s, w, infos, unc, zipped, stopped):
    for i in range(len(s)):
        info = infos[i].get('SpillJsonOutput')
        check((info is not None) == (i in w), 'step %d returned %r', i, info is not None)
        if info is None:
            continue
        check(info['step_num'] == i and info['time_stamp'] == s[i][0]['time'].isoformat(), 'step_num/time of step %d: %r', i, (info['step_num'], info['time_stamp']))
        for c in s[i]:
            e = info['uncertain' if c['unc'] else 'certain']
            check(len(e) == 1, 'step %d: %d sets', i, len(e))
            e, a = e[0], c['arr']
            check(e['length'] == c['n'] and all(len(e[x]) == c['n'] for x in ('longitude', 'latitude', 'status', 'mass', 'spill_num', 'age', 'depth')), 'step %d: lengths', i)
            ok = (np.allclose(e['longitude'], a['positions'][:, 0].round(5), atol=1e-9) and np.allclose(e['latitude'], a['positions'][:, 1].round(5), atol=1e-9) and
                  e['status'] == a['status_codes'].tolist() and np.allclose(e['mass'], a['mass'].round(4), atol=1e-9) and e['spill_num'] == a['spill_num'].tolist() and
                  np.allclose(e['age'], a['age'], atol=1e-9) and np.allclose(e['depth'], a['positions'][:, 2], atol=1e-9))
            check(ok, 'step %d: data returned differ from the model: %r', i, e)
        check(bool(info['uncertain']) == unc, 'step %d: uncertain part %r', i, bool(info['uncertain']))


HDR = np.dtype([('name', 'S10'), ('day', '>i2'), ('month', '>i2'), ('year', '>i2'), ('hour', '>i2'), ('minute', '>i2'), ('t', '>f4'), ('v', '>f4'), ('n', '>i4')])
LE = np.dtype([('Lat', '>f4'), ('Lon', '>f4'), ('Release_time', '>f4'), ('AgeWhenReleased', '>f4'), ('BeachHeight', '>f4'), ('nMap', '>i4'), ('pollutant', '>i4'), ('WindKey', '>i4')])


def rd_binary(d, o, s, w, infos, unc, zipped, stopped):
    files = {}
    if zipped and not stopped:
        z = os.path.join(d, 'bin.zip')
        check(os.path.exists(z), 'no archive')
        with zipfile.ZipFile(z) as zf:
            for n in zf.namelist():
                files[n] = zf.read(n)
        left = [n for n in os.listdir(d) if 'FORCST' in n or 'UNCRTN' in n]
        check(not left, 'files left next to the archive: %r', left)
    else:
        for n in os.listdir(d):
            if 'FORCST' in n or 'UNCRTN' in n:
                with open(os.path.join(d, n), 'rb') as fh:
                    files[n] = fh.read()
    want = set()
    for j, i in enumerate(w):
        for c in s[i]:
            n = 'bin%s.%03d' % ('UNCRTN' if c['unc'] else 'FORCST', j)
            want.add(n)
            check(n in files, '%s is missing (there are %r)', n, sorted(files))
            raw = files[n]
            h = np.frombuffer(raw[:HDR.itemsize], dtype=HDR)[0]
            les = np.frombuffer(raw[HDR.itemsize:], dtype=LE)
            t = c['time']
            check((h['day'], h['month'], h['year'], h['hour'], h['minute'], h['n']) == (t.day, t.month, t.year, t.hour, t.minute, c['n']), '%s: header %r for %r', n, h, (t, c['n']))
            check(len(les) == c['n'], '%s: %d elements, the model had %d', n, len(les), c['n'])
            a = c['arr']
            check(np.array_equal(les['Lon'].astype('f4'), (-a['positions'][:, 0]).astype('f4')) and np.array_equal(les['Lat'].astype('f4'), a['positions'][:, 1].astype('f4')),
                  '%s: positions %r, the model had %r', n, list(zip(les['Lon'].tolist(), les['Lat'].tolist())), a['positions'].tolist())
            check(np.array_equal(les['BeachHeight'] == -50, a['status_codes'] == oil_status.on_land.value), '%s: beached %r, status %r', n, les['BeachHeight'].tolist(), a['status_codes'].tolist())
            ref = datetime(t.year - t.year % 4, 1, 1)
            rel = (t - ref).total_seconds() / 3600. - a['age'] / 3600.
            check(np.allclose(les['Release_time'], rel, atol=.01), '%s: release times %r, the model %r', n, les['Release_time'].tolist(), rel.tolist())
    check(set(files) == want, 'files %r, expected %r', sorted(files), sorted(want))


def rd_kmz(d, o, s, w, infos, unc, zipped, stopped):
    f = os.path.join(d, 'k.kmz')
    check(os.path.exists(f), 'no kmz file')
    import xml.etree.ElementTree as ET
    with zipfile.ZipFile(f) as zf:
        check(sorted(zf.namelist()) == ['dot.png', 'k.kml', 'x.png'], 'members %r', zf.namelist())
        root = ET.fromstring(zf.read('k.kml'))
    ns = '{http://www.opengis.net/kml/2.2}'
    folders = list(root.iter(ns + 'Folder'))
    exp = [(s[i], c) for i in w for c in s[i]]
    check(len(folders) == len(exp), '%d folders, expected %d', len(folders), len(exp))
    for fo, (_, c) in zip(folders, exp):
        name = fo.find(ns + 'name').text
        check(name == c['time'].isoformat() + ':' + ('Uncertainty' if c['unc'] else 'Best Guess'), 'folder %r for %r', name, c['time'])
        pm = fo.findall(ns + 'Placemark')
        check(len(pm) == 2, '%d placemarks', len(pm))
        for p, st in zip(pm, (oil_status.in_water.value, oil_status.on_land.value)):
            got = [tuple(float(x) for x in q.text.split(',')[:2]) for q in p.iter(ns + 'coordinates')]
            want = [tuple(x[:2]) for x in c['arr']['positions'][c['arr']['status_codes'] == st]]
            check(len(got) == len(want) and np.allclose(got, want, atol=6e-7) if want else not got, '%s: coordinates %r, the model had %r', name, got, want)
            check(p.find(ns + 'TimeSpan').find(ns + 'begin').text == c['time'].isoformat(), 'time span of %s', name)


def rd_shape(d, o, s, w, infos, unc, zipped, stopped):
    import geopandas as gpd
    sets = [('certain', 0)] + ([('uncertain', 1)] if unc else [])
    for nm, j in sets:
        if not zipped and not unc:
            f = os.path.join(d, 's.shp')
        elif not unc:
            f = os.path.join(d, 's.zip')
        else:
            z = os.path.join(d, 's.zip')
            check(os.path.exists(z), 'no s.zip (there are %r)', os.listdir(d))
            to = os.path.join(d, 'unz')
            shutil.rmtree(to, ignore_errors=True)
            with zipfile.ZipFile(z) as zf:
                zf.extractall(to)
            g = [x for x in sorted(os.listdir(to)) if x.startswith('s_' + nm) and 'boundary' not in x and x.endswith('.zip' if zipped else '.shp')]
            check(len(g) == 1, 'members of the bundle: %r', os.listdir(to))
            f = os.path.join(to, g[0])
        check(os.path.exists(f), '%s is missing (there are %r)', os.path.basename(f), sorted(os.listdir(d)))
        g = gpd.read_file(f, engine='pyogrio')
        exp = [s[i][j] for i in w]
        tot = sum(c['n'] for c in exp)
        check(len(g) == tot, '%s: %d points, the model had %d elements', nm, len(g), tot)
        r = 0
        for c in exp:
            for q in range(c['n']):
                row, a = g.iloc[r], c['arr']
                ok = (row['LE_id'] == a['id'][q] and row['Spill_id'] == a['spill_num'][q] and abs(row['Mass'] - a['mass'][q]) < 1e-6 and row['StatusCode'] == a['status_codes'][q] and
                      abs(row['Depth'] - a['positions'][q, 2]) < 1e-6 and abs(row.geometry.x - a['positions'][q, 0]) < 1e-9 and abs(row.geometry.y - a['positions'][q, 1]) < 1e-9 and
                      abs(row['Age'] - a['age'][q]) < 1e-6 and str(row['Time'])[:19].replace(' ', 'T') == c['time'].strftime('%Y-%m-%dT%H:%M:%S'))
                check(ok, '%s: point %d is %r, the model had id %r at %r at %r', nm, r, dict(row), a['id'][q], a['positions'][q].tolist(), c['time'])
                r += 1


def rd_weathering(d, o, s, w, infos, unc, zipped, stopped):
    names = sorted(os.listdir(os.path.join(d, 'w')))
    check(names == ['mass_balance_%06d.json' % i for i in w], 'files %r, expected steps %r', names, w)
    for i in w:
        with open(os.path.join(d, 'w', 'mass_balance_%06d.json' % i)) as fh:
            j = json.load(fh)
        info = infos[i]['WeatheringOutput']
        c = s[i][0]
        for src in (j, info):
            check(src['time_stamp'] == c['time'].isoformat(), 'time of step %d: %r', i, src['time_stamp'])
            for key, val in c['mb'].items():
                check(key in src and abs(float(src[key]) - float(val)) <= 1e-9 * max(1, abs(float(val))), 'step %d: %s is %r, the model had %r', i, key, src.get(key), val)


def rd_budget(d, o, s, w, infos, unc, zipped, stopped):
    with open(os.path.join(d, 'b.csv')) as fh:
        rows = list(csv.reader(fh))
    check(len(rows) == 1 + len(w), '%d rows, expected %d steps', len(rows) - 1, len(w))
    cols = [None, None, 'amount_released', 'evaporated', 'natural_dispersion', 'sedimentation', 'beached', 'floating', 'off_maps']
    for row, i in zip(rows[1:], w):
        c = s[i][0]
        check(row[0] == c['time'].strftime('%Y-%m-%d %H:%M') and abs(float(row[1]) * 3600 - (c['time'] - T0).total_seconds()) < 1, 'step %d: time columns %r', i, row[:2])
        for x, key in zip(row, cols):
            if key is None:
                continue
            if key in c['mb']:
                v = float(c['mb'][key])
                check(x.strip() and abs(float(x) - v) <= 1e-6 * max(abs(v), 1e-9), 'step %d: %s is %r, the model had %r', i, key, x, v)
            else:
                check(not x.strip(), 'step %d: %s is %r, the model has none', i, key, x)


def rd_memory(d, o, s, w, infos, unc, zipped, stopped):
    b = o.data_buffer.certain
    check(len(b) == len(w), '%d entries, expected %d', len(b), len(w))
    for e, i in zip(b, w):
        c = s[i][0]
        check(e['time'] == c['time'], 'time %r', e['time'])
        for nm in ('mass', 'positions', 'age', 'status_codes'):
            check(same(e[nm], c['arr'][nm]), 'step %d: %s is %r, the model had %r', i, nm, e[nm].tolist(), c['arr'][nm].tolist())


READ = dict(geojson=rd_geojson, spilljson=rd_spilljson, binary=rd_binary, kmz=rd_kmz, shape=rd_shape, weathering=rd_weathering, budget=rd_budget, memory=rd_memory)


# ---- looking up a time in a file
def lookup_cases(tier):
    for back in (False, True):
        for out in (None, 2):
            for off in range(-2 * STEP, (N + 1) * STEP, 150 if tier == 'quick' else 50):
                yield back, out, off


_LK = {}


def lookup_run(case):
    back, out, off = case
    if (back, out) not in _LK:
        d = scratch_dir('c19')
        m = make('leave', False, back)
        m.outputters += NetCDFOutput(os.path.join(d, 'o.nc'), surface_conc=None, output_timestep=None if out is None else timedelta(seconds=out * STEP))
        m.rewind()
        s = go(m)
        _LK[back, out] = (os.path.join(d, 'o.nc'), [s[i] for i in written(s, out, True, True)])
    f, s = _LK[back, out]
    t = T0 + (-1 if back else 1) * timedelta(seconds=off)
    dist = [abs((x[0]['time'] - t).total_seconds()) for x in s]
    near = [i for i, x in enumerate(dist) if x == min(dist)]
    dd, _ = NetCDFOutput.read_data(f, time=t, which_data='all')
    check(any(same(dd['positions'], s[i][0]['arr']['positions']) and same(dd['id'], s[i][0]['arr']['id']) for i in near), 'data returned for %s are not those of the closest time %s', t, [s[i][0]['time'] for i in near])
    return dict(states=1, transitions=1)


# ---- the surface concentration in the files
def kde(s):
    """mass per square metre at every element: gaussian kernels of all elements of its spill that are no more than an hour older, Scott's rule"""
    a = s['arr']
    out = np.zeros(s['n'])
    for num in set(a['spill_num'].tolist()):
        ix = np.where(a['spill_num'] == num)[0]
        age = a['age'][ix]
        for i in ix:
            b = int((a['age'][i] - age.min()) // 3600)
            use = ix[age < age.min() + (b + 1) * 3600]
            p = a['positions'][use]
            if len(set(p[:, 0])) < 3 or len(set(p[:, 1])) < 3:
                continue
            m = a['mass'][use].astype(float)
            tot = m.sum()
            w = m / tot if tot > 0 and len(set(m)) > 1 else np.full(len(m), 1. / len(m))
            xy = (p[:, :2] - p[:, :2].min(0)) * 111325
            xy[:, 0] *= np.cos(np.radians(p[:, 1].min()))
            neff = 1. / (w ** 2).sum()
            d = xy - (w[:, None] * xy).sum(0)
            cov = (w[:, None] * d).T @ d / (1 - (w ** 2).sum()) * neff ** (-1. / 3)
            if np.linalg.cond(cov) > 1e12:
                out[i] = np.nan
                continue
            at = xy[list(use).index(i)] - xy
            out[i] = (tot if tot > 0 else len(m)) * (w * np.exp(-.5 * np.einsum('ij,jk,ik->i', at, np.linalg.inv(cov), at))).sum() / (2 * np.pi * np.sqrt(np.linalg.det(cov)))
    return out


def conc_cases(tier):
    for world in ('open', 'leave', 'late', 'leave_w', 'land'):
        for unc in (False, True):
            for back in (False, True):
                if back and world.endswith('_w'):
                    continue
                for step in (900, 2700, 7200):
                    for out in (None, 2):
                        yield world, unc, back, step, out, 'netcdf'
                        if tier != 'quick' or step == 2700:
                            yield world, unc, back, step, out, 'shape'


def conc_run(case):
    global STEP
    world, unc, back, step, out, kind = case
    keep, STEP = STEP, step
    d = scratch_dir('c19')
    try:
        m = make(world, unc, back)
        k = dict(output_timestep=None if out is None else timedelta(seconds=out * STEP))
        if kind == 'netcdf':
            m.outputters += NetCDFOutput(os.path.join(d, 'o.nc'), which_data='all', surface_conc='kde', **k)
        else:
            m.outputters += ShapeOutput(os.path.join(d, 's'), zip_output=False, surface_conc='kde', include_uncertain_boundary=False, **k)
        m.rewind()
        s = go(m)
        s = [s[i][0] for i in written(s, out, True, True)]
        if kind == 'netcdf':
            with netCDF4.Dataset(os.path.join(d, 'o.nc')) as nc:
                got = np.asarray(nc.variables['surface_concentration'][:])
        else:
            import geopandas as gpd
            f = os.path.join(d, 's.shp')
            if unc:
                with zipfile.ZipFile(os.path.join(d, 's.zip')) as zf:
                    zf.extractall(os.path.join(d, 'unz'))
                f = [os.path.join(d, 'unz', x) for x in os.listdir(os.path.join(d, 'unz')) if x.startswith('s_certain') and x.endswith('.shp')][0]
            g = gpd.read_file(f, engine='pyogrio')
            got = np.asarray([float(x) for x in g['Surf_Conc']])
            ids = np.asarray([int(x) for x in g['LE_id']])
        check(len(got) == sum(x['n'] for x in s), '%d values for %d elements', len(got), sum(x['n'] for x in s))
        i0 = some = 0
        for k, x in enumerate(s):
            want = kde(x)
            g = got[i0:i0 + x['n']]
            if kind == 'shape':
                # the points of one time may come in any order: matched by their ids
                where = dict(zip(ids[i0:i0 + x['n']].tolist(), g))
                check(sorted(where) == sorted(x['arr']['id'].tolist()), 'time %d: ids %r, expected %r', k, sorted(where), sorted(x['arr']['id'].tolist()))
                g = np.asarray([where[i] for i in x['arr']['id'].tolist()])
            i0 += x['n']
            ok = np.isnan(want) | np.isclose(g, want, rtol=1e-6 if kind == 'netcdf' else 1e-5, atol=1e-9 * (abs(want).max() if len(want) else 1))
            check(ok.all(), 'time %d: surface concentration %r, expected %r', k, g.tolist(), want.tolist())
            some += int((want > 0).sum())
        return dict(states=len(s), transitions=len(s), trivial=not some)
    finally:
        STEP = keep
        shutil.rmtree(d, ignore_errors=True)


# ---- long runs, many elements, other steps
def sized_cases(tier):
    big = [(6, 300, 900), (60, 1, 900), (26, 10, 3600), (9, 2, 86400), (14, 1, 60)]
    if tier != 'quick':
        big += [(300, 3, 900), (6, 4000, 900), (120, 40, 3600), (40, 1, 86400)]
    for n in (1, 2):
        for world in WORLDS:
            for unc in (False, True):
                for back in (False, True):
                    if back and world.endswith('_w'):
                        continue
                    for zipped in (False, True):
                        yield n, 1, 900, 'nc', (world, unc, back, 'all', zipped, None, True, True, True, None)
                        for kind in ('geojson', 'spilljson', 'binary', 'kmz', 'shape', 'weathering', 'budget', 'memory'):
                            if not (zipped and kind not in ('binary', 'shape') or kind == 'memory' and unc):
                                yield n, 1, 900, 'other', (kind, world, unc, back, zipped, None, True, True, None)
    for n, mult, step in big:
        for world in ('open', 'leave', 'late'):
            for unc in (False, True):
                if mult > 100 and unc and tier == 'quick' or (mult > 100 and world == 'late'):
                    continue
                for out, zero, last in ((None, True, True), (4, True, True), (7, False, False)):
                    for back in (False, True):
                        if back and world != 'open':
                            continue
                        yield n, mult, step, 'nc', (world, unc, back, 'all', False, out, zero, last, True, None)
                        if out or world == 'leave':
                            for kind in ('geojson', 'spilljson', 'binary', 'kmz', 'shape', 'weathering', 'budget', 'memory'):
                                if kind == 'memory' and unc or (kind in ('geojson', 'kmz', 'shape', 'spilljson') and mult > 50):
                                    continue
                                if tier == 'quick' and n > 10 and (world == 'late' or back or unc or out == 4):
                                    continue
                                yield n, mult, step, 'other', (kind, world, unc, back, False, out, zero, last, None)


def sized_run(case):
    global N, MULT, STEP
    n, mult, step, what, sub = case
    keep = N, MULT, STEP
    N, MULT, STEP = n, mult, step
    try:
        return (nc_run if what == 'nc' else other_run)(sub)
    finally:
        N, MULT, STEP = keep


def parts(tier):
    q = tier == 'quick'
    return [
        Part('netcdf', lambda: nc_cases(tier), nc_run, rule='kind of run x uncertainty x direction x which_data x zip x cadence x step at which the run stops; two runs each', chunk=2),
        Part('netcdf_histories', lambda: nchist_cases(2 if q else 3), nchist_run, rule='all sequences of changes between runs up to the depth, the files compared after every run', chunk=2),
        Part('formats', lambda: other_cases(tier), other_run, rule='every other format x kind of run x uncertainty x direction x zip x cadence', chunk=2),
        Part('sizes', lambda: sized_cases(tier), sized_run, rule='long runs, many elements, other steps x format x cadence', chunk=1),
        Part('concentration', lambda: conc_cases(tier), conc_run, rule='kind of run x uncertainty x direction x step x cadence x format: the kernel estimate of every element', chunk=2),
        Part('lookup', lambda: lookup_cases(tier), lookup_run, rule='read_data at every time of a grid around the run', chunk=16),
    ]

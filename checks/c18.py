"""C18  outputters write exactly the steps their settings ask for."""
import csv
import glob
import itertools
import os
import shutil

import netCDF4
import numpy as np

from vp.core import Part, check, maximal_seqs, scratch_dir
from vp.g import *
from gnome.outputters import Outputter, NetCDFOutput, TrajectoryGeoJsonOutput, WeatheringOutput, SpillJsonOutput, BinaryOutput, ShapeOutput, KMZOutput, Renderer, OilBudgetOutput
from gnome.outputters.memory_outputter import MemoryOutputter

PROPERTY = 'C18'
LEVEL = 'model_checking'
NOTE = 'every combination of the outputter settings of the stated grid is attached to the real Model and the model is really run; the steps on which the outputter wrote are compared with the closed form of the documentation'
ASSUMPTIONS = ['output_start_time at or after the start of the run (in its direction)',
               'where the documentation leaves open whether output_timestep counts from output_start_time or from the first step written, combinations on which the two differ are checked only up to that freedom']

STEP = 900
N = 7                                   # steps 0..6


class Recorder(Outputter):
    """the smallest outputter a user can write: on and _write_step are all it looks at"""

    def __init__(self, **kw):
        super(Recorder, self).__init__(**kw)
        self.log = []

    def write_output(self, step_num, islast_step=False):
        super(Recorder, self).write_output(step_num, islast_step)
        if self.on is False or not self._write_step:
            return None
        self.log.append(step_num)
        return {'step_num': step_num}


def expected(out, zero, last, single, start, on=True, n=N, step=STEP):
    """set of steps that must be written, set of steps that may be"""
    must, may = set(), set()
    if not on:
        return must, may
    if zero or (single and start in (None, 0)):
        must.add(0)
    first = None
    for k in range(1, n):
        t = k * step
        w = None
        if start not in (None, 0):
            if t < start:
                w = False
            elif first is None:
                first, w = t, True
            elif single:
                w = False
            elif out is None:
                w = True
            else:
                a = (t - first) // out > (t - step - first) // out
                b = (t - start) // out > (t - step - start) // out
                w = a if a == b else None
        elif single:
            w = False
        elif out is None:
            w = True
        else:
            w = t // out > (t - step) // out
        if w is None:
            may.add(k)
        elif w:
            must.add(k)
    if last:
        must.add(n - 1)
    return must, may - must


def check_steps(got, out, zero, last, single, start, on=True, n=N, step=STEP, what=''):
    must, may = expected(out, zero, last, single, start, on, n, step)
    check(list(got) == sorted(set(got)), '%ssteps written out of order or twice: %r', what, list(got))
    g = set(got)
    check(must <= g and g <= must | may, '%swrote steps %r, expected %r (free: %r)', what, sorted(g), sorted(must), sorted(may))


def make(back=False, uncertain=False, n=N, step=STEP, spill=True):
    m = Model(start_time=T0, duration=timedelta(seconds=(n - 1) * step), time_step=timedelta(seconds=step), uncertain=uncertain, run_backwards=back, name='m')
    m.movers += SimpleMover((0.3, 0.1, 0))
    if spill:
        m.spills += gs.point_line_spill(num_elements=2, start_position=(0, 0, 0), release_time=T0)
    return m


def kw(out, zero, last, single, start, back=False, on=True):
    s = -1 if back else 1
    return dict(output_timestep=None if out is None else timedelta(seconds=out), output_zero_step=zero, output_last_step=last, output_single_step=single,
                output_start_time=None if start is None else T0 + s * timedelta(seconds=start), on=on)


def run_all(m):
    for _ in m:
        pass


OUT = [None, 900, 1800, 2000, 2700, 450, 1000, 10000]
OUT_T = OUT + [1, 3600, 899, 901, 5400]
START = [None, 0, 900, 1800, 2250, 4500, 5400]
START_T = START + [1, 899, 901, 2700, 3600, 5399, 99999]


def grid_cases(outs, starts, steps=((N, STEP),)):
    for n, step in steps:
        for back in (False, True):
            for out in outs:
                for start in starts:
                    for zero, last, single in itertools.product((False, True), repeat=3):
                        yield (n, step, back, out, zero, last, single, start)


def grid_run(case):
    n, step, back, out, zero, last, single, start = case
    m = make(back, n=n, step=step)
    o = Recorder(**kw(out, zero, last, single, start, back))
    off = Recorder(**kw(out, zero, last, single, start, back, on=False))
    m.outputters += [o, off]
    for i in range(2):
        m.rewind()
        o.log, off.log = [], []
        run_all(m)
        check_steps(o.log, out, zero, last, single, start, n=n, step=step, what='run %d: ' % i)
        check(off.log == [], 'switched off, but wrote %r', off.log)
    return dict(states=4 * n, transitions=2 * n)


# ---- every outputter class, through what it returns and what it leaves on disk
def mk_outputter(kind, d, k):
    if kind == 'netcdf':
        return NetCDFOutput(os.path.join(d, 'o.nc'), zip_output=False, **k)
    if kind == 'netcdf_zip':
        return NetCDFOutput(os.path.join(d, 'o.nc'), zip_output=True, **k)
    if kind == 'shape_zip':
        return ShapeOutput(os.path.join(d, 's'), zip_output=True, **k)
    if kind == 'binary_zip':
        return BinaryOutput(os.path.join(d, 'bin'), zip_output=True, **k)
    if kind == 'geojson':
        return TrajectoryGeoJsonOutput(output_dir=os.path.join(d, 'gj'), **k)
    if kind == 'weathering':
        return WeatheringOutput(output_dir=os.path.join(d, 'w'), **k)
    if kind == 'spilljson':
        return SpillJsonOutput(**k)
    if kind == 'memory':
        return MemoryOutputter(**k)
    if kind == 'renderer':
        return Renderer(output_dir=os.path.join(d, 'r'), image_size=(40, 40), formats=['png'], **k)
    if kind == 'budget':
        return OilBudgetOutput(filename=os.path.join(d, 'b.csv'), **k)
    if kind == 'shape':
        return ShapeOutput(os.path.join(d, 's'), zip_output=False, **k)
    if kind == 'kmz':
        return KMZOutput(os.path.join(d, 'k.kmz'), **k)
    if kind == 'binary':
        return BinaryOutput(os.path.join(d, 'bin'), zip_output=False, **k)
    raise KeyError(kind)


RETURNING = {'netcdf_zip': 'NetCDFOutput', 'shape_zip': 'ShapeOutput', 'binary_zip': 'BinaryOutput', 'netcdf': 'NetCDFOutput', 'geojson': 'TrajectoryGeoJsonOutput', 'weathering': 'WeatheringOutput', 'spilljson': 'SpillJsonOutput', 'memory': 'MemoryOutputter',
             'renderer': 'Renderer', 'shape': 'ShapeOutput', 'kmz': 'KMZOutput', 'binary': 'BinaryOutput'}


def on_disk(kind, d, back, step=STEP):
    """steps found in the files, or None if the kind leaves none that tell"""
    if kind == 'netcdf':
        f = os.path.join(d, 'o.nc')
        if not os.path.exists(f):
            return []
        with netCDF4.Dataset(f) as nc:
            t = nc.variables['time']
            return [int(round((x - T0).total_seconds() / step * (-1 if back else 1))) for x in netCDF4.num2date(t[:], t.units, calendar=t.calendar, only_use_cftime_datetimes=False, only_use_python_datetimes=True)]
    if kind == 'geojson':
        return sorted(int(os.path.basename(x).split('_')[1].split('.')[0]) for x in glob.glob(os.path.join(d, 'gj', '*.geojson')))
    if kind == 'weathering':
        return sorted(int(os.path.basename(x).split('_')[2].split('.')[0]) for x in glob.glob(os.path.join(d, 'w', '*.json')))
    if kind == 'renderer':
        return sorted(int(os.path.basename(x).split('_')[1].split('.')[0]) for x in glob.glob(os.path.join(d, 'r', 'foreground_*.png')))
    if kind == 'budget':
        f = os.path.join(d, 'b.csv')
        if not os.path.exists(f):
            return []
        with open(f) as fh:
            rows = list(csv.reader(fh))
        return [int(round(float(r[1]) * 3600 / step * (-1 if back else 1))) for r in rows[1:]]
    return None


KINDS = ['netcdf', 'geojson', 'weathering', 'spilljson', 'memory', 'renderer', 'budget', 'shape', 'kmz', 'binary', 'netcdf_zip', 'shape_zip', 'binary_zip']


def kinds_cases(tier):
    outs = [None, 1800, 2000] if tier == 'quick' else [None, 900, 1800, 2000, 10000]
    starts = [None, 2250] if tier == 'quick' else [None, 0, 1800, 2250, 99999]
    flags = [(True, True, False), (False, False, False), (False, True, False), (True, False, True), (False, False, True)] if tier == 'quick' else list(itertools.product((False, True), repeat=3))
    for kind in KINDS:
        for back in (False, True):
            for on in (True, False):
                for out in outs:
                    for start in starts:
                        for z, l, s in flags:
                            if not on and (out, start) != (outs[0], starts[0]):
                                continue
                            if kind == 'budget':            # these are fixed for the budget table
                                if (z, l, s) != (True, True, False) or start is not None:
                                    continue
                            yield (kind, back, on, out, z, l, s, start)


def short_cases():
    for n in (1, 2):
        for kind in KINDS:
            for back in (False, True):
                for on in (True, False):
                    for z, l, s in [(True, True, False)] if kind == 'budget' else list(itertools.product((False, True), repeat=3)):
                        yield (kind, back, on, None, z, l, s, None, n)


def kinds_run(case):
    import contextlib
    import io
    kind, back, on, out, zero, last, single, start = case[:8]
    n = case[8] if len(case) > 8 else N
    d = scratch_dir('c18')
    try:
        k = kw(out, zero, last, single, start, back, on)
        if kind == 'budget':
            k = dict(output_timestep=k['output_timestep'], on=on)
        m = make(back, n=n)
        o = mk_outputter(kind, d, k)
        m.outputters += o
        for i in range(2):
            m.rewind()
            got = []
            with contextlib.redirect_stdout(io.StringIO()):
                for info in m:
                    if kind in RETURNING and info.get(RETURNING[kind]) is not None:
                        got.append(info['step_num'])
            if kind in RETURNING:
                check_steps(got, out, zero, last, single, start, on, n=n, what='%s returned: run %d: ' % (kind, i))
            disk = on_disk(kind, d, back)
            if disk is not None:
                if kind == 'budget':
                    check_steps(disk, out, True, True, False, None, on, n=n, what='%s file: run %d: ' % (kind, i))
                else:
                    check_steps(disk, out, zero, last, single, start, on, n=n, what='%s files: run %d: ' % (kind, i))
        return dict(states=2 * n, transitions=2 * n)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- histories: partial runs, rewinds, settings changed while rewound
OPS = ['step', 'step3', 'run', 'rewind', 'out', 'last', 'zero', 'single', 'back', 'on', 'start']


def hist_cases(depth):
    for s in maximal_seqs(OPS, depth):
        for i, op in enumerate(s):
            if op in ('step', 'step3', 'run') and s[i - 1] == 'run' and i:
                break
        else:
            yield s


def hist_run(ops):
    m = make()
    cur = dict(out=2000, zero=True, last=False, single=False, start=None, back=False, on=True)
    o = Recorder(**kw(2000, True, False, False, None))
    m.outputters += o
    m.rewind()
    o.log = []
    pos = 0                        # steps made so far
    changed = False                # settings changed in the middle of this run

    def look():
        if changed:
            return
        must, may = expected(cur['out'], cur['zero'], cur['last'], cur['single'], cur['start'], cur['on'])
        g = set(o.log)
        check(list(o.log) == sorted(g), 'steps out of order %r', o.log)
        done = set(range(pos))
        check((must & done) <= g and g <= (must | may) & done, 'after %d steps wrote %r, expected %r', pos, o.log, sorted(must & done))
    for op in tuple(ops) + ('rewind', 'run'):
        if op in ('step', 'step3', 'run'):
            for _ in range({'step': 1, 'step3': 3, 'run': N}[op]):
                if pos == N:
                    break
                m.step()
                pos += 1
                look()
            continue
        if op == 'rewind':
            m.rewind()
            pos, o.log, changed = 0, [], False
            continue
        if op == 'back':
            m.run_backwards = not m.run_backwards        # rewinds the model
            cur['back'] = not cur['back']
            m.rewind()
            pos, o.log, changed = 0, [], False
            if cur['start'] is not None:
                o.output_start_time = T0 + (-1 if cur['back'] else 1) * timedelta(seconds=cur['start'])
            continue
        changed = pos > 0 or changed
        if op == 'out':
            cur['out'] = {2000: None, None: 1800, 1800: 2000}[cur['out']]
            o.output_timestep = None if cur['out'] is None else timedelta(seconds=cur['out'])
        elif op == 'start':
            cur['start'] = {None: 1800, 1800: 2250, 2250: None}[cur['start']]
            o.output_start_time = None if cur['start'] is None else T0 + (-1 if cur['back'] else 1) * timedelta(seconds=cur['start'])
        else:
            cur[op] = not cur[op]
            setattr(o, {'last': 'output_last_step', 'zero': 'output_zero_step', 'single': 'output_single_step', 'on': 'on'}[op], cur[op])
        if op == 'on' and not cur['on']:
            o.log_off = len(o.log)
    return dict(states=len(ops) + 2, transitions=len(ops) + 2)


# ---- one outputter does not disturb another
def pair_cases():
    opts = [(None, True, True, False, None), (2000, False, False, False, None), (1800, False, True, True, 2250), (10000, False, False, False, 0)]
    for a, b in itertools.product(opts, repeat=2):
        for back in (False, True):
            for unc in (False, True):
                for onb in (False, True):
                    yield a, b, back, unc, onb


def pair_run(case):
    a, b, back, unc, onb = case
    m = make(back, unc)
    oa, ob = Recorder(**kw(*a, back=back)), Recorder(**kw(*b, back=back, on=onb))
    m.outputters += [oa, ob]
    m.rewind()
    run_all(m)
    check_steps(oa.log, *a, what='first: ')
    check_steps(ob.log, *b, on=onb, what='second: ')
    return dict(states=2 * N, transitions=N)


# ---- written afterwards from the cache of a finished run
def post_cases(tier):
    outs = [None, 1800, 2000] if tier == 'quick' else OUT
    starts = [None, 1800, 2250] if tier == 'quick' else START
    for n, step in (((N, STEP),) if tier == 'quick' else ((N, STEP), (4, 90000), (3, 86400))):
        for back in (False, True):
            for out in outs:
                for start in starts:
                    for z, l, s in itertools.product((False, True), repeat=3):
                        yield n, step, back, out, z, l, s, start


def post_run(case):
    n, step, back, out, zero, last, single, start = case
    m = make(back, n=n, step=step)
    m.cache_enabled = True
    m.rewind()
    run_all(m)
    o = Recorder(**kw(out, zero, last, single, start, back))
    o.write_output_post_run(model_start_time=m.start_time, model_time_step=m.time_step, num_time_steps=m.num_time_steps, cache=m._cache, spills=m.spills)
    check_steps(o.log, out, zero, last, single, start, n=n, step=step, what='post run: ')
    return dict(states=n, transitions=n)


def parts(tier):
    q = tier == 'quick'
    return [
        Part('shapes', lambda: grid_cases([None, 900, 2000], [None, 0, 900, 2250], ((1, 900), (2, 900), (3, 900), (2, 90000), (4, 7))), grid_run, rule='very short runs, a single step among them, and other steps', chunk=8),
        Part('days', lambda: grid_cases([None, 86400, 90000, 172800, 176400, 604800], [None, 86400, 100000], ((9, 43200), (5, 86400), (4, 90000), (12, 36000))), grid_run, rule='output every day or more', chunk=8),
        Part('grid', lambda: grid_cases(OUT if q else OUT_T, START if q else START_T, ((N, STEP),) if q else ((N, STEP), (2, 900), (3, 90000), (12, 600))), grid_run,
             rule='output_timestep x output_start_time x zero/last/single x direction (x shape of the run), two runs each, next to one that is switched off', chunk=8),
        Part('kinds', lambda: kinds_cases(tier), kinds_run, rule='every outputter class x settings x direction x on/off: what step() returns and what is in the files', chunk=2),
        Part('short', short_cases, kinds_run, rule='every outputter class in runs of one and two steps', chunk=2),
        Part('pairs', pair_cases, pair_run, rule='two outputters with different settings on one model', chunk=8),
        Part('post', lambda: post_cases(tier), post_run, rule='the same settings for output written after the run from the cache', chunk=8),
        Part('histories', lambda: hist_cases(3 if q else 4), hist_run, rule='all sequences of steps, runs, rewinds and changes of settings up to the depth', chunk=8),
    ]

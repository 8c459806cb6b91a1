"""C20  the wind at any time, in any units and coordinates, is the wind that was given."""
import itertools
import math
import os
from datetime import datetime

import numpy as np

from vp.core import Part, check, scratch_dir
from vp.g import *
from gnome.environment import Wind, RunningAverage, Water
from gnome.environment.wind import constant_wind, wind_from_values
from gnome.basic_types import datetime_value_2d
from gnome.utilities import transforms
from gnome.utilities.time_utils import TZOffset

PROPERTY = 'C20'
LEVEL = 'model_checking'
NOTE = 'every series, query time, unit, form of input, edit sequence and file layout of the stated grids on the real Wind, compared with exact interpolation'
ASSUMPTIONS = ['interpolation compared with 1e-6 relative tolerance (the compiled code uses slope and intercept in seconds since 1970)',
               'times after 1970; time zone of the machine UTC']

# metres per second per unit, written down independently of the unit library
MPS = {'m/s': 1., 'meter per second': 1., 'mps': 1., 'knot': 0.514444444, 'knots': 0.514444444, 'mph': 0.44704,
       'miles per hour': 0.44704, 'km/h': 1. / 3.6, 'cm/s': 0.01, 'ft/s': 0.3048, 'kt': .514444444, 'kph': 1 / 3.6}
UNITS = [u for u in MPS if u in Wind.valid_vel_units]


def uv(r, th):
    th = math.radians(th)
    return (-r * math.sin(th), -r * math.cos(th))


def near(a, b, scale=1., tol=5e-6):
    return abs(a - b) <= tol * max(1., abs(a), abs(b), scale)


def ref_uv(series, t, extrapolate):
    """series: [(datetime, (u, v))]"""
    if len(series) == 1:
        return series[0][1]
    if t < series[0][0]:
        return series[0][1] if extrapolate else None
    if t > series[-1][0]:
        return series[-1][1] if extrapolate else None
    for (t0, a), (t1, b) in zip(series, series[1:]):
        if t0 <= t <= t1:
            f = (t - t0).total_seconds() / (t1 - t0).total_seconds()
            return (a[0] + f * (b[0] - a[0]), a[1] + f * (b[1] - a[1]))


def observe(w, series, t, extrapolate, note=''):
    """series in m/s, uv; all the ways to ask for the wind at t"""
    want = ref_uv(series, t, extrapolate)
    top = max(max(abs(x) for x in v) for _, v in series)
    if want is None:
        for name, f in (('get_wind_data', lambda: w.get_wind_data(t, 'm/s', 'uv')),
                        ('get_value', lambda: w.get_value(t)),
                        ('at', lambda: w.at(None, t))):
            try:
                r = f()
            except Exception:
                continue
            check(False, '%s%s at %s, outside the data and without extrapolation, gives %s', note, name, t, r)
        check(near(w.at(None, t, extrapolate=True)[0][0], ref_uv(series, t, True)[0], top), '%sat(extrapolate=True) is not the end value at %s', note, t)
        check(w.extrapolation_is_allowed is False or w.extrapolation_is_allowed == 0, '%sat(extrapolate) left extrapolation switched on', note)
        return
    speed = math.hypot(*want)
    d = w.get_wind_data(t, 'm/s', 'uv')[0]['value']
    check(near(d[0], want[0], top) and near(d[1], want[1], top), '%sget_wind_data uv at %s: %s, expected %s', note, t, d, want)
    u_usr = MPS[w.units]
    rt = w.get_wind_data(t)[0]['value']
    check(near(rt[0] * u_usr, speed, top), '%sget_wind_data speed at %s: %s %s, expected %s m/s', note, t, rt[0], w.units, speed)
    check(0 <= rt[1] <= 360, '%sdirection %s', note, rt[1])
    b = uv(rt[0] * u_usr, rt[1])
    check(near(b[0], want[0], top) and near(b[1], want[1], top), '%sspeed and direction %s at %s are not the wind %s', note, rt, t, want)
    g = w.get_value(t)
    b = uv(*g)
    check(near(b[0], want[0], top) and near(b[1], want[1], top), '%sget_value %s at %s is not the wind %s', note, g, t, want)
    for n, pts in ((1, None), (1, (1., 2., 0.)), (3, np.zeros((3, 3))), (2, np.zeros((2, 2)))):
        a = w.at(pts, t)
        check(len(a) == n and all(near(x[0], want[0], top) and near(x[1], want[1], top) for x in a), '%sat() for %d points at %s: %s, expected %s', note, n, t, a, want)
        if n != 3:
            continue
        check(all(near(x, want[0], top) for x in np.ravel(w.at(pts, t, coord_sys='u'))), '%sat u', note)
        check(all(near(x, want[1], top) for x in np.ravel(w.at(pts, t, coord_sys='v'))), '%sat v', note)
        r = np.ravel(w.at(pts, t, coord_sys='r'))
        th = np.ravel(w.at(pts, t, coord_sys='theta'))
        both = w.at(pts, t, coord_sys='r-theta')
        check(len(r) == len(th) == 3, '%sat r, theta shapes', note)
        for x, y, z in zip(r, th, both):
            b = uv(x, y)
            check(near(b[0], want[0], top) and near(b[1], want[1], top) and z[0] == x and z[1] == y, '%sat r, theta %s %s %s, expected uv %s', note, x, y, z, want)
        k = w.at(pts, t, units='knots')
        check(near(k[2][0] * MPS['knots'], want[0], top, 1e-5), '%sat(units=knots) %s, expected %s m/s', note, k[2], want)


VALS = [(0., 0.), (10., 0.), (4., 90.), (7., 225.), (3., 359.), (5., 45.)]
GAPS = [60, 3600, 5400, 86400]


def make_series(gaps, vals, k=1.):
    t = T0
    out = [(t, vals[0])]
    for g, v in zip(gaps, vals[1:]):
        t = t + secs(g)
        out.append((t, v))
    return out


def arr(series):
    a = np.zeros((len(series),), dtype=datetime_value_2d)
    for i, (t, v) in enumerate(series):
        a['time'][i] = t
        a['value'][i] = v
    return a


def times_of(series):
    ts = [s[0] for s in series]
    q = set()
    for a, b in zip(ts, ts[1:]):
        q |= {a + (b - a) / 2, a + (b - a) / 4, a + secs(1), b - secs(1)}
    q |= set(ts) | {ts[0] - secs(1), ts[-1] + secs(1), ts[0] - hrs(30), ts[-1] + hrs(900)}
    return sorted(t.replace(microsecond=0) for t in q)


def interp_cases(tier):
    nmax = 3 if tier == 'quick' else 4
    nv = 4 if tier == 'quick' else 6
    for n in range(1, nmax + 1):
        for gaps in itertools.product(GAPS[1:] if n < 4 else GAPS[1:3], repeat=n - 1):
            for vals in itertools.product(range(nv), repeat=n):
                if n == 3 and tier == 'quick' and vals[0] == 2:
                    continue
                for ex in (False, True):
                    yield (gaps, vals, ex, 'm/s')
    # long ones (the search in the compiled code)
    for n in (5, 6, 7, 8, 9, 12, 17) if tier == 'quick' else range(5, 40):
        for shift in range(6):
            yield (tuple(GAPS[(i * 5 + shift) % 4] for i in range(n - 1)), tuple((i * i + shift) % 6 for i in range(n)), bool(n % 2), 'knots')


def interp(case):
    gaps, vals, ex, units = case
    s = make_series(gaps, [VALS[i] for i in vals])
    w = Wind(timeseries=arr(s), units=units, extrapolation_is_allowed=ex)
    ref = [(t, uv(v[0] * MPS[units], v[1])) for t, v in s]
    q = times_of(s)
    for t in q:
        observe(w, ref, t, ex)
    check(w.data_start == s[0][0] and w.data_stop == s[-1][0], 'data_start/stop')
    check(len(w) == len(s), 'len')
    # all times at once are the same as one by one
    inside = [t for t in q if ref_uv(ref, t, ex) is not None]
    many = w.get_wind_data(inside, 'm/s', 'uv')
    for t, m in zip(inside, many):
        r = ref_uv(ref, t, ex)
        check(near(m['value'][0], r[0], 15) and near(m['value'][1], r[1], 15), 'list of times differs at %s', t)
        check(m['time'].astype(object) == t, 'time of the answer')
    check(len(many) == len(inside), 'number of answers')
    return dict(states=len(q), transitions=len(q) * 8, sig=(len(s), ex, vals[:2]))


def long_cases(tier):
    starts = [datetime(1971, 1, 1), datetime(1999, 12, 31, 23), datetime(2000, 2, 28, 12), datetime(2024, 2, 28), datetime(2030, 11, 3)]
    for n in (2, 3, 100, 129, 257, 700, 1025) if tier == 'quick' else (2, 3, 64, 100, 128, 129, 256, 257, 512, 700, 1024, 1025, 2049, 5001):
        for gap in (60, 600, 3600, 21600):
            for t in starts if n < 700 or tier != 'quick' else starts[1:3]:
                for ex in (False, True):
                    yield n, gap, t, ex


def long_run(case):
    n, gap, t0, ex = case
    k = MPS['knots']
    s = [(t0 + secs(gap * (i + i // 3)), (float((i * 7) % 23), float((i * 37) % 360))) for i in range(n)]
    w = Wind(timeseries=arr(s), units='knots', extrapolation_is_allowed=ex)
    ref = [(t, uv(v[0] * k, v[1])) for t, v in s]
    q, want = [], []
    for i in range(n - 1):
        a, b = ref[i], ref[i + 1]
        g = (b[0] - a[0]).total_seconds()
        for off in {0, 1, int(g) // 3, int(g) - 1}:
            f = off / g
            q.append(a[0] + secs(off))
            want.append((a[1][0] + f * (b[1][0] - a[1][0]), a[1][1] + f * (b[1][1] - a[1][1])))
    q.append(ref[-1][0])
    want.append(ref[-1][1])
    if ex:
        q += [t0 - hrs(2000), ref[-1][0] + hrs(2000)]
        want += [ref[0][1], ref[-1][1]]
    many = w.get_wind_data(q, 'm/s', 'uv')
    check(len(many) == len(q), 'number of answers')
    for t, m, r in zip(q, many, want):
        check(near(m['value'][0], r[0], 12) and near(m['value'][1], r[1], 12), 'series of %d records: wind at %s is %s, expected %s', n, t, m['value'], r)
        check(m['time'].astype(object) == t, 'time of the answer')
    for i in sorted(set([0, 1, 2, len(q) // 3, len(q) // 2, len(q) - 2, len(q) - 1]) | set(range(0, len(q), 41))):
        if 0 <= i < len(q):
            a = w.at(np.zeros((2, 3)), q[i])
            check(len(a) == 2 and near(a[1][0], want[i][0], 12) and near(a[1][1], want[i][1], 12), 'series of %d records: at(%s) is %s, expected %s', n, q[i], a, want[i])
            g = uv(*w.get_value(q[i]))
            check(near(g[0], want[i][0], 12) and near(g[1], want[i][1], 12), 'series of %d records: get_value(%s)', n, q[i])
    back = w.get_wind_data(units='knots', coord_sys='r-theta')
    check(len(back) == n, '%d of %d records come back', len(back), n)
    for b, (t, v) in zip(back, s):
        check(b['time'].astype(object) == t and near(b['value'][0], v[0]) and (v[0] == 0 or near(b['value'][1] % 360, v[1] % 360)), 'record %s came back as %s', (t, v), b)
    return dict(states=len(q), transitions=len(q), sig=case)


# ---------------------------------------------------------------------------
def forms(s):
    yield 'array', arr(s)
    yield 'list', [(t, tuple(v)) for t, v in s]
    if len(s) == 1:
        yield 'single', (s[0][0], tuple(s[0][1]))
        yield '0-d', arr(s)[0:1].reshape(())


GIVE = {'mixed': [(5., 30.), (8., 260.), (0.5, 3.)], 'no1': [(0., 10.), (0., 20.), (0., 5.)], 'no2': [(10., 0.), (20., 0.), (5., 0.)],
        'calm': [(0., 0.), (0., 0.), (0., 0.)], 'same': [(4., 4.), (4., 4.), (4., 4.)], 'part': [(0., 3.), (6., 0.), (0., 0.)]}


def give_cases(tier):
    for n in (1, 2, 3):
        for units in UNITS:
            for cs in ('r-theta', 'uv'):
                for way in ('ctor', 'set_wind_data', 'timeseries'):
                    for start in ('none', 'knots'):
                        yield (n, units, cs, way, start, 'mixed')
                for vals in GIVE:
                    yield (n, units, cs, 'ctor', 'none', vals)
                    yield (n, units, cs, 'set_wind_data', 'knots', vals)


def give(case):
    n, units, cs, way, start, vals = case
    raw = make_series([3600, 5400][:n - 1], GIVE[vals][:n])
    k = MPS[units]
    ref = [(t, uv(v[0] * k, v[1]) if cs == 'r-theta' else (v[0] * k, v[1] * k)) for t, v in raw]
    if way == 'timeseries' and cs == 'uv':
        return dict(trivial=True)
    cnt = 0
    for name, data in forms(raw):
        if name == '0-d' and way != 'ctor':
            continue
        keep = data.copy() if isinstance(data, np.ndarray) else list(data)
        if way == 'ctor':
            w = Wind(timeseries=data, units=units, coord_sys=cs)
        else:
            w = constant_wind(3, 4) if start == 'none' else Wind(timeseries=arr(make_series([60], [(1, 2), (3, 4)])), units='knots')
            if way == 'set_wind_data':
                w.set_wind_data(data, units, cs)
            else:
                w.units = units
                w.timeseries = data
        if isinstance(data, np.ndarray):
            check(np.array_equal(data, keep), '%s: the array of the caller was changed', name)
            data['value'][...] = 1.25
        check(w.units == units, 'units')
        for t in times_of(raw):
            observe(w, ref, t, False, name + ' ')
            cnt += 1
        back = w.timeseries
        check(len(back) == n, 'timeseries length')
        for b, (t, v) in zip(back, ref):
            z = uv(b['value'][0] * k, b['value'][1])
            check(b['time'].astype(object) == t and near(z[0], v[0]) and near(z[1], v[1]), '%s: timeseries is %s, the wind %s m/s', name, b, v)
        # given back to another wind it is the same wind
        w2 = Wind(timeseries=w.timeseries, units=w.units)
        for t in times_of(raw):
            observe(w2, ref, t, False, name + ' again ')
        # change of the returned arrays does not change the wind
        g = w.get_wind_data()
        g['value'][...] = 99
        observe(w, ref, raw[0][0], False, name + ' returned array ')
    for bad in ([(T0, (1, 2)), (T0, (3, 4))], [(T0, (1, 2)), (T0 - secs(1), (3, 4))], [(T0, (1, 2)), (T0 + hrs(1), (3, 4)), (T0 + mins(59), (3, 4))]):
        for f in (arr(bad), bad):
            try:
                Wind(timeseries=f, units=units, coord_sys=cs)
            except Exception:
                continue
            check(False, 'a series that does not ascend was accepted: %s', f)
    for f in (lambda: Wind(timeseries=arr(raw)), lambda: Wind(timeseries=arr(raw), units='feet'),
              lambda: constant_wind(1, 2).set_wind_data(arr(raw), 'kg')):
        try:
            f()
        except Exception:
            continue
        check(False, 'missing or wrong units were accepted')
    return dict(states=cnt, transitions=cnt * 8, sig=case)


# ---------------------------------------------------------------------------
A = [(T0, (5., 30.)), (T0 + hrs(1), (8., 260.)), (T0 + hrs(4), (2., 3.))]
B = [(T0 + hrs(2), (3., 100.))]
OPS = ['u:knots', 'u:m/s', 'u:mph', 'tsA', 'tsB', 'uvA', 'rtB', 'tz:-8', 'tz:5.5', 'tz:None', 'ext1', 'ext0', 'dict', 'copy', 'at', 'up']
CORE = ['u:knots', 'u:mph', 'tsA', 'uvA', 'rtB', 'tz:-8', 'tz:5.5', 'tz:None', 'ext1', 'dict', 'up']


def edit_cases(tier):
    for ops in itertools.product(OPS, repeat=2):
        yield ops
    for ops in itertools.product(CORE, repeat=3):
        yield ops
    if tier != 'quick':
        for ops in itertools.product(OPS, repeat=3):
            yield ops
        for ops in itertools.product(CORE, repeat=4):
            yield ops


def edit(ops):
    w = Wind(timeseries=arr(A), units='m/s', speed_uncertainty_scale=.2)
    ref = [(t, uv(*v)) for t, v in A]
    units, ext, tz = 'm/s', False, None
    states = 0
    for op in ops:
        if op[:2] == 'u:':
            w.units = units = op[2:]
        elif op == 'tsA' or op == 'tsB':
            s = A if op == 'tsA' else B
            w.timeseries = arr(s)
            ref = [(t, uv(v[0] * MPS[units], v[1])) for t, v in s]
        elif op == 'uvA':
            w.set_wind_data(arr(A), 'knots', 'uv')
            units = 'knots'
            ref = [(t, (v[0] * MPS[units], v[1] * MPS[units])) for t, v in A]
        elif op == 'rtB':
            w.set_wind_data(arr(B), 'm/s')
            units = 'm/s'
            ref = [(t, uv(*v)) for t, v in B]
        elif op[:3] == 'tz:':
            new = None if op == 'tz:None' else float(op[3:])
            w.timezone_offset = TZOffset(new)
            if tz is not None and new is not None:
                ref = [(t + hrs(new - tz), v) for t, v in ref]
            tz = new
            check(w.timezone_offset.offset == new, 'timezone_offset')
        elif op[:3] == 'ext':
            ext = op == 'ext1'
            w.extrapolation_is_allowed = ext
        elif op == 'dict':
            w.update_from_dict({'units': 'mph', 'timeseries': [(T0.isoformat(), (4., 50.)), ((T0 + hrs(3)).isoformat(), (6., 70.))]})
            units = 'mph'
            ref = [(T0, uv(4 * MPS[units], 50)), (T0 + hrs(3), uv(6 * MPS[units], 70))]
        elif op == 'copy':
            w2 = Wind.deserialize(w.serialize())
            w = w2
        elif op == 'at':
            w.at(np.zeros((2, 3)), ref[0][0] - hrs(5), extrapolate=True)
        elif op == 'up':
            check(w.set_speed_uncertainty('sideways') is False, 'set_speed_uncertainty accepted nonsense')
            check(w.set_speed_uncertainty('up'), 'set_speed_uncertainty')
            # median-based quantile of a Rayleigh distribution with the given mean
            fac = math.sqrt(2 / math.pi) * math.sqrt(-2 * math.log(1 - .7))
            ref = [(t, (v[0] * fac, v[1] * fac)) for t, v in ref]
        check(w.units == units, 'after %s: units %s', op, w.units)
        check(bool(w.extrapolation_is_allowed) == ext, 'after %s: extrapolation %s', op, w.extrapolation_is_allowed)
        check(len(w.timeseries) == len(ref), 'after %s: length', op)
        for b, (t, v) in zip(w.timeseries, ref):
            z = uv(b['value'][0] * MPS[units], b['value'][1])
            check(b['time'].astype(object) == t and near(z[0], v[0], 10, 1e-5) and near(z[1], v[1], 10, 1e-5), 'after %s: timeseries has %s (%s), the wind is %s m/s at %s', op, b, units, v, t)
        check(w.data_start == ref[0][0] and w.data_stop == ref[-1][0], 'after %s: data_start/stop %s %s, expected %s', op, w.data_start, w.data_stop, ref[0][0])
        check(list(w.time.data) == [t for t, _ in ref], 'after %s: time axis %s', op, w.time.data)
        for t in (ref[0][0] - hrs(1), ref[0][0], ref[0][0] + mins(20), ref[-1][0], ref[-1][0] + hrs(2)):
            if t > ref[-1][0] and len(ref) > 1 and t <= ref[-1][0]:
                continue
            observe(w, ref, t, ext, 'after %s: ' % op)
        states += 1
    return dict(states=states, transitions=states * 5, sig=(units, ext, tz, len(ref), ops[-1]))


# ---------------------------------------------------------------------------
CARD = ['N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW', 'NW', 'NNW']
TZS = {'gmt': ('GMT', 0.), 'utc': ('utc', 0.), 'num': ('-8, PST', -8.), 'half': ('5.5', 5.5), 'word': ('LTime', None)}
FUN = {'knots': 'knots', 'mps': 'm/s', 'm/s': 'm/s', 'miles per hour': 'miles per hour', 'meters per second': 'm/s', 'MPS': 'm/s'}


def file_cases(tier):
    for lines in (3, 4, 5):
        for tz in (sorted(TZS) if lines > 3 else ['-']):
            for name in ('Station', '', 'a, b'):
                for pos in ('28.5,-88.25', 'nowhere', '28.5, -88.25'):
                    for u in FUN:
                        if tier == 'quick' and (name == 'a, b') != (u == 'MPS'):
                            continue
                        for style in range(4):
                            yield (lines, tz, name, pos, u, style)


def read_file(case):
    lines, tz, name, pos, u, style = case
    d = scratch_dir('wind')
    fn = os.path.join(d, 'w.wnd')
    head = [name, pos, u]
    if lines > 3:
        head.append(TZS[tz][0])
    if lines > 4:
        head.append('0,0,0,0,0,0,0,0')
    data = [(T0 + hrs(i * 3), 2. + i, (i * 22.5) % 360) for i in range(16)] if style != 1 else [(T0, 4.5, 200.)]
    out = []
    for i, (t, s, dirn) in enumerate(data):
        y = t.year if style != 2 else t.year - 2000
        ds = CARD[i] if style == 2 else '%g' % dirn
        out.append('%d,%d,%d,%d,%d,%g,%s' % (t.day, t.month, y, t.hour, t.minute, s, ds) if style != 3
                   else ' %02d, %02d, %04d, %02d, %02d, %.2f, %.2f' % (t.day, t.month, t.year, t.hour, t.minute, s, dirn))
        if style == 3 and i % 4 == 1:
            out.append('')
    with open(fn, 'w') as f:
        f.write('\n'.join(head + out) + ('\n' if style != 1 else ''))
    # the stored units names differ, the wind may not
    k = MPS[FUN[u]]
    ref = [(t, uv(s * k, dirn)) for t, s, dirn in data]
    for kind, w in (('filename', Wind(filename=fn)), ('from_file', Wind.from_file(fn))):
        check(len(w) == len(data), '%s: %d records, expected %d', kind, len(w), len(data))
        for t, v in ref:
            g = w.get_wind_data(t, 'm/s', 'uv')[0]['value']
            check(near(g[0], v[0], 20, 1e-5) and near(g[1], v[1], 20, 1e-5), '%s: wind at %s is %s, the file says %s', kind, t, g, v)
        if name:
            check(w.name == name, '%s: name %r', kind, w.name)
        off = TZS[tz][1] if lines > 3 else None
        check(w.timezone_offset.offset == off, '%s: timezone offset %s, expected %s', kind, w.timezone_offset.offset, off)
        if pos == 'nowhere':
            check(w.latitude is None and w.longitude is None, '%s: position', kind)
        else:
            check((w.latitude, w.longitude) == (28.5, -88.25), '%s: position %s %s', kind, w.latitude, w.longitude)
    return dict(states=len(data) * 2, transitions=2, sig=(lines, tz, u, style))


def read_year(y):
    """years of two digits are those of 1970 to 2069"""
    fn = os.path.join(scratch_dir('wind'), 'w.wnd')
    full = y if y >= 100 else 2000 + y if y < 70 else 1900 + y
    for text in (('%d' % y, '%02d' % y) if y < 100 else ('%d' % y,)):
        with open(fn, 'w') as f:
            f.write('Station\n28.5,-88.25\nknots\n' + ''.join('%d,%d,%s,%d,%d,%d,%d\n' % (d, m, text, h, mi, 5 + m, 10 * m)
                                                              for m, d, h, mi in ((1, 1, 0, 0), (2, 28, 23, 59), (12, 31, 23, 59))))
        for w in (Wind(filename=fn), Wind.from_file(fn)):
            got = [str(t) for t in w.timeseries['time'].astype('datetime64[s]')]
            check(got == ['%d-01-01T00:00:00' % full, '%d-02-28T23:59:00' % full, '%d-12-31T23:59:00' % full], 'year %r of a wind file is read as %s', text, got)
    return dict(states=3, transitions=4, sig=y)


BAD = ['', 'a\n', 'a\nb\n', 'a\nb\nknots\n', 'a\nb\n\n01,01,2020,00,00,1,1\n', 'a\nb\nknots\nx\ny\nz\n1,1,2020,0,0,1,1\n',
       'a\nb\nknots\nx\n1,1,2020,0,0,1,1\n1,1,2020,0,0\n', 'a\nb\nknots\nx\n1,1,2020,0,0,1,1\n1,13,2020,0,0,1,1\n',
       'a\nb\nknots\nx\n1,1,2020,0,0,1,QQ\n', 'a\nb\nfurlongs\nx\n1,1,2020,0,0,1,1\n', 'a\nb\nknots\nx\n2,1,2020,0,0,1,1\n1,1,2020,0,0,1,1\n']


def bad_file(k):
    d = scratch_dir('wind')
    fn = os.path.join(d, 'w.wnd')
    open(fn, 'w').write(BAD[k])
    for f in (lambda: Wind(filename=fn), lambda: Wind.from_file(fn)):
        try:
            w = f()
        except Exception:
            continue
        check(False, 'malformed wind file accepted: %r -> %s', BAD[k], w.timeseries)
    return dict(states=1, transitions=2, sig=k)


# ---------------------------------------------------------------------------
def xform_cases(tier):
    step = 5 if tier == 'quick' else 1
    for d in range(0, 361, step):
        yield d


def xform(d):
    n = 0
    for r in (0., 1e-3, 1., 7.25, 50.):
        for off in (0., .25, 1e-9):
            th = min(360., d + off)
            for kind, to, back, sg in (('wind', transforms.r_theta_to_uv_wind, transforms.uv_to_r_theta_wind, 1.),
                                       ('current', transforms.r_theta_to_uv_current, transforms.uv_to_r_theta_current, -1.)):
                src = np.array([[r, th], [r + 1, 90.]])
                keep = src.copy()
                res = to(src)
                check(np.array_equal(src, keep), '%s: input changed', kind)
                want = uv(r, th)
                check(near(res[0][0], sg * want[0], 1, 1e-12) and near(res[0][1], sg * want[1], 1, 1e-12), '%s: %s -> %s', kind, src[0], res[0])
                check(near(res[1][0], sg * -(r + 1), 1, 1e-12) and near(res[1][1], 0, 1, 1e-12), '%s: second row', kind)
                rt = back(res)
                check(near(rt[0][0], r, 1, 1e-12), '%s: speed back', kind)
                check(0 <= rt[0][1] < 360, '%s: direction %s', kind, rt[0][1])
                if r > 0:
                    dd = abs(rt[0][1] - th)
                    check(min(dd, 360 - dd) < 1e-7, '%s: direction %s back as %s', kind, th, rt[0][1])
                one = to((r, th))
                check(np.array_equal(np.ravel(one), res[0]), '%s: single vector', kind)
                n += 1
    for bad in ((1., -1e-6), (1., 360.001), (-1., 10.)):
        try:
            transforms.r_theta_to_uv_wind(bad)
        except ValueError:
            continue
        check(False, 'r_theta_to_uv_wind accepted %s', bad)
    for units in UNITS:
        w = constant_wind(3., d, units)
        b = uv(3 * MPS[units], d)
        g = w.at(None, T0)[0]
        check(near(g[0], b[0], 1, 1e-5) and near(g[1], b[1], 1, 1e-5), 'constant_wind %s %s: %s', d, units, g)
        w = wind_from_values([(T0, 3., d), (T0 + hrs(1), 3., d)], units)
        g = w.at(None, T0 + mins(30))[0]
        check(near(g[0], b[0], 1, 1e-5) and near(g[1], b[1], 1, 1e-5), 'wind_from_values %s %s: %s', d, units, g)
    return dict(states=n, transitions=2 * n, sig=d)


# ---------------------------------------------------------------------------
def avg_cases(tier):
    speeds = (0., 4., 10.)
    for n in (1, 2, 3, 4):
        for vals in itertools.product(speeds, repeat=n):
            for gap in (1800, 3600, 7200):
                for past in (1, 3, 5):
                    yield (n, vals, gap, past)


def avg(case):
    n, vals, gap, past = case
    s = make_series([gap] * (n - 1), [(v, 90. + 30 * (v > 5)) for v in vals])
    w = Wind(timeseries=arr(s), units='m/s')
    ref = [(t, uv(*v)) for t, v in s]
    r = RunningAverage(wind=w, past_hours_to_average=past)
    cnt = 0
    for stage in ('new', 'prepared', 'later'):
        if stage == 'prepared':
            r.prepare_for_model_run(s[0][0])
        elif stage == 'later':
            r.prepare_for_model_step(s[-1][0] + hrs(5))
        ts = r.timeseries
        check(ts['time'][0].astype(object) == s[0][0], '%s: starts at %s', stage, ts['time'][0])
        for rec in ts:
            t = rec['time'].astype(object)
            sp = [math.hypot(*ref_uv(ref, t - hrs(j), True)) for j in range(past + 1)]
            want = sum((a + b) / 2 for a, b in zip(sp, sp[1:])) / past
            check(near(rec['value'][0], want, 10, 1e-6) and rec['value'][1] == 0, '%s: %d h average at %s is %s, expected %s (wind %s every %d s)', stage, past, t, rec['value'], want, vals, gap)
            g = r.get_value(t)
            check(near(g[0], want, 10, 1e-6), '%s: get_value at %s', stage, t)
            cnt += 1
        check(len(ts) == 1 + (n - 1) * gap // min(3600, gap if n > 1 else 3600), '%s: %d averages', stage, len(ts))
    return dict(states=cnt, transitions=3, sig=(n, gap, past))


# ---------------------------------------------------------------------------
WUNITS = {'temperature': {'K': (1., 0.), 'C': (1., 273.15), 'F': (5 / 9., 273.15 - 32 * 5 / 9.)},
          'sediment': {'kg/m^3': (1., 0.), 'mg/l': (1e-3, 0.)},
          'wave_height': {'m': (1., 0.), 'ft': (.3048, 0.), 'cm': (.01, 0.), 'km': (1000., 0.)},
          'fetch': {'m': (1., 0.), 'ft': (.3048, 0.), 'km': (1000., 0.), 'miles': (1609.344, 0.)},
          'salinity': {'psu': (1., 0.)}}
WVAL = {'temperature': (5., 25.), 'sediment': (.5, 3.), 'wave_height': (0., 2.), 'fetch': (1., 40.), 'salinity': (0., 35.)}


def water_cases(tier):
    ops = [(a, u, v) for a in sorted(WUNITS) for u in sorted(WUNITS[a]) for v in WVAL[a]]
    for x in ops:
        yield (x,)
    for x, y in itertools.product(ops, repeat=2):
        yield (x, y)


def water(ops):
    w = Water()
    other = Water()
    ref = {'temperature': 300., 'sediment': .005, 'wave_height': None, 'fetch': None, 'salinity': 35.}
    n = 0
    for a, u, v in ops:
        w.set(a, v, u)
        k = WUNITS[a][u]
        ref[a] = v * k[0] + k[1]
        for name in WUNITS:
            si = w.get(name)
            if ref[name] is None:
                check(si is None, '%s appeared', name)
                continue
            check(near(si, ref[name], ref[name], 1e-5), '%s is %s, expected %s (after %s %s %s)', name, si, ref[name], a, v, u)
            for uu, kk in WUNITS[name].items():
                g = w.get(name, uu)
                check(near(g * kk[0] + kk[1], ref[name], ref[name], 1e-5), '%s in %s is %s, expected %s SI', name, uu, g, ref[name])
                n += 1
            at = {'temperature': w.Temperature, 'salinity': w.Salinity, 'sediment': w.Sediment, 'wave_height': w.WaveHeight}.get(name)
            if at is not None:
                g = at.at(np.zeros((3, 3)), T0)
                check(len(g) == 3 and all(near(x, ref[name], ref[name], 1e-5) for x in g), '%s.at() is %s, expected %s', name, g, ref[name])
        for bad in ('knots', 'furlong'):
            try:
                w.set(a, 1., bad)
            except Exception:
                continue
            check(False, '%s accepted units %s', a, bad)
    check(other.get('temperature') == 300. and other.units['temperature'] == 'K' and other.get('salinity') == 35., 'another Water changed')
    return dict(states=n, transitions=len(ops), sig=tuple((a, u) for a, u, v in ops))


def parts(tier):
    return [
        Part('interp', lambda: interp_cases(tier), interp, rule='all series of values x gaps, all query time classes, all ways to ask'),
        Part('long', lambda: long_cases(tier), long_run, rule='series of up to thousands of records, uneven gaps, several epochs', chunk=4),
        Part('give', lambda: give_cases(tier), give, rule='units x coordinates x form of input x way to give it'),
        Part('edit', lambda: edit_cases(tier), edit, rule='all sequences of edits of a wind'),
        Part('files', lambda: file_cases(tier), read_file, rule='all layouts of wind files'),
        Part('years', lambda: itertools.chain(range(100), range(1970, 2038)), read_year, rule='all years of two digits and of four'),
        Part('badfiles', lambda: range(len(BAD)), bad_file, rule='malformed wind files'),
        Part('transforms', lambda: xform_cases(tier), xform, rule='directions x speeds'),
        Part('average', lambda: avg_cases(tier), avg, rule='series x averaging windows'),
        Part('water', lambda: water_cases(tier), water, rule='all pairs of settings of water properties x units'),
    ]

"""C26  a field of currents read from files moves the oil with what the files say, in whatever order it is asked."""
import gc
import itertools
import os

from vp.core import Part, check, Violation, scratch_dir, maximal_seqs
from vp.g import *
from vp import gridfiles as gf
from gnome.movers import c_GridCurrentMover, c_GridWindMover
from gnome.utilities.time_utils import date_to_sec

PROPERTY = 'C26'
LEVEL = 'model_checking'
NOTE = 'every history of questions up to the depth in the evidence is put to the real mover over freshly written files; each answer is compared with what the files say'
ASSUMPTIONS = ['netCDF files (regular, curvilinear and triangular grids) without depth levels; the old text formats, depth levels, ice and tidal cycle files are not covered',
               'a regular grid gives each cell the value of its node; a curvilinear field is uniform in space here; a triangular one is linear between nodes or constant in a triangle',
               'velocities in m/s or cm/s (the readers know no other unit; triangular grids and winds: m/s)',
               'the scale of the velocities shown for winds is left open']

GRIDS = {g.name: g for g in (gf.Regular(), gf.Curvilinear(), gf.Triangular('node'), gf.Triangular('nele'))}
WINDS = {g.name: g for g in (gf.Regular(True), gf.Curvilinear(True))}
SECS0 = int(date_to_sec(T0))
H = 3600
SPLITS = {'one': [[0, 2, 6]], 'single': [[0]], 'two': [[0, 2], [6, 8]], 'uneven': [[0, 2, 3], [6, 8, 9]], 'ones': [[0], [2], [6]], 'mixed': [[0, 1], [3], [5, 6]]}
WINDAGE = .03125
_sc = {}


def container(places):
    key = tuple(places)
    if key not in _sc:
        m = Model(start_time=T0, duration=hrs(2), time_step=hrs(1))
        for x, y in places:
            m.spills += gs.point_line_spill(num_elements=1, start_position=(x, y, 0.), release_time=T0, windage_range=(WINDAGE, WINDAGE))
        m.step()
        _sc[key] = list(m.spills.items())[0]
    return _sc[key]


_files = {}


def build(grid, split, **kw):
    key = (os.getpid(), grid.name, grid.winds, grid.lat0, grid.lon0, repr(split), repr(sorted(kw.items())))
    if key not in _files:
        _files[key] = write(scratch_dir('grid'), grid, split, **kw)
    return _files[key]


def write(d, grid, split, **kw):
    files = []
    k = 0
    for n, hours in enumerate(split):
        p = os.path.join(d, 'f%d.nc' % n)
        grid.write(p, [h * H for h in hours], list(range(k, k + len(hours))), **kw)
        k += len(hours)
        files.append(p)
    if len(files) == 1:
        return files[0]
    p = os.path.join(d, 'files.txt')
    gf.write_list(p, files)
    return p


class Asked:
    """a mover and what it should say"""

    def __init__(self, grid, split, units='m/s', tunit='hours', holes=None, **kw):
        self.holes = holes
        self.grid = grid
        self.times = [h * H for hs in split for h in hs]
        self.method = kw.get('num_method', 'Euler')
        self.m = (c_GridWindMover if grid.winds else c_GridCurrentMover)(build(grid, split, units=units, tunit=tunit, **({} if holes is None else {'holes': holes})), **kw)
        self.x = kw.get('extrapolate', False)
        self.o = kw.get('time_offset', 0)
        self.scale = kw.get('wind_scale', 1) * WINDAGE if grid.winds else kw.get('current_scale', 1)
        self.answers = 0      # answers compared (movements of elements and velocities shown, or refusals)
        self.m.prepare_for_model_run()
        self.shown = None if grid.winds else grid.shown(self.m)

    def say(self, s, lon, lat):
        return gf.value_at(self.grid, self.times, s, lon, lat, self.x, self.o * H, self.holes)

    def move(self, s, dt, p):
        """how far an element at p goes in dt seconds from s on, degrees; None where the data do not reach"""
        lon, lat = p
        c = np.array([1. / np.cos(np.radians(lat)), 1.]) * self.scale * dt * gf.DEG

        def v(f, d):
            e = self.say(s + f * dt, lon + d[0], lat + d[1])
            return None if e is None else e * c
        if self.method == 'Euler':
            return v(0, (0, 0))
        if v(0, (0, 0)) is None or v(1, (0, 0)) is None:
            return None
        if self.method == 'RK2':
            a = v(0, (0, 0))
            return (a + v(1, a)) / 2
        a = v(0, (0, 0))
        b = v(.5, a / 2)
        d = v(.5, b / 2)
        e = v(1, d)
        return (a + 2 * b + 2 * d + e) / 6

    def ask(self, s, dt=H):
        """show and move at s seconds after T0"""
        m = self.m
        places = self.grid.places()
        sc = container(places)
        now = T0 + secs(s)
        expect = [self.move(s, dt, p) for p in places]
        where = 'at %+g h with extrapolation %s, offset %s h' % (s / H, 'on' if self.x else 'off', self.o)
        try:
            m.prepare_for_model_step(sc, dt, now)
            moved = m.get_move(sc, dt, now)
        except (OSError, RuntimeError):
            check(expect[0] is None, '%s: the mover refuses to work where its files have data' % where)
            moved = None
        self.answers += 1 if moved is None else len(moved)
        if moved is not None:
            check(expect[0] is not None, '%s: the mover moves elements where its files have no data' % where)
            for p, want, d in zip(places, expect, moved):
                if not np.allclose(d[:2], want, rtol=2e-5, atol=5e-6 * abs(dt * self.scale) * gf.DEG / np.cos(np.radians(p[1]))):
                    e = [float(v) for v in np.array([d[0] * np.cos(np.radians(p[1])), d[1]]) / (gf.DEG * dt * self.scale)]
                    w = [float(v) for v in np.array([want[0] * np.cos(np.radians(p[1])), want[1]]) / (gf.DEG * dt * self.scale)]
                    raise Violation('%s: an element at %s is moved at %s m/s, the files say %s m/s' % (where, p, e, w))
                check(d[2] == 0, '%s: an element at %s is moved up or down' % (where, p))
        m.model_step_is_done(sc)
        if self.shown is None:
            return
        want = [self.say(s, *p) for p in self.shown]
        try:
            got = m.get_scaled_velocities(SECS0 + s)
        except (OSError, RuntimeError):
            check(want[0] is None, '%s: no velocities to show where the files have data' % where)
            return
        check(want[0] is not None, '%s: velocities are shown where the files have no data' % where)
        check(len(got) == len(want), '%s: %d velocities are shown for %d points' % (where, len(got), len(want)))
        self.answers += len(got)
        for p, e, g in zip(self.shown, want, got):
            if not (abs(g['u'] - e[0]) < 2e-5 and abs(g['v'] - e[1]) < 2e-5):
                raise Violation('%s: the velocity shown at %s is %s m/s, the files say %s m/s' % (where, p, (float(g['u']), float(g['v'])), [float(v) for v in e]))


# ---- histories ------------------------------------------------------------------------
def letters(split):
    t = [h for hs in split for h in hs]
    a = [t[0] - 1.5, t[-1] + 2]
    a += t
    a += [(x + y) / 2. for x, y in zip(t[:-1], t[1:])]
    return tuple(sorted(a)) + ('x', 'o')


def history_cases(tier, grids):
    depth = 3 if tier == 'quick' else 4
    for g in grids:
        for s in SPLITS:
            for x in (False, True):
                al = letters(SPLITS[s])
                for seq in itertools.product(al, repeat=depth):
                    if x and 'x' in seq and tier == 'quick':
                        continue
                    if any(a == b and not isinstance(a, float) for a, b in zip(seq, seq[1:])) or seq[-1] in ('x', 'o'):
                        continue
                    yield (g, s, x, seq)


def run_wind_history(case):
    return run_history(case, WINDS)


def run_history(case, grids=GRIDS):
    g, s, x, seq = case
    a = Asked(grids[g], SPLITS[s], extrapolate=x)
    for op in seq:
        if op == 'x':
            a.x = not a.x
            a.m.extrapolate = a.x
        elif op == 'o':
            a.o = 1 - a.o
            a.m.time_offset = a.o
        else:
            a.ask(int(op * H))
    return dict(states=a.answers, transitions=len(seq))


# ---- ways of writing the same field ----------------------------------------------------
def way_cases(tier):
    lats = (0., 60., -45.) if tier == 'quick' else (0., 60., -45., 80., -80., 30.)
    for winds in (False, True):
        for g in (WINDS if winds else GRIDS):
            units = ('m/s',) if winds or g.startswith('tri') else ('m/s', 'cm/s')
            for u in units:
                for tu in ('hours', 'minutes', 'seconds', 'days'):
                    for lat in lats:
                        for lon in (10., -70., 200.) if g == 'regular' else (10., -70.):
                            for sc in (1, .5, -2.):
                                for dt in (900, 3600, -3600):
                                    yield (winds, g, u, tu, lat, lon, sc, dt)


def run_way(case):
    winds, g, u, tu, lat, lon, sc, dt = case
    grid = (WINDS if winds else GRIDS)[g].moved(lat, lon)
    a = Asked(grid, SPLITS['uneven'], units=u, tunit=tu, **{'wind_scale' if winds else 'current_scale': sc})
    a.shown = None
    for h in (0, 1, 2.5, 4, 8.25, 9):
        a.ask(int(h * H), dt)
    return dict(states=a.answers, transitions=6)


# ---- places without data ---------------------------------------------------------------
def hole_cases(tier):
    cells = [(j, i) for j in range(len(gf.LAT)) for i in range(len(gf.LON))]
    for winds in (False, True):
        for n in (1, 2):
            for h in itertools.combinations(cells, n):
                yield (winds, h)
        yield (winds, tuple(cells))


def run_hole(case):
    winds, holes = case
    a = Asked((WINDS if winds else GRIDS)['regular'], SPLITS['one'], holes=holes)
    a.grid = CellPlaces(a.grid)
    for h in (0, 1, 4.5):
        a.ask(int(h * H))
    return dict(states=a.answers, transitions=3)


class CellPlaces:
    """the same grid with a place in each of its cells"""

    def __init__(self, grid):
        self.grid = grid

    def __getattr__(self, name):
        return getattr(self.grid, name)

    def places(self):
        return [(x + .013, y - .021) for x in gf.LON for y in gf.LAT]


# ---- methods ---------------------------------------------------------------------------
def method_cases(tier):
    for g in GRIDS:
        for s in SPLITS:
            for m in ('Euler', 'RK2', 'RK4'):
                for x in (False, True):
                    for dt in (900, 3600, -3600, 4500):
                        for o in (0, 1):
                            yield (g, s, m, x, dt, o)


def run_method(case):
    g, s, m, x, dt, o = case
    a = Asked(GRIDS[g], SPLITS[s], num_method=m, extrapolate=x, time_offset=o)
    a.shown = None
    for h in letters(SPLITS[s])[:-2]:
        if a.move(int(h * H), dt, a.grid.places()[0]) is not None:
            a.ask(int(h * H), dt)
    return dict(states=a.answers, transitions=len(letters(SPLITS[s])) - 2)


# ---- whole model runs ------------------------------------------------------------------
def model_cases(tier):
    depth = 6 if tier == 'quick' else 7
    splits = ('one', 'uneven', 'ones') if tier == 'quick' else tuple(SPLITS)
    for g in GRIDS:
        for s in splits:
            for start, back in ((-1, False), (1, False), (5, False), (5, True), (9, True)):
                for seq in itertools.product('srox', repeat=depth):
                    q = ''.join(seq)
                    if q[-1] != 's' or q[0] != 's' or 'rr' in q or 'oo' in q or 'xx' in q or q.count('o') + q.count('x') > 2:
                        continue
                    yield (g, s, start, back, q)


def run_model(case):
    g, s, start, back, seq = case
    a = Asked(GRIDS[g], SPLITS[s])
    t0 = T0 + secs(start * H)
    m = Model(start_time=t0, duration=hrs(-4 if back else 4), time_step=-3600 if back else 3600)
    places = a.grid.places()
    for x, y in places:
        m.spills += gs.point_line_spill(num_elements=1, start_position=(x, y, 0.), release_time=t0)
    m.movers += a.m
    n, pos, broken = -1, None, False
    sgn = -1 if back else 1
    for i, op in enumerate(seq):
        where = 'after %s' % seq[:i + 1]
        if op == 'r':
            m.rewind()
            n, pos, broken = -1, None, False
        elif op == 'o':
            a.o = 1 - a.o
            a.m.time_offset = a.o
        elif op == 'x':
            a.x = not a.x
            a.m.extrapolate = a.x
        elif n >= 0 and n * H >= 4 * H or broken:
            continue
        else:
            # step n+1 moves the elements from the time of step n to its own
            if n < 0:
                pos = np.array(places)
                d = [np.zeros(2)] * len(pos)
            else:
                d = [a.move(start * H + sgn * n * H, sgn * H, tuple(p)) for p in pos]
            try:
                m.step()
            except (OSError, RuntimeError):
                check(d[0] is None or n < 0 and a.move(start * H, sgn * H, tuple(pos[0])) is None, '%s: the model stops where the files have data' % where)
                broken = True
                continue
            check(d[0] is not None, '%s: the model runs on where the files have no data' % where)
            n += 1
            pos = pos + np.array(d)
            got = np.asarray(list(m.spills.items())[0]['positions'])[:, :2]
            check(got.shape == pos.shape, '%s: %d elements of %d' % (where, len(got), len(pos)))
            for p, q in zip(pos, got):
                if not np.allclose(p, q, rtol=0, atol=1e-6):
                    raise Violation('%s: an element is at %s, the currents of the files take it to %s' % (where, q.tolist(), p.tolist()))
            pos = got.copy()
            a.answers += len(pos)
    return dict(states=a.answers, transitions=len(seq))


# ---------------------------------------------------------------- nothing stays open
def open_files():
    out = []
    for f in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + f)
        except OSError:
            continue
        if p.startswith(os.environ['VP_SCRATCH']) and '.nc' in p:
            out.append(p)
    return sorted(out)


def run_handles(case):
    kind, split, ops = case
    grid = (WINDS if kind[0] == 'w' else GRIDS)[kind[1:]]
    path = build(grid, SPLITS[split])
    before = open_files()
    cls = c_GridWindMover if grid.winds else c_GridCurrentMover
    movers = []
    n = 0
    for o in ops:
        if o == 'new':
            movers.append(cls(path))
            movers[-1].prepare_for_model_run()
        elif o == 'ask':
            for m in movers:
                for h in (0, 1, 5):
                    m.prepare_for_model_step(container([(grid.lon0 + .1, grid.lat0 + .1)]), H, T0 + hrs(h))
                    m.get_move(container([(grid.lon0 + .1, grid.lat0 + .1)]), H, T0 + hrs(h))
        elif o == 'drop':
            if movers:
                movers.pop()
        n += 1
    m = None
    del movers
    gc.collect()
    left = open_files()
    check(left == before, 'after the movers are gone their files are still open: %s', [os.path.basename(p) for p in left][:6])
    return dict(states=n, transitions=n, sig=case)


def handle_cases(tier):
    for kind in ['c' + k for k in GRIDS] + ['w' + k for k in WINDS]:
        for split in ('one', 'two'):
            for ops in itertools.product(('new', 'ask', 'drop'), repeat=3 if tier == 'quick' else 5):
                if ops[0] == 'new':
                    yield kind, split, ops


def parts(tier):
    return [Part('histories', lambda: history_cases(tier, GRIDS), run_history, rule='every sequence of 3 (thorough: 4) operations - ask for the movement of elements at places in and around the grid and for the velocities shown, at a time before, at, between and after the records; turn extrapolation on or off; shift the data in time - on 4 kinds of grid x 6 ways of dividing the records over files'),
            Part('wind-histories', lambda: history_cases(tier, WINDS), run_wind_history, rule='the same histories on the 2 kinds of grid of gridded winds'),
            Part('ways', lambda: way_cases(tier), run_way, rule='every unit of velocity and time, place on the globe, scale and time step, for each kind of grid'),
            Part('holes', lambda: hole_cases(tier), run_hole, rule='every set of one or two (and all) cells of the regular grid without data'),
            Part('methods', lambda: method_cases(tier), run_method, rule='every numerical method on every grid, division over files, time step, offset and time'),
            Part('models', lambda: model_cases(tier), run_model, rule='every sequence of 6 (thorough: 7) operations step / rewind / shift / extrapolate on a model moved by the currents, forwards and backwards, starting before, in and after the data'),
            Part('handles', lambda: handle_cases(tier), run_handles, rule='every sequence of 3 (thorough: 5) of making a mover, asking it at three times and dropping it, on every kind of grid in one or two files: no file stays open')]

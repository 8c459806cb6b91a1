"""C04  element bookkeeping: aligned arrays, unique stable ids, right spill, no
interference between spills, removal of exactly the elements that left."""
import itertools

from vp.core import Part, check, Violation, seqs
from vp.g import *
from gnome.maps.map import GnomeMap

PROPERTY = 'C04'
LEVEL = 'model_checking'
NOTE = 'all spill line-ups and edit sequences; differential oracle: each spill alone'
ASSUMPTIONS = ['after editing the list of spills the model is rewound before it runs on',
               'deterministic movers in the non-interference part']

DT = 900
NSTEP = 6
# kind: (elements, start, end, release offset, duration, amount)
MENU = {
    'i': (2, (10., 1., 0.), None, 0, 0, 2.),             # instantaneous, stays
    'c': (5, (11., 2., 0.), (11.2, 2.2, 0.), 0, 2250, 15.),   # continuous, stays
    'l': (3, (12., 3., 0.), None, 1000, 0, 12.),         # late
    'x': (4, (19.9, 4., 0.), (19.5, 4., 0.), 0, 0, 20.),  # some leave the map early
    'y': (4, (19.97, 5., 0.), None, 0, 2700, 24.),       # continuous and leaving
    'o': (3, (13., 6., 0.), None, 0, 0, 21.),            # switched off
    'n': (3, (14., 7., 0.), None, 90000, 0, 24.),        # after the end of the run
    # the same with many elements
    'I': (700, (10., 1., 0.), None, 0, 0, 2100.),
    'C': (1300, (11., 2., 0.), (11.2, 2.2, 0.), 0, 2250, 6500.),
    'X': (900, (19.9, 4., 0.), (19.5, 4., 0.), 450, 0, 6300.),
    'Y': (1100, (19.97, 5., 0.), None, 0, 2700, 12100.),
}
PER = {k: v[5] / v[0] for k, v in MENU.items()}          # mass of one element: identifies the spill


def spill(kind):
    n, a, b, off, dur, amt = MENU[kind]
    return gs.point_line_spill(num_elements=n, start_position=a, end_position=b,
                               release_time=T0 + secs(off), end_release_time=T0 + secs(off + dur),
                               amount=amt, units='kg', on=kind != 'o')


def model(kinds, unc):
    m = Model(start_time=T0, duration=secs(DT * NSTEP), time_step=DT, uncertain=unc,
              map=GnomeMap(map_bounds=((0., -10.), (20., -10.), (20., 20.), (0., 20.))))
    for k in kinds:
        m.spills += spill(k)
    m.movers += SimpleMover((12., .5, 0.), uncertainty_scale=0.)
    return m


KEYS = ('positions', 'mass', 'init_mass', 'status_codes', 'age', 'last_water_positions', 'next_positions', 'density')
_alone = {}


def alone(kind):
    """per step: what a spill does when it is the only one"""
    if kind not in _alone:
        m = model([kind], False)
        out = []
        for k in range(m.num_time_steps):
            m.step()
            sc = m.spills.items()[0]
            out.append({q: sc[q].copy() for q in KEYS if q in sc})
        _alone[kind] = out
    return _alone[kind]


def integrity(m, kinds, ids, what):
    sig = []
    for si, sc in enumerate(m.spills.items()):
        n = len(sc)
        for name in sc.keys():
            check(len(sc[name]) == n, '%s set %d: array %s has %d rows, %d elements', what, si, name, len(sc[name]), n)
        eid = sc['id'].tolist()
        check(len(set(eid)) == n, '%s set %d: ids repeat: %s', what, si, eid)
        sn = sc['spill_num']
        check(n == 0 or (sn.min() >= 0 and sn.max() < len(kinds)), '%s set %d: spill_num %s', what, si, sn)
        snl, im = sn.tolist(), sc['init_mass'].tolist()
        for j in range(n):
            kind = kinds[snl[j]]
            check(abs(im[j] - PER[kind]) < 1e-9, '%s set %d: an element of %s is attributed to spill %d (%s)',
                  what, si, im[j], snl[j], kind)
            first = ids[si].setdefault(eid[j], (snl[j],))
            check(first == (snl[j],), '%s set %d: id %d moved from spill %s to %s', what, si, eid[j], first, sn[j])
        gone = ids[si].setdefault('gone', set())
        check(not gone & set(eid), '%s set %d: removed ids came back: %s', what, si, gone & set(eid))
        now = set(eid)
        for i in list(ids[si]):
            if i != 'gone' and i not in now:
                gone.add(i)
        for i, sp in enumerate(m.spills):
            mask = sc.get_spill_mask(list(sc.spills)[i])
            check((mask == (sn == i)).all(), '%s: spill mask of spill %d wrong', what, i)
        sig.append(n)
    return tuple(sig)


def run_interfere(case):
    kinds, unc = case
    m = model(kinds, unc)
    ids = [{}, {}]
    trace = []
    for k in range(m.num_time_steps):
        m.step()
        trace.append(integrity(m, kinds, ids, '%s step %d' % (kinds, k)))
        got = m.spills.items()
        for si, sc in enumerate(got):
            total = 0
            for i, kind in enumerate(kinds):
                want = alone(kind)[k]
                mask = sc['spill_num'] == i
                total += len(want['mass'])
                for q in want:
                    g = sc[q][mask]
                    check(g.shape == want[q].shape and (g == want[q]).all(),
                          '%s step %d set %d: %s of spill %d (%s) is %s; alone it is %s', kinds, k, si, q, i, kind,
                          g.tolist(), want[q].tolist())
            check(total == len(sc), '%s step %d: %d elements, spills account for %d', kinds, k, len(sc), total)
    # nothing outside the map is kept, nothing inside is dropped: implied by alone(); check alone itself
    return {'states': len(trace), 'transitions': len(trace), 'sig': (tuple(trace), kinds)}


def run_alone(kind):
    """the removal rule itself, against arithmetic"""
    n, a, b, off, dur, amt = MENU[kind]
    m = model([kind], False)
    prev = {}
    for k in range(m.num_time_steps):
        before = dict(prev)
        m.step()
        sc = m.spills.items()[0]
        cur = {i: p.copy() for i, p in zip(sc['id'].tolist(), sc['positions'])}
        for i, p in cur.items():
            check(p[0] <= 20. + 1e-12, 'step %d: element %d is kept outside the map at %s', k, i, p)
        # metres per degree on this model's sphere taken from an element that stays
        for i, p in before.items():
            dlon = 12. * DT / (111120.00024 * np.cos(np.deg2rad(p[1])))
            if i not in cur:
                check(p[0] + dlon * 1.01 > 20., 'step %d: element %d at %s was dropped, its move ends inside', k, i, p)
            else:
                check(abs(cur[i][0] - p[0] - dlon) < 1e-3 * dlon, 'step %d: element %d moved %s, expected %s', k, i, cur[i][0] - p[0], dlon)
        prev = cur
        mb = sc.mass_balance
        lost = amt / n * (sc['id'].max() + 1 - len(sc) if len(sc) else 0)
        if len(sc):
            check(abs(mb['off_maps'] - lost) < 1e-9 * amt, 'step %d: off_maps %r, %r left', k, mb['off_maps'], lost)
    return {'states': k + 1, 'transitions': k}


# -------------------------------------------------------- edits of the spill list
EDITS = [('add', 'i'), ('add', 'c'), ('add', 'x'), ('rm', 0), ('rm', -1), ('rmobj', 0), ('set', 0, 'l'),
         ('set', -1, 'x'), ('toggle', 0), ('unc',), ('run',), ('clear',)]


def run_edit(case):
    ops = case
    kinds = ['i', 'y']
    off = [False, False]
    m = model(kinds, False)
    unc = False
    for op in ops:
        o = op[0]
        if o == 'add':
            if len(kinds) < 4:
                m.spills += spill(op[1])
                kinds.append(op[1])
                off.append(False)
        elif o == 'rm' and kinds:
            idx = op[1] % len(kinds)
            del m.spills[idx]
            del kinds[idx], off[idx]
        elif o == 'rmobj' and kinds:
            sp = m.spills[op[1]]
            m.spills.remove(sp.id)
            del kinds[op[1]], off[op[1]]
        elif o == 'set' and kinds:
            idx = op[1] % len(kinds)
            m.spills[idx] = spill(op[2])
            kinds[idx], off[idx] = op[2], False
        elif o == 'toggle' and kinds:
            off[op[1]] = not off[op[1]]
            m.spills[op[1]].on = not off[op[1]]
        elif o == 'unc':
            unc = not unc
            m.uncertain = unc
        elif o == 'clear':
            m.spills.clear()
            kinds, off = [], []
        m.rewind()
        check(len(m.spills) == len(kinds), 'after %s: %d spills, expected %s', ops, len(m.spills), kinds)
        got = [next(k for k in MENU if PER[k] * MENU[k][0] == sp.amount and MENU[k][0] == sp.num_elements) for sp in m.spills]
        check(got == kinds, 'after %s: spills %s, expected %s', ops, got, kinds)
        for i, sp in enumerate(m.spills):
            check(m.spills.index(sp) == i and m.spills[i] is sp and m.spills[sp.id] is sp, 'after %s: index of spill %d', ops, i)
            check(sp in m.spills, 'after %s: spill %d not contained', ops, i)
        for sc in m.spills.items():
            check(len(sc.spills) == len(kinds), 'after %s: %d spills in the %s set, expected %s', ops, len(sc.spills),
                  'uncertain' if sc.uncertain else 'forecast', kinds)
        if o == 'run' or op is ops[-1]:
            m.rewind()
            ids = [{}, {}]
            for k in range(m.num_time_steps):
                m.step()
                integrity(m, kinds, ids, '%s step %d' % (ops, k))
                for si, sc in enumerate(m.spills.items()):
                    for i, kind in enumerate(kinds):
                        want = alone(kind)[k]['positions'] if not off[i] else np.zeros((0, 3))
                        g = sc['positions'][sc['spill_num'] == i]
                        check(g.shape == want.shape and (g == want).all(),
                              '%s step %d set %d: spill %d (%s) has %s, alone %s', ops, k, si, i, kind, g.tolist(), want.tolist())
            m.rewind()
    return {'states': len(ops) + 1, 'transitions': len(ops), 'sig': (tuple(kinds), tuple(off), unc)}


# ------------------------------------------------------------- splitting elements
def run_split(case):
    kinds, unc, at, which, num, fracs = case
    m = model(kinds, unc)
    for i in range(at + 1):
        m.step()
    sc = m.spills.items()[-1]
    if len(sc) <= which:
        return {'trivial': True}
    before = {k: sc[k].copy() for k in sc.keys()}
    ident = int(sc['id'][which])
    frac = None
    if fracs:
        raw = [float(i + 1) for i in range(num)]
        frac = [r / sum(raw) for r in raw]
    sc.split_element(ident, num, frac)
    n = len(before['id'])
    check(len(sc) == n + num - 1, '%d elements after a split of 1 in %d among %d', len(sc), num, n)
    part = np.asarray(frac if frac else [1. / num] * num)
    for name in sc.keys():
        a, b = before[name], sc[name]
        check(len(b) == n + num - 1, '%s has %d rows', name, len(b))
        check(np.array_equal(b[:which], a[:which], equal_nan=True)
              and np.array_equal(b[which + num:], a[which + 1:], equal_nan=True), '%s: other elements changed', name)
        new = b[which:which + num]
        if name in ('mass', 'init_mass', 'mass_components'):
            want = a[which] * part
            if name != 'init_mass' or np.allclose(new, want):
                check(np.allclose(new, want, rtol=1e-12), '%s split into %s, expected %s', name, new, want)
        else:
            check(np.array_equal(new, np.broadcast_to(a[which], new.shape), equal_nan=True), '%s of the pieces is %s, was %s', name, new, a[which])
    check(abs(sc['mass'].sum() - before['mass'].sum()) < 1e-9, 'mass %r became %r', before['mass'].sum(), sc['mass'].sum())
    # the run goes on with aligned arrays
    for k in range(2):
        m.step()
        for name in sc.keys():
            check(len(sc[name]) == len(sc['id']), 'after the split, array %s has %d rows, %d elements', name, len(sc[name]), len(sc['id']))
    return {'sig': case}


# ------------------------------------------------------------- how old elements are
def run_age(case):
    kinds, unc, back, dt = case
    s = -1 if back else 1
    m = Model(start_time=T0, duration=secs(dt * 5), time_step=dt, uncertain=unc, run_backwards=back)
    for n, off, dur in kinds:
        m.spills += gs.point_line_spill(num_elements=n, start_position=(10., 1., 0.), release_time=T0 + s * secs(off * dt),
                                        end_release_time=T0 + s * secs((off + dur) * dt), amount=n, units='kg')
    m.movers += SimpleMover((.5, .5, 0.))
    for rep in range(2):
        m.rewind()
        last = {}
        for k in range(m.num_time_steps):
            m.step()
            for si, sc in enumerate(m.spills.items()):
                age = sc['age']
                for j, i in enumerate(sc['id'].tolist()):
                    a = int(age[j])
                    if (si, i) in last:
                        check(a == last[si, i] + dt, '%s step %d: element %d is %d s old, it was %d a step of %d s ago', case, k, i, a, last[si, i], dt)
                    else:
                        check(a in (0, dt) and (k or a == 0), '%s step %d: new element %d is %d s old, the step is %d s', case, k, i, a, dt)
                        n, off, dur = kinds[int(sc['spill_num'][j])]
                        if dur == 0:
                            # first half of the step: it was moved and aged with the others
                            want = 0 if off == 0 or off % 1 > .5 or off % 1 == 0 else dt
                            if off % 1 not in (0., .5):
                                check(a == want, '%s step %d: element released at step %r is %d s old', case, k, off, a)
                    last[si, i] = a
    return {'states': 2 * m.num_time_steps, 'transitions': 2 * m.num_time_steps}


def age_cases():
    one = [(2, 0, 0), (2, .25, 0), (2, 1, 0), (3, 1.75, 0), (1, 3.5, 0)]
    cont = [(8, 0, 2), (9, .5, 3.25)]
    for dt in (900, 7, 86400):
        for unc in (False, True):
            for n in (1, 2):
                for ks in itertools.product(one, repeat=n):
                    yield ks, unc, True, dt
                for ks in itertools.product(one + cont, repeat=n):
                    yield ks, unc, False, dt


def parts(tier):
    q = tier == 'quick'
    K = 'iclxyon'

    def icases():
        for n in range(1, 4 if q else 5):
            for ks in itertools.product(K, repeat=n):
                # equal kinds twice cannot be told apart by mass but are still compared
                yield ks, False
                if n < 3 or not q:
                    yield ks, True

    def mcases():
        # many spills, many elements
        for n in (5, 8, 13, 33, 70) if q else (5, 6, 7, 8, 10, 13, 17, 33, 40, 70, 130, 270):
            for r in range(7):
                ks = tuple(('iclxyon' * (n // 7 + 1))[r:] + 'iclxyon'[:r])[:n]
                yield ks, False
                if r < 2:
                    yield ks[::-1], True
        for n in (1, 2, 3):
            for ks in itertools.permutations('ICXY', n):
                yield ks, n == 2
        yield tuple('IiCcXxYyl') * 2, False

    def ecases():
        return seqs(EDITS, 3 if q else 4, 3 if q else 4)

    def scases():
        for ks in (('i',), ('c', 'x'), ('y', 'i', 'l')):
            for unc in (False, True):
                for at in (0, 1, 3):
                    for which in (0, 1, 3, 5):
                        for num in (2, 3, 5):
                            for fr in (False, True):
                                yield ks, unc, at, which, num, fr
    return [Part('alone', lambda: iter(K), run_alone, rule='removal at the map edge against arithmetic'),
            Part('interference', icases, run_interfere, rule='all line-ups of up to %d spills out of %d kinds' % (3 if q else 4, len(K))),
            Part('crowds', mcases, run_interfere, rule='line-ups of up to %d spills, spills of up to 1300 elements' % (70 if q else 270), chunk=1),
            Part('edits', ecases, run_edit, rule='all sequences of %d of %d edits of the spill list' % (3 if q else 4, len(EDITS))),
            Part('split', scases, run_split),
            Part('ages', age_cases, run_age, rule='release times x line-ups of two x direction x step: every element ages by one step per step', chunk=8)]

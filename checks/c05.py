"""C05  conservation of oil: at every step of every run the released amount is
what is still on elements plus what each process is reported to have removed."""
import itertools

from vp.core import Part, check, Violation
from vp.weath import *
from gnome.basic_types import fate
from gnome.exceptions import GnomeRuntimeError

PROPERTY = 'C05'
LEVEL = 'model_checking'
NOTE = ('every subset of the weathering and clean-up processes x release, shore, sub-step and time-step settings, '
        'run on the real model; the balance is recomputed independently at every step')
ASSUMPTIONS = ['one oil (ans_mp); tolerance 2e-6 of the released mass because the mass fractions of the oil data sum to 1.0000006',
               'dissolution and biodegradation cannot run with any oil of this version (they need sara_type)']
TOL = 2e-6


def balance(m, names, prev, what):
    """prev: dict of the previous step's {set index: (ids->mass, sinks)}"""
    sig = []
    for si, sc in enumerate(m.spills.items()):
        mb = sc.mass_balance
        mass = sc['mass']
        rel = mb['amount_released']
        tol = TOL * max(rel, 1.)
        sinks = {s: float(mb.get(s, 0.)) for s in SINKS}
        tot = mass.sum() + sum(sinks.values())
        check(abs(tot - rel) <= tol, '%s: %.6f kg released, but %.6f kg on elements + %s = %.6f kg', what, rel, mass.sum(), sinks, tot)
        check((mass >= 0).all() and np.isfinite(mass).all(), '%s: element masses %s', what, mass)
        check((mass <= sc['init_mass'] * (1 + TOL)).all(), '%s: masses %s grew beyond %s', what, mass, sc['init_mass'])
        if 'mass_components' in sc:
            mc = sc['mass_components']
            check((mc >= 0).all(), '%s: negative component mass', what)
            # (an untouched element has the components of the oil data, which sum to 1.0000006)
            check(np.allclose(mc.sum(1), mass, rtol=TOL, atol=1e-9), '%s: components sum to %s, mass is %s', what, mc.sum(1), mass)
        st = sc['status_codes']
        on_land = st == oil_status.on_land
        check(abs(mass[on_land].sum() - mb['beached']) <= tol, '%s: beached %.6f, on land are %.6f kg', what, mb['beached'], mass[on_land].sum())
        surf = (st == oil_status.in_water) & (sc['positions'][:, 2] == 0)
        check(abs(mass[surf].sum() - mb['floating']) <= tol, '%s: floating %.6f, afloat are %.6f kg', what, mb['floating'], mass[surf].sum())
        if 'fate_status' in sc and 'density' in sc and len(mass):
            nw = mass[sc['fate_status'] == fate.non_weather].sum()
            check(abs(nw - mb['non_weathering']) <= tol, '%s: not weathering %.6f, such elements hold %.6f kg', what, mb['non_weathering'], nw)
            if mass.sum() > 0:
                for k in ('density', 'viscosity'):
                    a = (mass * sc[k]).sum() / mass.sum()
                    check(abs(a - mb['avg_' + k]) <= 1e-9 * abs(a), '%s: average %s %r, the elements have %r', what, k, mb['avg_' + k], a)
        for s, v in sinks.items():
            check(v >= -1e-9, '%s: %s is %r', what, s, v)
        ids = dict(zip(sc['id'].tolist(), mass.tolist()))
        if si in prev:
            pids, psinks = prev[si]
            for s, v in sinks.items():
                check(v >= psinks[s] - 1e-9, '%s: %s fell from %r to %r', what, s, psinks[s], v)
            land = {i for i, l in zip(sc['id'].tolist(), on_land) if l}
            for i, v in ids.items():
                if i in pids:
                    check(v <= pids[i] * (1 + TOL) + 1e-9, '%s: element %d grew from %r to %r kg', what, i, pids[i], v)
                    if i in land:
                        check(abs(v - pids[i]) <= 1e-9 * pids[i], '%s: element %d on land weathered from %r to %r kg', what, i, pids[i], v)
        prev[si] = (ids, sinks)
        if sc.uncertain or m.time_step < 0:
            for s, v in sinks.items():
                check(s == 'off_maps' or v == 0, '%s: %s = %r kg in a set that does not weather', what, s, v)
            check((mass == sc['init_mass']).all(), '%s: masses changed in a set that does not weather', what)
        else:
            allowed = {x for n in names for x in SINK[n]} | {'off_maps'}
            for s, v in sinks.items():
                check(s in allowed or v == 0, '%s: %s = %r kg without such a process', what, s, v)
        sig.append(tuple((s, round(v, 3)) for s, v in sorted(sinks.items())))
    return tuple(sig)


def run(case):
    names, kw = case
    kw = dict(kw)
    m = make(names, **kw)
    prev = {}
    sig = []
    expected = sum(sp.get_mass() for sp in m.spills)
    for k in range(m.num_time_steps):
        m.step()
        sig.append(balance(m, names, prev, 'step %d' % k))
    for sc in m.spills.items():
        check(abs(sc.mass_balance['amount_released'] - expected) <= 1e-9 * expected, 'released %r kg in all, spilled %r',
              sc.mass_balance['amount_released'], expected)
    return {'states': len(sig), 'transitions': len(sig) - 1, 'sig': (names, sig[-1]), 'show': sig[-1]}


def run_refused(case):
    names, k = case
    m = make(names, **dict(k))
    try:
        m.step()
    except GnomeRuntimeError:
        return {'sig': 'refused'}
    raise Violation('a backwards run with weathering was accepted')


def subsets(names=NAMES):
    for r in range(len(names) + 1):
        for c in itertools.combinations(names, r):
            yield c


def kw(**k):
    return tuple(sorted(k.items()))


def parts(tier):
    deep = tier != 'quick'

    def open_water():
        for s in subsets():
            for sub in (1, 3):
                for rel in (0, 1500):
                    yield s, kw(substeps=sub, rel=rel)

    def shore():
        for s in subsets():
            for where in ('land', 'off', 'mixed'):
                for sub in ((1, 3) if deep else (1,)):
                    yield s, kw(where=where, substeps=sub)

    def steps():
        pick = list(subsets()) if deep else [(n,) for n in NAMES] + [tuple(NAMES), ('evap', 'nd'), ('evap', 'em', 'skim'), ('nd', 'burn')]
        for s in pick:
            for dt in (300, 600, 1800, 3600):
                for sp in (1, 2):
                    for unc in (False, True):
                        yield s, kw(dt=dt, spills=sp, unc=unc, where='mixed' if sp == 2 else 'open')

    def extremes():
        # little oil: the processes exhaust it; rough and calm weather, cold and warm
        for s in ([tuple(NAMES)] + [(n,) for n in NAMES] + [('evap', 'nd', n) for n in NAMES[3:]]
                  + (list(subsets()) if deep else [])):
            for amount, units in ((100, 'bbl'), (1, 'bbl'), (0.01, 'kg')):
                for w in (0, 1, 20, 40):
                    for t in (271., 305.):
                        yield s, kw(amount=amount, units=units, wind_ms=w, water_k=t)

    def submerged():
        # oil below the surface, all the way to the shore or over the edge of the map
        for s in (subsets() if deep else [()] + [(n,) for n in NAMES] + [('evap', 'em', 'nd'), tuple(NAMES)]):
            for where in ('open', 'land', 'off', 'mixed'):
                for depth in (.1, 5.):
                    for unc in (False, True):
                        yield s, kw(where=where, depth=depth, unc=unc)

    def long():
        # days of weathering, operations on later days, many elements
        D = 86400
        late = {'skim': (2 * D + 100, 2 * D + 9000), 'burn': (3 * D, 3 * D + 30000), 'disp': (D + 500, D + 40000), 'beach': (D - 1, 4 * D)}
        pick = [(n,) for n in NAMES] + [tuple(NAMES), tuple(NAMES[:3]), ('evap', 'nd', 'skim'), ('em', 'burn'), ('nd', 'disp', 'beach')]
        for s in list(subsets()) if deep else pick:
            for dt, dur, ne in ((3600, 5 * D, 30), (10800, 5 * D, 200)) + (((900, 5 * D, 40), (3600, 20 * D, 40)) if deep else ()):
                for w in (4, 14):
                    for rel in (0, 2 * D):
                        yield s, kw(dt=dt, dur=dur, ne=max(ne, rel // dt + 1), win=late, rel=rel, wind_ms=w)
        for s in pick[7:]:
            for ne in (1, 2, 500, 2000):
                for where in ('open', 'mixed'):
                    yield s, kw(ne=ne, where=where, rel=0)

    def backwards():
        yield (), kw(back=True, rel=0, spills=1, dur=3600)
        yield (), kw(back=True, rel=0, spills=2, dur=3600)

    def refused():
        for s in subsets():
            if s:
                yield s, kw(back=True, rel=0, spills=1, dur=3600)
    return [Part('open_water', open_water, run, rule='all 128 subsets of 7 processes x 1 or 3 weathering sub-steps x instantaneous or continuous'),
            Part('shore', shore, run, rule='all 128 subsets x beaching, leaving the map, both with refloating'),
            Part('steps', steps, run, rule='process sets x time steps x number of spills x uncertainty'),
            Part('extremes', extremes, run, rule='process sets x amounts x wind x temperature'),
            Part('submerged', submerged, run, rule='process sets x where the submerged oil goes'),
            Part('long', long, run, rule='process sets x days of weathering, operations on later days, up to 2000 elements', chunk=2),
            Part('backwards', backwards, run), Part('refused', refused, run_refused)]

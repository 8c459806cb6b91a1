"""C02  history independence: whatever was done before, a model with a given
configuration at step k is bit for bit the model freshly built with that
configuration and stepped k times."""
from vp.core import Part, check, Violation, seqs
from vp.g import *
from vp.scen2 import *

PROPERTY = 'C02'
LEVEL = 'model_checking'
NOTE = ('all operation sequences on the real Model; differential oracle: a freshly built model '
        'with the final configuration stepped the same number of times')
ASSUMPTIONS = ['single model per process; no random draws by the user between rewind and run']


class Hist(object):
    def __init__(self, scen):
        self.scen = scen
        self.cfg = dict(scen.default)
        self.k = -1
        self.m = scen.build(self.cfg)

    def n(self):
        return 1 + int(self.cfg['dur'] // self.cfg['dt'])

    def apply(self, op):
        m, cfg = self.m, self.cfg
        if op == 'step':
            if self.k < self.n() - 1:
                m.step()
                self.k += 1
            else:
                try:
                    m.step()
                except StopIteration:
                    pass
        elif op == 'rewind':
            m.rewind()
            self.k = -1
        elif op == 'full':
            m.full_run()
            self.k = self.n() - 1
        elif op == 'rest':
            m.full_run(rewind=False)
            self.k = self.n() - 1
        elif op == 'longer':
            cfg['dur'] += 2 * cfg['dt']
            m.duration = secs(cfg['dur']) * (-1 if m.run_backwards else 1)
        elif op == 'dt':
            cfg['dt'] = cfg['dt2'] if cfg['dt'] == cfg['dt1'] else cfg['dt1']
            m.time_step = secs(cfg['dt']) * (-1 if m.run_backwards else 1)
            self.k = -1
        elif op == 'unc':
            cfg['unc'] = not cfg['unc']
            m.uncertain = cfg['unc']
            self.k = -1
        else:
            self.k = self.scen.apply(op, m, cfg, self.k)


_fresh = {}


def fresh(scen, cfg, k):
    key = (scen.name, tuple(sorted(cfg.items())))
    if key not in _fresh:
        if len(_fresh) > 400:
            _fresh.clear()
        m = scen.build(cfg)
        snaps = {-1: snap(m)}
        n = 1 + int(cfg['dur'] // cfg['dt'])
        for i in range(n):
            m.step()
            snaps[i] = snap(m)
        _fresh[key] = snaps
    return _fresh[key][k]


def run(case):
    name, pre, ops = case
    scen = SCENARIOS[name]
    h = Hist(scen)
    for op in pre:
        h.apply(op)
    moved = set()
    seen = []
    for i, op in enumerate(ops):
        h.apply(op)
        # the user may look at the elements of any step
        if h.k >= 0:
            seen.append((ops[:i + 1], dict(h.cfg), h.k, snap(h.m)))
        else:
            check(all(len(sc) == 0 for sc in h.m.spills.items()), 'rewound model still has elements')
        moved.add(h.k)
    # whatever came before, a full run from here is the fresh full run
    h.apply('full')
    seen.append((ops + ('full',), dict(h.cfg), h.k, snap(h.m)))
    # (the reference models run only now: all models share the random generators)
    for done, cfg, k, got in seen:
        want = fresh(scen, cfg, k)
        # a run that has hit its end has no time stamp any more
        for g, w in zip(got, want):
            if g['#time'] is None:
                g['#time'] = w['#time']
        d = diff_snap(got, want)
        check(d is None, 'after %s at step %d: %s', pre + done, k, d)
    return {'states': len(ops) + 2, 'transitions': len(ops) + 1,
            'sig': (name, tuple(sorted(h.cfg.items())), tuple(sorted(moved)))}


def parts(tier):
    common = ['step', 'rewind', 'full', 'rest', 'longer', 'dt', 'unc']
    ps = []
    depths = {'quick': {'transport': 3, 'weather': 2, 'land': 3, 'polygon': 2, 'ways': 2},
              'thorough': {'transport': 5, 'weather': 4, 'land': 4, 'polygon': 3, 'ways': 4}}[tier]
    depths.update(dict.fromkeys(('fields', 'native', 'under', 'cleanup'), 2 if tier == 'quick' else 3))
    for name in ('transport', 'land', 'polygon', 'ways', 'weather', 'fields', 'native', 'under', 'cleanup'):
        scen = SCENARIOS[name]
        ops = common + scen.ops
        d = depths[name]

        def cases(name=name, ops=ops, d=d):
            for s in seqs(ops, d, d):
                yield name, (), s
            for s in seqs(ops, d - 1, d - 1):
                yield name, ('step', 'step'), s
            if isinstance(SCENARIOS[name], Toggle):
                # every pair of settings changed one after another, with whole or partial runs between
                for a in SCENARIOS[name].ops:
                    for b in SCENARIOS[name].ops:
                        yield name, ('full', a), ('full', b, 'step')
                        yield name, ('step', 'step', 'step', a), ('step', 'step', b, 'step', a)
        ps.append(Part(name, cases, run, timeout=300,
                       rule='all sequences of %d of %d operations, and of %d from a run in progress' % (d, len(ops), d - 1)))
    return ps

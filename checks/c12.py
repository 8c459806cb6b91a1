"""C12  collections of movers, spills, weatherers ... behave like an ordered list of distinct objects with ids."""
import itertools

from vp.core import Part, check, seqs
from vp.g import *
from gnome.utilities.orderedcollection import OrderedCollection

PROPERTY = 'C12'
LEVEL = 'model_checking'
NOTE = 'every operation sequence up to the bound on the real OrderedCollection, all observers compared with a reference list after the last operation (every prefix is itself a sequence)'
ASSUMPTIONS = ['replacing an item by one that is already elsewhere in the collection is outside the property',
               'items with an id attribute, GNOME objects and plain objects are used']


class E(object):
    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'E' + str(self.id)


class Plain(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'P%s' % self.n


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def ident(x):
    return str(x.id) if hasattr(x, 'id') else str(id(x))


ADD = [('add', 0), ('add', 1), ('add', 2), ('add', 3)]
REM = [('rem', 0), ('rem', 1), ('rem', -1), ('del', 0), ('del', -2), ('remid', 0), ('remid', 2), ('delid', 1), ('rem', 7)]
REP = [('rep', 0, 3), ('set', 1, 2), ('rep', -1, 1), ('repid', 0, 3), ('setid', 1, 0), ('rep', 5, 3)]
OTH = [('many', (0, 1)), ('many', (2, 1, 3)), ('iadd', (3,)), ('append', 2), ('clear',), ('remake',), ('update', (1, 0)), ('update', (2,)), ('reverse',)]
ALL = ADD + REM + REP + OTH
CORE = [('add', 0), ('add', 1), ('add', 2), ('many', (3, 1)), ('rem', 0), ('rem', -1), ('remid', 1), ('rep', 0, 3), ('rep', -1, 0), ('repid', 1, 2), ('remake',), ('reverse',)]


def apply(oc, ref, pool, op, fired, want):
    """runs op on both; returns whether both raised"""
    k = op[0]
    e = None
    new = list(ref)
    ev = []
    if k in ('add', 'append'):
        x = pool[op[1]]
        if x not in ref:
            new.append(x)
            ev.append(('add', x))
        act = lambda: getattr(oc, k)(x)
    elif k in ('many', 'iadd'):
        for j in op[1]:
            if pool[j] not in new:
                new.append(pool[j])
                ev.append(('add', pool[j]))
        xs = [pool[j] for j in op[1]]
        act = (lambda: oc.add(xs)) if k == 'many' else (lambda: oc.__iadd__(xs))
    elif k in ('rem', 'del'):
        j = op[1]
        try:
            ev.append(('remove', new[j]))
            del new[j]
        except IndexError:
            e = (IndexError, KeyError)
        act = (lambda: oc.remove(j)) if k == 'rem' else (lambda: oc.__delitem__(j))
    elif k in ('remid', 'delid'):
        x = pool[op[1]]
        if x in new:
            new.remove(x)
            ev.append(('remove', x))
        else:
            e = (KeyError, IndexError, ValueError)
        act = (lambda: oc.remove(ident(x))) if k == 'remid' else (lambda: oc.__delitem__(ident(x)))
    elif k in ('rep', 'set', 'repid', 'setid'):
        x = pool[op[2]]
        if k in ('rep', 'set'):
            key = op[1]
            try:
                j = range(len(new))[key]
            except IndexError:
                j, e = None, (IndexError, KeyError)
        else:
            y = pool[op[1]]
            key = ident(y)
            if y in new:
                j = new.index(y)
            else:
                j, e = None, (KeyError, IndexError, ValueError)
        if j is not None:
            if x in new and new[j] is not x:
                return None         # outside the property
            new[j] = x
            ev.append(('replace', x))
        act = (lambda: oc.replace(key, x)) if k in ('rep', 'repid') else (lambda: oc.__setitem__(key, x))
    elif k == 'clear':
        new = []
        act = oc.clear
        ev = None
    elif k == 'remake':
        act = oc.remake
    elif k == 'update':
        new = [pool[j] for j in op[1]]
        act = lambda: oc.update(list(new))
        ev = None
    elif k == 'reverse':
        new = new[::-1]
        act = lambda: oc.update(list(new))
        ev = None
    del fired[:]
    if e:
        try:
            act()
        except e:
            pass
        else:
            check(False, '%s on %s did not fail', op, ref)
        check(not fired, '%s failed but fired %s', op, fired)
        return ref
    act()
    if ev is not None:
        check(same([x for a in fired for x in a], [x for a in ev for x in a]) or
              [(a, ident(b)) for a, b in fired] == [(a, ident(b)) for a, b in ev], '%s on %s fired %s, expected %s', op, ref, fired, ev)
    return new


def observe(oc, ref, pool):
    n = len(ref)
    check(len(oc) == n, 'len is %d, expected %d', len(oc), n)
    check(same(list(oc), ref), 'iterates over %s, expected %s', list(oc), ref)
    check(same(list(oc.values()), ref), 'values() is %s, expected %s', oc.values(), ref)
    for j in range(-n - 1, n + 1):
        try:
            w = ref[j]
        except IndexError:
            for f in (oc.__getitem__, oc.get):
                try:
                    f(j)
                except IndexError:
                    pass
                else:
                    check(False, 'position %d of %d does not fail', j, n)
            continue
        check(oc[j] is w and oc.get(j) is w, 'item %d is %s, expected %s', j, oc[j], w)
    for s in (slice(None), slice(1, None), slice(None, -1), slice(None, None, -1), slice(0, 5, 2), slice(-2, None)):
        check(same(list(oc[s]), ref[s]), '%s is %s, expected %s', s, oc[s], ref[s])
    for x in pool:
        check((x in oc) == (x in ref), '%s in collection is %s', x, x in oc)
        if x in ref:
            check(oc[ident(x)] is x and oc.get(ident(x)) is x, 'by id: %s', x)
            check(oc.index(x) == ref.index(x), 'index(%s) is %s, expected %s', x, oc.index(x), ref.index(x))
            check(oc.index(ident(x)) == ref.index(x), 'index by id of %s', x)
        else:
            try:
                oc[ident(x)]
            except KeyError:
                pass
            else:
                check(False, '%s is found by id after its removal', x)
            try:
                oc.index(x)
            except ValueError:
                pass
            else:
                check(False, 'index(%s) of an absent item', x)
    check([d['id'] for d in oc.to_dict()] == [ident(x) for x in ref], 'to_dict is %s', oc.to_dict())
    t = type(pool[0])
    check(oc == OrderedCollection(list(ref), dtype=t) and not (oc != OrderedCollection(list(ref), dtype=t)), 'not equal to a new collection of the same items %s', ref)
    if ref:
        check(oc != OrderedCollection(list(ref)[:-1], dtype=t), 'equal to a shorter collection')
    if n > 1:
        check(oc != OrderedCollection(list(ref)[::-1], dtype=t), 'equal to the reversed collection')
    str(oc), repr(oc)


def pool_of(kind):
    if kind.startswith('big'):
        return [E('k%d' % i if kind == 'bigid' else i) for i in range(45)]
    if kind == 'id':
        return [E('a'), E('b'), E('c'), E('d')]
    if kind == 'int-id':
        return [E(0), E(1), E(2), E(3)]
    if kind == 'plain':
        return [Plain(i) for i in range(4)]
    return [SimpleMover(velocity=(i, 0, 0), name='m%d' % i) for i in range(4)]


def run(case):
    kind, init, ops = case
    pool = pool_of(kind)
    ref = [pool[j] for j in init]
    src = list(ref)
    oc = OrderedCollection(src, dtype=type(pool[0]))
    fired = []
    for ev in ('add', 'remove', 'replace'):
        oc.register_callback(lambda o, ev=ev: fired.append((ev, o)), ev)
    for op in ops:
        r = apply(oc, ref, pool, op, fired, None)
        if r is None:
            return dict(trivial=True)
        ref = r
    observe(oc, ref, pool)
    check(same(src, [pool[j] for j in init]), 'the list the collection was built from changed')
    # wrong types are refused and change nothing
    for f in (lambda: oc.add(object()), lambda: oc.add([object()]), lambda: oc.replace(0, object())):
        try:
            f()
        except (TypeError, IndexError):
            pass
        else:
            check(False, 'an item of a wrong type was accepted')
    observe(oc, ref, pool)
    return dict(states=1, transitions=len(ops), sig=tuple(ident(x) if kind != 'gnome' and kind != 'plain' else pool.index(x) for x in ref) + (ops[-1:],))


BIG = [('add', 44), ('append', 3), ('rem', 0), ('rem', 9), ('rem', 10), ('rem', -1), ('rem', -11), ('del', 11), ('remid', 10), ('remid', 0),
       ('delid', 7), ('delid', 44), ('rem', 100), ('rem', -100), ('rep', 10, 44), ('set', -1, 43), ('set', -12, 44), ('repid', 9, 43), ('setid', 11, 44),
       ('rep', 100, 43), ('many', (41, 42, 43)), ('iadd', (44, 43)), ('remake',), ('update', tuple(range(40, 4, -1))), ('reverse',), ('clear',)]


def cases(kinds, alphabet, depth, inits):
    def it():
        for k in kinds:
            for i in inits:
                for s in seqs(alphabet, depth):
                    yield (k, i, s)
    return it


def parts(tier):
    q = tier == 'quick'
    big = [tuple(range(12)), tuple(range(11, -1, -1)), tuple(range(17)), tuple(range(40))] + ([] if q else [tuple(range(n)) for n in (8, 9, 10, 11, 16, 32, 33)])
    return [Part('large', cases(['bigid', 'bigint'], BIG, 2 if q else 3, big), run, chunk=20, rule='every sequence over 26 operations on collections of up to 40 items'),
            Part('all_ops', cases(['id'], ALL, 3 if q else 4, [(), (0, 1, 2)]), run, chunk=50, rule='every sequence over 28 operations'),
            Part('core_ops', cases(['id'], CORE, 4 if q else 5, [(), (2, 0)]), run, chunk=50, rule='every sequence over 12 operations'),
            Part('kinds', cases(['int-id', 'plain', 'gnome'], ALL, 2, [(0, 1, 2), (3, 1)]), run, chunk=50, rule='items with integer ids, no ids, GNOME objects')]

"""C16  archives from elsewhere: nothing is written outside, damaged ones are refused, re-packed ones load."""
import itertools
import os
import shutil
import tempfile
import zipfile

from vp.core import Part, check, scratch_dir
from vp.g import *
from vp.objs import *
from gnome.persist import is_savezip_valid
from gnome.persist import save_load
from gnome.utilities import save_updater

PROPERTY = 'C16'
LEVEL = 'model_checking'
NOTE = 'every member name (and pair), every damaged byte, every truncation, every size around the limits and every layout of the stated grids, on the real functions; the whole scratch tree is compared before and after'
ASSUMPTIONS = ['all writes stay in a nested scratch directory even if the code under test would not contain them (absolute names point into that scratch too)']


def tree(root):
    out = {}
    for dp, dn, fn in os.walk(root):
        for n in dn:
            out[os.path.join(dp, n)] = 'dir'
        for n in fn:
            p = os.path.join(dp, n)
            out[p] = open(p, 'rb').read() if not os.path.islink(p) else os.readlink(p)
    return out


class Nest(object):
    """root/a/b/c/to: room for a few '..' inside the scratch"""

    def __enter__(self):
        self.root = os.path.realpath(scratch_dir('c16'))
        self.to = os.path.join(self.root, 'a', 'b', 'c', 'to')
        self.tmp = os.path.join(self.root, 'a', 'b', 'c', 'tmp')
        self.src = os.path.join(self.root, 'src')
        for d in (self.to, self.tmp, self.src, os.path.join(self.root, 'a', 'b', 'c', 'sub')):
            os.makedirs(d)
        for d in ('', 'a', 'a/b', 'a/b/c', 'a/b/c/sub'):
            with open(os.path.join(self.root, d, 'x.json'), 'w') as f:
                f.write('precious')
        self.old = tempfile.tempdir
        tempfile.tempdir = self.tmp
        self.cwd = os.getcwd()
        os.chdir(os.path.join(self.root, 'a', 'b', 'c', 'sub'))
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        tempfile.tempdir = self.old
        shutil.rmtree(self.root, ignore_errors=True)

    def outside(self, before, allowed):
        now = tree(self.root)
        bad = []
        for p in sorted(set(before) | set(now)):
            if before.get(p) != now.get(p) and not (p + os.sep).startswith(allowed + os.sep):
                bad.append(p[len(self.root):])
        return bad


NAMES = ['x.json', '../x.json', '../../x.json', '../../../x.json', 'ROOT/x.json', 'ROOT/a/x.json', 'a/../../x.json', './x.json', '..\\x.json', '..\\..\\x.json',
         'C:\\x.json', '\\x.json', '..', '.', '../', '../..', 'd/', 'd/x.json', '../sub/x.json', 'd/../x.json', 'd//x.json', '*../x.json', 'x.json/', '..?', '|..', '?x.json', 'sub/../..', '....//x.json', '%2e%2e/x.json', '__MACOSX/../../x.json']
WAYS = ['updater', 'updater_path', 'save_load', 'save_load_prefix', 'load_path', 'load_zip']


def names_run(case):
    names, way = case
    with Nest() as n:
        names = [x.replace('ROOT', n.root) for x in names]
        z = os.path.join(n.src, 'h.zip')
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with zipfile.ZipFile(z, 'w') as zf:
                for i, x in enumerate(names):
                    zi = zipfile.ZipInfo('placeholder')
                    zi.filename = x
                    zf.writestr(zi, 'evil %d' % i if not x.endswith('/') else '')
        before = tree(n.root)
        v = is_savezip_valid(z)
        check(v in (True, False), 'is_savezip_valid() = %r', v)
        if any('..' in x for x in names):
            check(v is False, 'accepted an archive with the names %s', names)
        raised = None
        allowed = n.to
        try:
            if way == 'updater':
                with zipfile.ZipFile(z) as zf:
                    save_updater.extract_zipfile(zf, n.to)
            elif way == 'updater_path':
                save_updater.extract_zipfile(z, n.to)
            elif way == 'save_load':
                with zipfile.ZipFile(z) as zf:
                    save_load.extract_zipfile(zf, n.to)
            elif way == 'save_load_prefix':
                with zipfile.ZipFile(z) as zf:
                    save_load.extract_zipfile(zf, n.to, 'd/')
            elif way == 'load_path':
                allowed = n.tmp
                Model.load(z)
            else:
                allowed = n.tmp
                with zipfile.ZipFile(z) as zf:
                    Model.load(zf)
        except Exception as e:
            raised = type(e).__name__
        bad = n.outside(before, allowed)
        check(not bad, 'written or altered outside: %s', bad)
        if way.startswith('load'):
            check(raised, 'loaded something from junk')
        elif raised is None and names == ['x.json']:
            check(way == 'save_load_prefix' or os.listdir(n.to) == ['x.json'], 'not extracted: %s', os.listdir(n.to))
    return dict(sig=(case[0], way, raised), states=1)


def names_cases(pairs):
    def it():
        for w in WAYS:
            for a in NAMES:
                yield ((a,), w)
            if pairs or w == 'updater':
                for a, b in itertools.product(NAMES, repeat=2):
                    yield ((a, b), w)
    return it


# ------------------------------------------------------------------ damage

_B = {}


def victim(kind):
    if kind not in _B:
        d = scratch_dir('c16v')
        if kind == 'small':
            o = PointWindMover(constant_wind(5, 30), name='n')
        else:
            w = constant_wind(5, 30)
            o = Model(start_time=T0, time_step=900, duration=hrs(1), environment=[w], movers=[PointWindMover(w, name='mv')], name='m')
        f = os.path.join(d, 'x.gnome')
        o.save(f)
        with zipfile.ZipFile(f) as z:
            members = {n: z.read(n) for n in z.namelist()}
        # stored as well: damage then hits the content itself
        g = os.path.join(d, 's.gnome')
        with zipfile.ZipFile(g, 'w', zipfile.ZIP_STORED) as z:
            for n in members:
                z.writestr(zipfile.ZipInfo(n), members[n])
        _B[kind] = (o, open(f, 'rb').read(), open(g, 'rb').read(), members)
        shutil.rmtree(d)
    return _B[kind]


def damage_run(case):
    kind, stored, how, lo, hi = case
    o, a, b, members = victim(kind)
    data = b if stored else a
    st = acc = 0
    with Nest() as n:
        before = tree(n.root)
        g = os.path.join(n.tmp, 'y.gnome')
        for i in range(lo, min(hi, len(data))):
            alts = [data[:i]] if how == 'cut' else [data[:i] + bytes([x]) + data[i + 1:] for x in sorted({data[i] ^ 0xff, data[i] ^ 1, data[i] ^ 0x80, 0} - {data[i]})] \
                if how == 'byte' else [data[:i] + data[i + 1:]] if how == 'drop' else [data[:i] + data[i:i + 1] + data[i:]]
            for bad in alts:
                st += 1
                with open(g, 'wb') as f:
                    f.write(bad)
                try:
                    v = is_savezip_valid(g)
                except Exception as e:
                    check(False, '%s at byte %d: is_savezip_valid() raised %r', how, i, e)
                check(v in (True, False), 'is_savezip_valid() = %r', v)
                if how == 'cut':
                    check(v is False, 'accepted an archive cut off after %d of %d bytes', i, len(data))
                if v:
                    acc += 1
                    with zipfile.ZipFile(g) as z:
                        for m in z.namelist():
                            if m in members:
                                check(z.read(m) == members[m], '%s at byte %d: accepted, but %s is damaged', how, i, m)
        bad = n.outside(before, n.tmp)
        check(not bad, 'written outside: %s', bad)
    return dict(states=st, transitions=st, sig=(case, acc))


def damage_cases(hows, kinds):
    def it():
        for k in kinds:
            for stored in (False, True):
                ln = len(victim(k)[2 if stored else 1])
                for how in hows:
                    for lo in range(0, ln, 128):
                        yield (k, stored, how, lo, lo + 128)
    return it


# ------------------------------------------------------------------ limits

def limit_run(case):
    kind, size, name, at = case
    with Nest() as n:
        g = os.path.join(n.tmp, 'y.zip')
        rnd = np.random.RandomState(3)
        with zipfile.ZipFile(g, 'w', zipfile.ZIP_DEFLATED if kind == 'ratio' else zipfile.ZIP_STORED) as z:
            z.writestr('version.txt', '5')
            for i in range(at):
                z.writestr('ok%d.json' % i, '{}')
            z.writestr(name, b'a' * size if kind == 'ratio' else rnd.bytes(size))
            z.writestr('last.json', '{}')
            zi = z.getinfo(name)
            cs, fs = zi.compress_size, zi.file_size
        if kind == 'size':
            lim = 1000
            got = is_savezip_valid(g, max_json_filesize=lim)
            want = not (name.endswith('.json') and size > lim)
        elif kind == 'default':
            got = is_savezip_valid(g)
            want = not (name.endswith('.json') and size > 1024 * 1024)
        else:
            got = is_savezip_valid(g)
            want = not (cs > 0 and fs / cs > 54)
        check(got is want, 'size %d, compressed %d: %s, expected %s', fs, cs, got, want)
    return dict(sig=(kind, name, want))


def limit_cases():
    for at in (0, 1, 3):
        for name in ('m.json', 'data.nc'):
            for s in (0, 1, 999, 1000, 1001, 5000):
                yield ('size', s, name, at)
            for s in (1024 * 1024 - 1, 1024 * 1024, 1024 * 1024 + 1):
                yield ('default', s, name, at)
            for s in list(range(0, 1200, 7)) + [10000]:
                yield ('ratio', s, name, at)


# ----------------------------------------------------------------- layouts

def layout_cases():
    for kind in ('small', 'model'):
        members = sorted(victim(kind)[3])
        for perm in (itertools.permutations(members) if kind == 'small' else (members[i:] + members[:i] for i in range(len(members)))):
            for folder in ('', 'save/', 'my save.gnome/', 'ü/'):
                for entry in (False, True):
                    for mac in (False, True):
                        if not folder and entry:
                            continue
                        for comp in (0, 8):
                            yield (kind, tuple(perm), folder, entry, mac, comp)


def layout_run(case):
    kind, perm, folder, entry, mac, comp = case
    o, _, _, members = victim(kind)
    with Nest() as n:
        g = os.path.join(n.src, 'y.zip')
        with zipfile.ZipFile(g, 'w', comp) as z:
            if entry:
                z.writestr(folder, '')
            if mac:
                z.writestr('__MACOSX/', '')
                if folder and entry:
                    z.writestr('__MACOSX/' + folder, '')
            for m in perm:
                z.writestr(folder + m, members[m])
                if mac:
                    z.writestr('__MACOSX/' + folder + '._' + m, b'\x00\x05\x16\x07\xff\xfe')
        check(is_savezip_valid(g), 'a good archive was refused')
        before = tree(n.root)
        l = type(o).load(g)
        check(l == o, 'loaded differs: %s', o._diff(l))
        with zipfile.ZipFile(g) as z:
            l = type(o).load(z)
        check(l == o, 'loaded from the open archive differs: %s', o._diff(l))
        bad = n.outside(before, n.tmp)
        check(not bad, 'written outside: %s', bad)
    return dict(sig=case)


# ------------------------------------------------- what PyGnome writes is accepted

TAB = table()


def own_cases():
    for n, (cls, fixed, attrs) in TAB.items():
        yield (n, ())
        for a, vs in attrs.items():
            if not a.startswith('_p'):
                for i in range(len(vs)):
                    yield (n, ((a, i),))


def own_run(case):
    n, choice = case
    o = make(TAB[n], {a: TAB[n][2][a][i] for a, i in choice})
    with Nest() as x:
        g = os.path.join(x.tmp, 'y.gnome')
        o.save(g)
        check(is_savezip_valid(g) is True, 'refuses what %s.save() wrote', n)
    return dict(sig=case)


def parts(tier):
    q = tier == 'quick'
    return [Part('names', names_cases(not q), names_run, chunk=8, rule='all member names' + (' (pairs for one way)' if q else ' and pairs, all ways to extract')),
            Part('damage', damage_cases(('byte', 'cut') if q else ('byte', 'cut', 'drop', 'double'), ('small',) if q else ('small', 'model')), damage_run,
                 rule='every byte altered four ways, every truncation' + ('' if q else ', every byte dropped or doubled')),
            Part('limits', limit_cases, limit_run, chunk=8, rule='sizes around the limits'),
            Part('layouts', layout_cases, layout_run, chunk=8, rule='member orders x folder x macOS metadata x compression'),
            Part('own', own_cases, own_run, chunk=8, rule='every object of the table')]

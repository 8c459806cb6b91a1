"""Builds the native part of /repo/py_gnome (C++ library and Cython modules)
from the current working tree into a private prefix under /verif/build, keyed
by the contents of every native source file.  Nothing under /repo is written
and the in-place extension modules there (which may be stale) are not used."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'py_gnome')
BUILD = os.path.join(VERIF, 'build')
PY = '/opt/venv/bin/python'


class BuildFailed(Exception):
    pass


def native_files():
    out = []
    for sub, exts in (('lib_gnome', None),
                      ('gnome/cy_gnome', ('.pyx', '.pxd', '.pxi')),
                      ('gnome/utilities/geometry', ('.pyx', '.pxd', '.c', '.h', '.cpp')),
                      ('cmake', None)):
        base = os.path.join(SRC, sub)
        for dp, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                if f.endswith('.so') or f.endswith('.pyc'):
                    continue
                if exts is None or f.endswith(exts):
                    out.append(os.path.join(dp, f))
    out.append(os.path.join(SRC, 'CMakeLists.txt'))
    return out


def source_hash():
    h = hashlib.sha256()
    for f in native_files():
        h.update(os.path.relpath(f, SRC).encode())
        h.update(b'\0')
        with open(f, 'rb') as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()[:20]


def _run(cmd, env, log):
    with open(log, 'ab') as fd:
        r = subprocess.run(cmd, stdout=fd, stderr=subprocess.STDOUT, env=env)
    if r.returncode:
        with open(log, 'rb') as fd:
            tail = fd.read()[-4000:].decode('utf-8', 'replace')
        raise BuildFailed('native build failed: %s\n%s' % (' '.join(cmd), tail))


def ensure():
    """returns the prefix that holds gnome/cy_gnome/*.so etc."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = source_hash()
        prefix = os.path.join(BUILD, 'prefix-' + key)
        if os.path.exists(os.path.join(prefix, '.ok')):
            os.utime(prefix)
            return prefix
        # keep at most two other prefixes
        old = sorted((d for d in os.listdir(BUILD) if d.startswith('prefix-')),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-2]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        bld = os.path.join(BUILD, 'tmp-' + key)
        shutil.rmtree(bld, ignore_errors=True)
        shutil.rmtree(prefix, ignore_errors=True)
        os.makedirs(bld)
        env = dict(os.environ)
        env['PATH'] = '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        log = os.path.join(bld, 'build.log')
        try:
            _run(['cmake', '-S', SRC, '-B', bld, '-G', 'Ninja',
                  '-DCMAKE_BUILD_TYPE=Release', '-DSKBUILD_PROJECT_NAME=gnome',
                  '-DPython_EXECUTABLE=' + PY,
                  '-DCMAKE_INSTALL_PREFIX=' + prefix], env, log)
            _run(['cmake', '--build', bld], env, log)
            _run(['cmake', '--install', bld], env, log)
            with open(os.path.join(prefix, '.ok'), 'w') as fd:
                fd.write(key + '\n')
        finally:
            shutil.rmtree(bld, ignore_errors=True)
        return prefix


if __name__ == '__main__':
    print(ensure())

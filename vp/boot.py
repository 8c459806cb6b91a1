"""Makes the real ``gnome`` package of /repo importable: Python sources straight
from the working tree, extension modules freshly built by vp.native, and the
stand-in for the absent third-party package ``gridded``."""
import importlib.machinery
import importlib.util
import os
import sys
import warnings

from . import native

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

_EXT = None


class _Finder(object):
    def __init__(self, prefix):
        self.map = {}
        for dp, dn, fn in os.walk(prefix):
            for f in fn:
                if '.cpython-' in f and f.endswith('.so'):
                    rel = os.path.relpath(os.path.join(dp, f), prefix)
                    name = rel.split('.cpython-')[0].replace(os.sep, '.')
                    self.map[name] = os.path.join(dp, f)

    def find_spec(self, fullname, path=None, target=None):
        p = self.map.get(fullname)
        if p is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, p)
        return importlib.util.spec_from_file_location(fullname, p, loader=loader)


def boot(native_needed=True):
    global _EXT
    if _EXT is not None:
        return
    os.environ.setdefault('TZ', 'UTC')
    import time
    time.tzset()
    if native_needed:
        prefix = native.ensure()
        _EXT = _Finder(prefix)
        sys.meta_path.insert(0, _EXT)
    else:
        _EXT = False
    sys.path.insert(0, native.SRC)
    sys.path.insert(0, os.path.join(native.VERIF, 'shim'))
    import logging
    logging.disable(logging.CRITICAL)
    import gnome
    assert os.path.realpath(gnome.__file__).startswith(os.path.realpath(native.SRC)), gnome.__file__
    warnings.simplefilter('ignore')
    warnings.showwarning = lambda *a, **k: None

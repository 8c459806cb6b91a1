"""python -m vp.run <property> [quick|thorough] [--part name] [--replay file]"""
import importlib
import os
import sys
import traceback


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    only, rep = [], None
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--part':
            only.append(args.pop(0))
        elif a == '--replay':
            rep = args.pop(0)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import native, core
    os.environ['OMP_NUM_THREADS'] = '1'
    os.environ['OPENBLAS_NUM_THREADS'] = '1'
    # every temporary file of the code under test lands in a private directory
    import tempfile
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix='vp-%s-' % pid, dir=base)
    os.environ['VP_SCRATCH'] = scratch
    os.environ['TMPDIR'] = tempfile.tempdir = scratch
    os.environ['HOME'] = scratch
    import atexit
    import shutil
    main_pid = os.getpid()
    atexit.register(lambda: os.getpid() == main_pid and shutil.rmtree(scratch, ignore_errors=True))
    try:
        from .boot import boot
        boot()
        mod = importlib.import_module('checks.' + pid.lower())
    except BaseException as e:
        # the tree under test cannot be built or imported: no behaviour of the
        # property is available at all
        rd = os.path.join(core.VERIF, 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + '-boot.txt')
        with open(path, 'w') as fd:
            fd.write(traceback.format_exc())
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    if rep:
        sys.exit(core.replay(mod, rep))
    sys.exit(core.main(mod, tier, seed, only))


if __name__ == '__main__':
    main()

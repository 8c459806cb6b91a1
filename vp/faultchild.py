"""Runs under LD_PRELOAD of csrc/fault.c: saves an object with a fault at every
file operation, one fork per fault point, and reports what the file held
afterwards.  argv: so, object, state, location, mode.  Prints one JSON object."""
import ctypes
import errno
import json
import os
import shutil
import sys
import tempfile
import traceback

MODES = {'count': 1, 'fail': 2, 'failon': 3, 'kill': 4, 'torn': 5, 'short': 6}


def main():
    so, obj, state, loc, mode = sys.argv[1:6]
    lib = ctypes.CDLL(so)
    lib.vp_disarm.restype = ctypes.c_long
    lib.vp_last.restype = ctypes.c_char_p
    lib.vp_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    from vp.boot import boot
    boot()
    from vp import faultobjs as fo
    root = tempfile.mkdtemp(prefix='fault-', dir=os.environ['VP_SCRATCH'])
    root = os.path.realpath(root)
    new = fo.OBJECTS[obj](os.path.join(root))
    newdesc = fo.desc(new)
    cls = type(new)
    old = fo.old_like(new)
    olddesc = fo.desc(old)
    oldfile = os.path.join(root, 'old.gnome')
    old.save(oldfile)
    oldbytes = open(oldfile, 'rb').read()
    check_run = fo.reference(obj, root)

    def target_of(d):
        if loc == 'dir':
            return os.path.join(d, 'out', fo.file_name(new))
        return os.path.join(d, 'out', 'x.gnome')

    def arg_of(d):
        return os.path.join(d, 'out') if loc == 'dir' else os.path.join(d, 'out', 'x.gnome')

    def content(target):
        """which complete object the file holds"""
        if not os.path.exists(target):
            return 'absent'
        b = open(target, 'rb').read()
        if b == oldbytes:
            return 'old'
        try:
            if loc == 'append':
                a = fo.OTHER.load(target)
                if fo.desc(a) != other:
                    return 'damaged: the other object in the archive differs'
            l = cls.load(target)
            d = fo.desc(l)
        except Exception as e:
            return 'damaged: %s: %s' % (type(e).__name__, e)
        if fo.same(d, newdesc):
            return 'new'
        if fo.same(d, olddesc):
            return 'old'
        return 'damaged: neither the old nor the new object'

    other = None
    if loc == 'append':
        o = fo.other()
        other = fo.desc(o)
        p = os.path.join(root, 'app.gnome')
        o.save(p)
        oldbytes = open(p, 'rb').read()

    out = {'points': 0, 'bad': [], 'ops': {}, 'outcomes': {}}
    k = 0
    while True:
        d = os.path.join(root, 'k')
        os.makedirs(os.path.join(d, 'out'))
        os.makedirs(os.path.join(d, 'tmp'))
        target = target_of(d)
        if state == 'exists':
            with open(target, 'wb') as f:
                f.write(oldbytes)
        before = 'old' if state == 'exists' else 'absent'
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            res = {}
            code = 0
            try:
                os.close(rfd)
                tempfile.tempdir = os.path.join(d, 'tmp')
                lib.vp_arm(d.encode(), MODES[mode], k, errno.ENOSPC)
                try:
                    new.save(arg_of(d), overwrite=loc != 'append')
                    res['result'] = 'ok'
                except Exception as e:
                    res['result'] = 'error'
                    res['error'] = '%s: %s' % (type(e).__name__, e)
                res['count'] = lib.vp_disarm()
                res['last'] = lib.vp_last().decode()
                res['left'] = sorted(x for x in os.listdir(os.path.join(d, 'out')) if os.path.join(d, 'out', x) != target)
                if not fo.same(fo.desc(new), newdesc):
                    res['problem'] = 'the object itself was altered by the save'
                res['content'] = content(target)
                if res['result'] == 'error':
                    # with the fault gone everything goes on
                    new.save(arg_of(d), overwrite=loc != 'append')
                    c = content(target)
                    if c != 'new':
                        res['problem'] = 'the next save gave: ' + c
                p = check_run(new)
                if p:
                    res['problem'] = p
            except BaseException as e:
                res['problem'] = traceback.format_exc()[-1500:]
            try:
                os.write(wfd, json.dumps(res).encode())
                os.close(wfd)
            finally:
                os._exit(code)
        os.close(wfd)
        data = b''
        while True:
            b = os.read(rfd, 65536)
            if not b:
                break
            data += b
        os.close(rfd)
        _, status = os.waitpid(pid, 0)
        # the HDF5 library, writing the elements of a running model, may itself
        # crash the process when the disk is full: as good as being killed
        died = os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77 or os.WIFSIGNALED(status) and obj.startswith('mid') and not data
        bad = None
        if died:
            tempfile.tempdir = os.path.join(d, 'tmp')
            c = content(target)
            if c not in (before, 'new'):
                bad = 'killed during operation %d: the file holds: %s (before: %s)' % (k, c, before)
            else:
                # another process can save there and the result is complete
                try:
                    new.save(arg_of(d), overwrite=loc != 'append')
                    c2 = content(target)
                    if c2 != 'new':
                        bad = 'killed during operation %d: saving again gave %s' % (k, c2)
                except Exception as e:
                    bad = 'killed during operation %d: saving again raised %r' % (k, e)
            c = 'died/' + c
            out['outcomes'][c] = out['outcomes'].get(c, 0) + 1
            tempfile.tempdir = None
            fired = True
        elif not data:
            bad = 'the saving process ended with status %d at operation %d' % (status, k)
            fired = True
        else:
            res = json.loads(data)
            fired = res.get('count', 0) > k and mode != 'count'
            out['ops'][res.get('last', '')] = out['ops'].get(res.get('last', ''), 0) + 1
            if 'problem' in res:
                bad = 'operation %d (%s): %s' % (k, res.get('last'), res['problem'])
            elif not fired and res['result'] != 'ok':
                bad = 'saving without a fault: %s' % res.get('error')
            elif res['result'] == 'ok' and res['content'] != 'new':
                bad = 'save() returned normally although operation %d (%s) failed and the file holds: %s' % (k, res['last'], res['content'])
            elif res['result'] == 'error' and res['content'] not in (before, 'new'):
                bad = 'operation %d (%s) failed, save() raised %s and the file holds: %s (before: %s)' % (k, res['last'], res['error'], res['content'], before)
            elif res['result'] == 'error' and res['left'] and mode in ('fail', 'short') and res['last'] != 'unlink':
                bad = 'operation %d (%s) failed and save() left %s behind' % (k, res['last'], res['left'])
            out['outcomes'][res['result'] + '/' + res.get('content', '?')] = out['outcomes'].get(res['result'] + '/' + res.get('content', '?'), 0) + 1
        shutil.rmtree(d)
        if bad:
            out['bad'].append(bad)
        if not fired:
            break
        k += 1
        if k > 3000:
            out['bad'].append('more than 3000 operations')
            break
    out['points'] = k
    shutil.rmtree(root)
    print('RESULT ' + json.dumps(out))


if __name__ == '__main__':
    main()

"""Source of properties.jsonl and MANIFEST.json: python3 tools/meta.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique='',
         note='', level='model_checking', claimed=True, reason=None):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['py_gnome/' + f for f in files],
                     mechanism=[dict(name=n, where='py_gnome/' + w) for n, w in mechanism],
                     state=[dict(name=a, meaning=b, where='py_gnome/' + c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=None)))
    P[-1]['_m'] = dict(technique=technique, note=note, level=level, claimed=claimed, reason=reason)


def write():
    from importlib import import_module
    import sys
    sys.path.insert(0, os.path.join(HERE, 'tools'))
    import props  # noqa
    ms = []
    na = []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fd:
        for p in props.meta.P:
            m = p.pop('_m')
            assert len(p['title']) <= 80, p['title']
            fd.write(json.dumps(p) + '\n')
            if not m['claimed']:
                na.append(dict(property=p['id'], reason=m['reason']))
                continue
            i = p['id']
            ms.append(dict(property=i, quick_cmd='/opt/venv/bin/python -m vp.run %s quick' % i,
                           thorough_cmd='/opt/venv/bin/python -m vp.run %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=m['technique'], level=m['level'],
                           level_note=m['note']))
    man = dict(version=1, setup_cmd='/opt/venv/bin/python -m vp.native', checks=ms, not_applicable=na,
               notes='No hooks in /repo. Every check imports the Python sources from /repo and rebuilds the native '
                     'library and Cython modules from /repo into /verif/build when they changed.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fd:
        json.dump(man, fd, indent=1)
        fd.write('\n')
    print(len(ms), 'checks,', len(na), 'not applicable')


if __name__ == '__main__':
    write()

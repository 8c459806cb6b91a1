"""/opt/venv/bin/python tools/design.py: rewrites the generated sections of DESIGN.md (per property, planted changes) from tools/props.py,
the parts of the checks, the evidence of the last quick runs and seeded/*/meta.json."""
import glob
import json
import os
import re
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
os.environ.setdefault('VP_SCRATCH', '/dev/shm')
from vp.boot import boot
boot()
import importlib

MORE = {
    'C03': dict(backwards='the window cases in runs backwards in time', polygons='polygon releases: number and shape of the polygons x thickness weights x elements', grid='grid releases: bounds x resolution', amounts='amount x unit x substance x number of elements'),
    'C04': dict(split='all ways to split elements'),
    'C05': dict(backwards='process sets in runs backwards in time', refused='settings that must be refused, not run'),
    'C06': dict(scarce='operations that ask for more than there is', off='operations switched off, before and after', emulsion='operations on emulsified oil'),
    'C21': dict(infinities='open active ranges in every zone', offsets='every minute of UTC offset', round='instants to the second through every form and back', read='ways to write a time', saved='saved and loaded times in every zone'),
}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
man = {c['property']: c for c in json.load(open(os.path.join(H, 'MANIFEST.json')))['checks']}
out = []
for p in sorted(props, key=lambda p: p['id']):
    i = p['id']
    m = importlib.import_module('checks.' + i.lower())
    out.append('### %s %s\n' % (i, p['title']))
    out.append('Specified: the statement of %s in properties.jsonl; %s.\n' % (i, p['quantifier']['text']))
    out.append('Method: %s.\n' % man[i]['technique'])
    ev = {}
    try:
        e = json.load(open(os.path.join(H, 'evidence', i + '.json')))
        if e['tier'] == 'quick':
            ev = e
    except OSError:
        pass
    out.append('Enumerated (quick):\n')
    for q in m.parts('quick'):
        r = q.rule or MORE.get(i, {}).get(q.name) or ''
        c = ev.get('coverage', {}).get('parts', {}).get(q.name, {}).get('cases')
        out.append('* `%s`: %s%s' % (q.name, r, ' - %d cases' % c if c else ''))
    out.append('')
    if ev:
        out.append('Cost: about %.0f s on 8 cores (quick); thorough has longer sequences and finer grids. Within these bounds the enumeration is complete.\n' % ev['wall_s'])
    if m.ASSUMPTIONS:
        out.append('Assumptions and bounds: %s.\n' % '; '.join(a.rstrip('.') for a in m.ASSUMPTIONS))
    out.append('Beyond the tests: %s.\n' % p['why_tests_cant'].rstrip('.'))
seeds = ['| change | property | what it breaks | needs | found by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    j = json.load(open(d))
    c = lambda x: re.sub(r'\s+', ' ', x).replace('|', '/')
    seeds.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), j['property'], c(j['what_it_breaks']), c(j['needs']), j['property']))
t = open(os.path.join(H, 'DESIGN.md')).read()
for name, lines in (('properties', out), ('seeds', seeds)):
    a, b = '<!-- %s -->' % name, '<!-- end %s -->' % name
    assert a in t and b in t
    t = t[:t.index(a) + len(a)] + '\n' + '\n'.join(lines) + '\n' + t[t.index(b):]
open(os.path.join(H, 'DESIGN.md'), 'w').write(t)

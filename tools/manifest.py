#!/usr/bin/env python3-vt
"""writes MANIFEST.json from specs/meta.py"""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from specs import meta, registry
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl') if l.strip()]
NA = meta.NOT_APPLICABLE if hasattr(meta, 'NOT_APPLICABLE') else {}
checks = []
for i in ids:
    if i in NA: continue
    has = bool(registry.units(i))
    tech = 'contracts on the extracted code, obligations discharged by z3/cvc5 (cppvc)' + ('' if meta.META[i]['level'] == 'proof' else '; bounded search of the real code for the rest') if has else 'bounded search of the real code against an executable specification (no contract attached yet)'
    checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i, technique=tech,
        level=meta.META[i]['level'], level_note=(meta.META[i]['proved'] + ' Bounded part: ' + meta.META[i]['bounded'] + '. Trusted: clang, cppvc, z3/cvc5, libsdd, gmp, the C++ library. ' + '; '.join(meta.COMMON[:2] + meta.META[i].get('assume', [])))))
json.dump(dict(version=1, setup_cmd='python3-vt check.py --setup', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes='No hooks in /repo. See DESIGN.md.'), open(H + '/MANIFEST.json', 'w'), indent=1)

# the tables of DESIGN.md
D = open(H + '/DESIGN.md').read()
T = {json.loads(l)['id']: json.loads(l)['title'] for l in open(H + '/properties.jsonl') if l.strip()}
def fill(D, tag, text):
    a, b = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    return D[:D.index(a) + len(a)] + '\n' + text + '\n' + D[D.index(b):]
out = []
for i in ids:
    M = meta.META[i]
    us = [f().name for f in registry.units(i)]
    out.append('### %s %s\n\n* level: %s\n* P: %s\n* B: %s' % (i, T[i], M['level'], M['proved'], M['bounded']))
    if M['assume']: out.append('* A: ' + '; '.join(M['assume']))
    out.append('* units: ' + (', '.join(us) or 'none') + '\n')
D = fill(D, 'props', '\n'.join(out))
sd = ['| change | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    f = H + '/seeded/' + d + '/meta.json'
    if not os.path.exists(f): continue
    mm = json.load(open(f))
    sd.append('| %s | %s | %s |' % (d, mm['needs'], meta.CAUGHT.get(d, 'not recorded')))
D = fill(D, 'seeds', '\n'.join(sd))
open(H + '/DESIGN.md', 'w').write(D)

"""
Writes properties.jsonl, MANIFEST.json and the table in DESIGN.md from
specs.py. Run it after changing the specification.
"""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.dirname(here)
sys.path.insert(0, here)
from specs import SPECS

with open(os.path.join(top, 'properties.jsonl'), 'w') as f:
    for s in SPECS:
        f.write(json.dumps(dict(id=s['pid'], title=s['title'],
            statement=s['statement'],
            quantifier=dict(over=s['over'], text=s['quant']),
            why_tests_cant=s['why'],
            anchors=dict(files=s['files'], mechanism=s['mech'],
                observe_at=s['observe'], hook_needed=None))) + '\n')

NOTE = ('Held on every generated case of this run (numbers and samples are '
    'in the evidence file); no proof. Generated: %s Oracle: %s Trusts the '
    'oracle, numpy, PyTables and the vendored Hypothesis engine.')
checks = [dict(property=s['pid'], quick_cmd='./run.sh %s quick' % s['pid'],
    thorough_cmd='./run.sh %s thorough' % s['pid'],
    technique=s.get('technique', 'property-based testing: structured '
        'generation and shrinking (Hypothesis) against an explicit oracle'),
    level='exploration', level_note=NOTE % (s['generated'], s['oracle']))
    for s in SPECS]
json.dump(dict(version=1, setup_cmd='./run.sh selfcheck', checks=checks,
    not_applicable=[], notes='All checks import flowtracks from /repo as it '
    'is at the time; nothing needs to be compiled. No hooks in /repo.'),
    open(os.path.join(top, 'MANIFEST.json'), 'w'), indent=1)

path = os.path.join(top, 'DESIGN.md')
if os.path.exists(path):
    text = open(path).read()
    table = ''.join('- **%s %s.** Generated: %s Oracle: %s Why the tests '
        'cannot: %s\n' % (s['pid'], s['title'], s['generated'], s['oracle'],
        s['why']) for s in SPECS)
    text = re.sub(r'(<!-- table -->\n).*(<!-- end -->)', lambda m: m.group(1)
        + table + m.group(2), text, flags=re.S)
    open(path, 'w').write(text)

"""Write properties.jsonl and MANIFEST.json from catalogue.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
sys.path[:0] = [HERE, TOP]
from catalogue import PROPS  # noqa: E402
from vmon.props import INDEX  # noqa: E402

NOTES = ('Run-time monitoring: every check drives the real modules of /repo '
         'with generated workloads and judges each observed call with '
         'independent oracles. No hooks were added to /repo. '
         'run.py --replay FILE repeats a reported case.')

with open(os.path.join(TOP, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        json.dump(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=p['mechanism'],
                         observe_at=['return values, yielded items, raised '
                                     'errors and argument state at the '
                                     'public functions'],
                         hook_needed=None)), f)
        f.write('\n')

checks = []
for p in PROPS:
    if p['id'] not in INDEX:
        continue
    cmd = '/opt/venv/bin/python -B run.py ' + p['id']
    checks.append(dict(
        property=p['id'], quick_cmd='VERIF_TIER=quick ' + cmd,
        thorough_cmd='VERIF_TIER=thorough ' + cmd,
        evidence_file='evidence/%s.json' % p['id'],
        technique='run-time monitoring of generated workloads; oracle: ' +
                  p['how'],
        level='exploration',
        level_note='Holds on every execution observed; other inputs are not '
                   'covered. Trusts the Python interpreter and the oracle.'))
with open(os.path.join(TOP, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(
        version=1,
        setup_cmd='/opt/venv/bin/python -B -c "import vmon.core"',
        checks=checks, not_applicable=[], notes=NOTES), f, indent=1)
    f.write('\n')
missing = [p['id'] for p in PROPS if p['id'] not in INDEX]
print(len(PROPS), 'properties,', len(checks), 'checks; without check:',
      missing, 'not described:', sorted(set(INDEX) -
                                        {p['id'] for p in PROPS}))

sys.path.insert(0, '/repo')
from vmon.core import load_prop  # noqa: E402


def read(name):
    path = os.path.join(HERE, name)
    return open(path).read() if os.path.exists(path) else ''


with open(os.path.join(TOP, 'DESIGN.md'), 'w') as f:
    f.write(read('design_head.md'))
    f.write('\n## Properties\n')
    for p in PROPS:
        f.write('\n### %s %s\n\n' % (p['id'], p['title']))
        f.write('* Specified: see `properties.jsonl`; anchored in %s.\n'
                % ', '.join(p['files']))
        if p['id'] not in INDEX:
            continue
        P = load_prop(p['id'])
        f.write('* Oracle: %s.\n' % p['how'])
        f.write('* Generated and monitored: %s.\n' % P.rule)
        f.write('* Bounds (cases quick/thorough): %s.\n' % ', '.join(
            '%s %d/%d' % (d.name, d.count('quick'), d.count('thorough'))
            for d in P.drivers))
        f.write('* Must be observed: %s.\n' % ', '.join(
            '%s >= %d' % kv for kv in P.need.items()))
        if P.assumptions:
            f.write('* Assumes: %s.\n' % '; '.join(P.assumptions))
        f.write('* Beyond the tests: %s\n' % p['why'])
    with open(os.path.join(TOP, 'known_findings.json')) as k:
        fixed = json.load(k)['fixed']
    f.write(read('design_tail.md').replace('@FIXED@\n', ''.join(
        '* %s: %s (%s)\n' % (x.split('=')[1][:3], x.split(' ', 3)[3],
                             x.split()[2]) for x in fixed)))
    f.write(read('design_catch.md'))

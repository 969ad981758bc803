"""Run one check:   run.py C01            (VERIF_TIER, VERIF_SEED)
Replay a violation:  run.py --replay evidence/replay/C01-....json
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') \
    else sys.executable
WALL_CAP = {'quick': 840, 'thorough': 6 * 3600}
SHARDS = {'quick': 4, 'thorough': 8}
# The tools that try the checks on changed copies of the repository set
# VMON_REPO, VMON_SHARDS, VMON_SCALE and VMON_OUT.
OUT = os.environ.get('VMON_OUT') or os.path.join(HERE, 'evidence')


def env_for(hashseed):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX='/nonexistent/nopyc', PYTHONPATH=HERE)
    for k in ('PYTHONOPTIMIZE', 'PYTHONSTARTUP', 'PYTHONINSPECT'):
        env.pop(k, None)
    return env


def load_known():
    """Unfixed findings that suppress a violation, by property and key."""
    known = {}
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        for k in json.load(f)['known']:
            known[k['property'], k['key']] = k['what']
    return known


def check(pid):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    n = int(os.environ.get('VMON_SHARDS') or SHARDS[tier])
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vmon-' + pid + '-')
    try:
        procs = []
        for k in range(n):
            out = os.path.join(scratch, '%d.json' % k)
            hashseed = (seed * 7919 + k * 104729 + 1) % 4294967295
            err = open(os.path.join(scratch, '%d.err' % k), 'wb')
            code = ('import sys; from vmon.core import worker_main; '
                    'worker_main(%r, %r, %d, %d, %d, %r)'
                    % (pid, tier, seed, k, n, out))
            p = subprocess.Popen([PYTHON, '-B', '-c', code], cwd=scratch,
                                 env=env_for(hashseed), stderr=err,
                                 stdout=err, stdin=subprocess.DEVNULL)
            procs.append((p, out, err))
        results, broken = [], []
        for p, out, err in procs:
            try:
                left = WALL_CAP[tier] - (time.time() - t0)
                p.wait(timeout=max(left, 1))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                broken.append('worker exceeded its wall clock cap')
            err.close()
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            else:
                with open(err.name, 'rb') as f:
                    tail = f.read()[-3000:].decode('utf8', 'replace')
                broken.append('worker died, status %s\n%s'
                              % (p.returncode, tail))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return report(pid, tier, seed, results, broken, time.time() - t0)


def report(pid, tier, seed, results, broken, wall):
    from vmon.core import executable_lines, REPO
    known = load_known()
    events, samples, cases = {}, {}, {}
    distinct, lines, checks, violations = set(), {}, 0, []
    for r in results:
        for k, v in r['stats']['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['cases'].items():
            cases[k] = cases.get(k, 0) + v
        for k, v in r['stats']['samples'].items():
            s = samples.setdefault(k, [])
            s += v[:max(0, 2 - len(s))]
        distinct.update(r['stats']['distinct'])
        checks += r['stats']['checks']
        for f, ls in r['lines'].items():
            lines.setdefault(f, set()).update(ls)
        violations += r['violations']

    suppressed = {}
    real = []
    for v in violations:
        if v['key'] is not None and (pid, v['key']) in known:
            suppressed.setdefault(v['key'], []).append(v)
        else:
            real.append(v)
    for key in sorted(suppressed):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[pid, key]))

    meta = {}
    try:
        prop = None
        if not any(r['import_error'] for r in results):
            prop = describe(pid)
            meta = prop
    except Exception as e:                      # evidence only
        broken.append('cannot describe the check: %s' % e)

    missing = []
    if not real and prop:
        for name, least in prop['need'].items():
            if events.get(name, 0) < least:
                missing.append('%s: %d of at least %d' % (
                    name, events.get(name, 0), least))

    cov = {}
    for f in meta.get('anchors', []):
        path = os.path.join(REPO, f)
        try:
            todo = executable_lines(path)
            cov[f] = '%d of %d function lines' % (
                len(lines.get(f, set()) & todo), len(todo))
        except OSError:
            cov[f] = 'missing'
        except SyntaxError:
            cov[f] = 'does not parse'
    flat = []
    for k in sorted(samples):
        for s in samples[k]:
            flat.append('%s: %s' % (k, s))
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'wall_s': round(wall, 3), 'violations': len(real),
        'coverage': {
            'evaluations': sum(cases.values()),
            'distinct_nontrivial': len(distinct),
            'rule': meta.get('rule', ''),
            'samples': flat,
            'monitor_checks': checks,
            'events': dict(sorted(events.items())),
            'cases_by_driver': dict(sorted(cases.items())),
            'lines_reached': cov,
            'hash_seeds': len(results),
            'suppressed_known_findings': sum(map(len, suppressed.values())),
        },
        'assumptions': meta.get('assumptions', []),
    }
    if broken or missing:
        evidence['coverage']['inconclusive'] = broken + missing
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    os.replace(path + '.tmp', path)

    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d monitor '
          'checks, %.1f s' % (pid, tier, seed, sum(cases.values()),
                              len(distinct), checks, wall))
    if real:
        rdir = os.path.join(OUT, 'replay')
        os.makedirs(rdir, exist_ok=True)
        # report each driver once
        seen = set()
        for v in real:
            if v['driver'] in seen:
                continue
            seen.add(v['driver'])
            name = '%s-%s-%d.json' % (pid, v['driver'].strip('<>'),
                                      v['index'])
            rp = os.path.join(rdir, name)
            with open(rp, 'w') as f:
                json.dump(v, f, indent=1)
                f.write('\n')
            print('%s case %s #%d: %s' % (pid, v['driver'], v['index'],
                                          v['msg']))
            for k, x in v['detail'].items():
                print('    %s: %s' % (k, x[:600]))
            for x in v['notes'][-6:]:
                print('    note: %s' % str(x)[:400])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if broken or missing:
        for b in broken + missing:
            print('INCONCLUSIVE property=%s %s' % (pid, b))
        return 2
    return 0


def describe(pid):
    code = ('import sys, json; from vmon.core import load_prop, REPO; '
            'sys.path.insert(0, REPO); p = load_prop(%r); '
            'print(json.dumps(dict(rule=p.rule, anchors=p.anchors, '
            'need=p.need, assumptions=p.assumptions)))' % pid)
    r = subprocess.run([PYTHON, '-B', '-c', code], env=env_for(0),
                       stdout=subprocess.PIPE, cwd='/', check=True)
    return json.loads(r.stdout)


def replay(path):
    with open(path) as f:
        v = json.load(f)
    if v['driver'] == '<import>':
        code = ('from vmon.core import *; setup_process(); load_prop(%r)'
                % v['property'])
    else:
        code = ('import sys, json; from vmon.core import *; setup_process()\n'
                'p = load_prop(%r)\n'
                'd = [x for x in p.drivers if x.name == %r][0]\n'
                's = dict(events={}, distinct=set(), samples={}, checks=0)\n'
                'r = run_case(p, d, %d, %d, %r, s, Coverage())\n'
                'print(json.dumps(r, indent=1))\n'
                'sys.exit(r is not None)\n' % (
                    v['property'], v['driver'], v['index'], v['seed'],
                    v['tier']))
    return subprocess.run([PYTHON, '-B', '-c', code],
                          env=env_for(v['hashseed'] or 0)).returncode


if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) != 2:
        sys.exit(__doc__)
    sys.exit(check(sys.argv[1]))

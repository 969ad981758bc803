"""Run checks against the planted bugs:  catch.py [ID ...]

Each patch is applied to a scratch copy of the repository.  SEEDS (default
"1"), TIER and SHARDS come from the environment; ALL=1 runs every check and
not only that of the property a bug was planted for.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def one(name):
    d = os.path.join(TOP, 'seeded', name)
    with open(os.path.join(d, 'meta.json')) as f:
        prop = json.load(f)['property']
    if os.environ.get('ALL'):
        sys.path.insert(0, os.path.join(TOP, 'tools'))
        from catalogue import PROPS
        props = [p['id'] for p in PROPS]
    else:
        props = [prop]
    tmp = tempfile.mkdtemp(prefix='catch-')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns(
            '__pycache__'))
        subprocess.run(['git', '-C', repo, 'apply',
                        os.path.join(d, 'patch.diff')], check=True)
        out = []
        for p in props:
            for seed in os.environ.get('SEEDS', '1').replace(",", " ").split():
                env = dict(os.environ, VMON_REPO=repo, VERIF_SEED=seed,
                           VMON_OUT=os.path.join(tmp, 'out'),
                           VERIF_TIER=os.environ.get('TIER', 'quick'))
                if os.environ.get('SHARDS'):
                    env['VMON_SHARDS'] = os.environ['SHARDS']
                r = subprocess.run([PY, '-B', 'run.py', p], cwd=TOP, env=env,
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
                if r.returncode == 1 and b'VIOLATION property' in r.stdout:
                    res = 'caught'
                else:
                    res = {0: 'MISSED'}.get(r.returncode,
                                            'rc=%d' % r.returncode)
                out.append((p, seed, res))
        return prop, out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    names = sys.argv[1:] or sorted(os.listdir(os.path.join(TOP, 'seeded')))
    missed = 0
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as ex:
        for name, (prop, out) in zip(names, ex.map(one, names)):
            if os.environ.get('ALL'):
                print(name, ' '.join(p for p, s, r in out if r != 'MISSED'),
                      flush=True)
                continue
            print(name, ' '.join('%s:%s' % (s, r) for p, s, r in out),
                  flush=True)
            missed += any(r != 'caught' for p, s, r in out)
    print(missed, 'missed of', len(names))

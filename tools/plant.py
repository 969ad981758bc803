"""Confirm planted bugs and store them under seeded/.

   plant.py SPEC.py      SPEC.py calls bug(id, property, edits, demo, needs,
                         breaks); edits are (file, old text, new text)

Works in a scratch copy of /repo, which is removed afterwards.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BUGS = []
DEMO = '''#!/bin/bash
# cwd is the repository; exits 0 when the behaviour is right
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent \\
    PYTHONHASHSEED=0 exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def bug(name, prop, edits, demo, needs, breaks):
    BUGS.append((name, prop, edits, demo, needs, breaks))


def run(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONPYCACHEPREFIX='/nonexistent/x',
               PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    env.pop('PYTHONPATH', None)
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def plant(name, prop, edits, demo, needs, breaks):
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo)
        here = os.path.join(tmp, 'demo')
        os.mkdir(here)
        with open(os.path.join(here, 'demo.sh'), 'w') as f:
            f.write(DEMO)
        os.chmod(os.path.join(here, 'demo.sh'), 0o755)
        with open(os.path.join(here, 'demo.py'), 'w') as f:
            f.write(demo.strip('\n') + '\n')
        r = run(['bash', os.path.join(here, 'demo.sh')], repo, timeout=100)
        if r.returncode:
            return 'demo fails on the unchanged tree:\n' + \
                r.stdout.decode()[-1500:]
        for path, old, new in edits:
            full = os.path.join(repo, 'pads', path)
            with open(full) as f:
                s = f.read()
            if s.count(old) != 1:
                return 'text found %d times in %s: %r' % (
                    s.count(old), path, old)
            with open(full, 'w') as f:
                f.write(s.replace(old, new))
        # lines of the original repository only
        diff = run(['git', 'diff', '-U0', '--no-color'], repo).stdout.decode()
        removed = set()
        cur = None
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                cur = line[6:]
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
            if m:
                a, k = int(m[1]), int(m[2] or 1)
                removed |= {(cur, x) for x in range(a, a + k)}
        for cur in {c for c, x in removed}:
            bl = run(['git', 'blame', '-s', '-l', 'HEAD', '--', cur],
                     repo).stdout.decode().splitlines()
            for c, x in removed:
                if c == cur and not bl[x - 1].startswith('^'):
                    log = run(['git', 'log', '-1', '--format=%s',
                               bl[x - 1].split()[0]], repo).stdout.decode()
                    if log.startswith('fix:'):
                        return 'changes a line added by a fix: ' + bl[x - 1]
        r = run([PY, '-m', 'pytest', '-q', '-p', 'pytest_timeout', '-p',
                 'no:cacheprovider', '-x', '--timeout=40', 'tests'], repo)
        tail = r.stdout.decode().strip().splitlines()
        if r.returncode:
            return 'tests fail: ' + '\n'.join(tail[-12:])
        try:
            r = run(['bash', os.path.join(here, 'demo.sh')], repo,
                    timeout=100)
            if r.returncode == 0:
                return 'demo passes with the bug'
        except subprocess.TimeoutExpired:
            return 'demo does not end'
        dest = os.path.join(TOP, 'seeded', name)
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(here, dest)
        with open(os.path.join(dest, 'patch.diff'), 'wb') as f:
            f.write(run(['git', 'diff', '--no-color'], repo).stdout)
        with open(os.path.join(dest, 'meta.json'), 'w') as f:
            json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
                      f, indent=1)
            f.write('\n')
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    for spec in sys.argv[1:]:
        exec(compile(open(spec).read(), spec, 'exec'))
    with ThreadPoolExecutor(6) as ex:
        for b, res in zip(BUGS, ex.map(lambda b: plant(*b), BUGS)):
            print(b[0], 'ok' if res is None else 'NO: ' + res)

"""Run-time monitoring core.

A check runs the real code of /repo under generated workloads.  Each workload
is split into numbered cases; a case drives the public API and monitors
(reference models, trace checkers, invariants) watch every call and result.

  Case      one generated execution, with its own random stream
  Driver    a family of cases
  Prop      a property: drivers plus the description used in the evidence
"""
import hashlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

REPO = os.environ.get('VMON_REPO') or '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CPU_CAP = float(os.environ.get('VMON_CPU') or 20)   # seconds of CPU before a case is re-run by steps
# repository lines executed by one case
STEP_BUDGET = int(os.environ.get('VMON_STEPS') or 40_000_000)
MEM_CAP = 2 << 30


class Violation(Exception):
    """The property does not hold on the execution just observed."""

    def __init__(self, msg, key=None, /, **detail):
        Exception.__init__(self, msg)
        self.msg = msg
        self.key = key
        self.detail = detail


class CaseTimeout(BaseException):
    pass


def short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:              # repr of a foreign object may fail
        s = '<unprintable %s: %s>' % (type(x).__name__, e)
    return s if len(s) <= n else s[:n - 20] + '...(%d chars)' % len(s)


def snapshot(x, depth=0):
    """Structural copy of an argument, for detecting later modification."""
    if isinstance(x, dict):
        return ('d', type(x), [(k, snapshot(v, depth + 1))
                               for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ('l', type(x), [snapshot(v, depth + 1) for v in x])
    if isinstance(x, (set, frozenset)):
        return ('s', type(x), set(x))
    return ('o', x)


def same_snapshot(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'o':
        return a[1] is b[1] or a[1] == b[1]
    if a[1] is not b[1]:
        return False
    if a[0] == 's':
        return a[2] == b[2]
    if len(a[2]) != len(b[2]):
        return False
    if a[0] == 'd':
        return all((k is l or k == l) and same_snapshot(v, w)
                   for (k, v), (l, w) in zip(a[2], b[2]))
    return all(same_snapshot(v, w) for v, w in zip(a[2], b[2]))


class Case:
    """One monitored execution."""

    def __init__(self, prop, driver, index, seed, tier, stats):
        self.prop = prop
        self.driver = driver
        self.i = index
        self.tier = tier
        self.rng = random.Random('%s/%s/%s/%s' % (seed, prop, driver, index))
        self.stats = stats
        self.notes = []
        self.guards = []

    # -- bookkeeping ------------------------------------------------------

    def event(self, name, n=1):
        ev = self.stats['events']
        ev[name] = ev.get(name, 0) + n

    def nontrivial(self, *key):
        """Record that this case reached a non-trivial state named by key."""
        h = hashlib.blake2b(repr((self.driver,) + key).encode(
            'utf8', 'backslashreplace'), digest_size=7).digest()
        self.stats['distinct'].add(int.from_bytes(h, 'big'))

    def sample(self, obj):
        s = self.stats['samples']
        if len(s.setdefault(self.driver, [])) < 2:
            s[self.driver].append(short(obj, 300))

    def note(self, *args):
        """Context printed with a violation of this case."""
        self.notes.append(args)
        if len(self.notes) > 40:
            del self.notes[10:20]

    # -- verdicts ---------------------------------------------------------

    def fail(self, msg, /, finding=None, **detail):
        raise Violation(msg, finding, **detail)

    def check(self, cond, msg, /, finding=None, **detail):
        self.stats['checks'] += 1
        if not cond:
            raise Violation(msg, finding, **detail)

    def eq(self, got, want, msg, /, finding=None, **detail):
        self.stats['checks'] += 1
        if not (got == want):
            raise Violation(msg, finding, **{'got': got, 'want': want, **detail})

    # -- observing the code under test --------------------------------------

    def guard(self, *objs):
        """Demand that the objects are still unmodified at release()."""
        for x in objs:
            self.guards.append((x, snapshot(x)))

    def release(self):
        g, self.guards = self.guards, []
        for x, snap in g:
            self.stats['checks'] += 1
            if not same_snapshot(snap, snapshot(x)):
                raise Violation('argument was modified', now=x,
                                before=snap)

    def call(self, fn, *args, pure=True, **kw):
        """Call the code under test; any exception is a violation."""
        self.event('calls')
        snaps = [snapshot(a) for a in args] if pure else ()
        try:
            res = fn(*args, **kw)
        except (CaseTimeout, MemoryError, KeyboardInterrupt):
            raise
        except Violation:
            raise
        except BaseException as e:
            raise Violation('unexpected %s from %s' % (
                type(e).__name__, getattr(fn, '__name__', fn)),
                error=str(e), args=args, where=where(e))
        for a, s in zip(args, snaps):
            self.stats['checks'] += 1
            if not same_snapshot(s, snapshot(a)):
                raise Violation('%s modified its argument' % getattr(
                    fn, '__name__', fn), now=a, before=s)
        return res

    def raises(self, exc, fn, *args, pure=True, **kw):
        """Call the code under test, which must raise exc."""
        self.event('calls')
        self.stats['checks'] += 1
        snaps = [snapshot(a) for a in args] if pure else ()
        try:
            res = fn(*args, **kw)
        except (CaseTimeout, MemoryError, KeyboardInterrupt):
            raise
        except Violation:
            raise
        except exc as e:
            self.event('rejections')
            for a, s in zip(args, snaps):
                if not same_snapshot(s, snapshot(a)):
                    raise Violation('%s modified its argument' % getattr(
                        fn, '__name__', fn), now=a, before=s)
            return e
        except BaseException as e:
            raise Violation('wrong exception %s from %s' % (
                type(e).__name__, getattr(fn, '__name__', fn)),
                error=str(e), args=args, where=where(e))
        raise Violation('%s did not reject its argument' % getattr(
            fn, '__name__', fn), args=args, result=res)


def where(e):
    tb = e.__traceback__
    out = []
    for f in traceback.extract_tb(tb)[-6:]:
        out.append('%s:%s %s' % (f.filename, f.lineno, f.name))
    return out


def take(it, n):
    """First n items of an iterable (no more than n are requested)."""
    out = []
    if n <= 0:
        return out
    for x in it:
        out.append(x)
        if len(out) >= n:
            break
    return out


class Driver:
    def __init__(self, name, fn, quick, thorough, fixed=False):
        self.fixed = fixed          # exhaustive: never scaled
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.scale = {'quick': 1, 'thorough': 1}

    def count(self, tier):
        n = self.quick if tier == 'quick' else self.thorough
        return n if self.fixed else max(1, int(n * self.scale[tier]))


class Prop:
    def __init__(self, pid, rule, anchors, need=None, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.anchors = anchors
        self.need = need or {}
        self.assumptions = list(assumptions)
        self.drivers = []

    def driver(self, quick, thorough=None, fixed=False):
        """Decorator: register a case function, with its number of cases."""
        def deco(fn):
            self.drivers.append(Driver(
                fn.__name__, fn, quick,
                thorough if thorough is not None else quick * 12, fixed))
            return fn
        return deco


# ---------------------------------------------------------------------------
# line coverage of the anchored files, as evidence of what was reached

class Coverage:
    """Record which lines of the repository files were executed."""

    TOOL = 2

    def __init__(self):
        self.hit = {}
        self.steps = None
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'vmon')
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def _line(self, code, line):
        if self.steps is not None:
            if code.co_filename.startswith(REPO):
                self.steps -= 1
                if self.steps < 0:
                    self.steps = 1000
                    raise CaseTimeout('step budget exhausted')
                return None
            return sys.monitoring.DISABLE
        f = code.co_filename
        if f.startswith(REPO):
            self.hit.setdefault(f[len(REPO) + 1:], set()).add(line)
        return sys.monitoring.DISABLE

    def count_steps(self, budget):
        self.steps = budget
        sys.monitoring.restart_events()

    def stop_counting(self):
        self.steps = None


def executable_lines(path):
    """Lines of function bodies in a source file."""
    with open(path, 'rb') as f:
        top = compile(f.read(), path, 'exec', dont_inherit=True)
    lines = set()
    todo = [c for c in top.co_consts if hasattr(c, 'co_lines')]
    while todo:
        c = todo.pop()
        for _, _, line in c.co_lines():
            if line is not None and line != c.co_firstlineno:
                lines.add(line)
        todo += [d for d in c.co_consts if hasattr(d, 'co_lines')]
    return lines


# ---------------------------------------------------------------------------
# worker

def _alarm(signum, frame):
    raise CaseTimeout('cpu cap')


def run_case(prop, drv, index, seed, tier, stats, cov):
    """Run one case; return None or a violation record."""
    def attempt(step_mode):
        case = Case(prop.pid, drv.name, index, seed, tier, stats)
        try:
            if step_mode:
                cov.count_steps(STEP_BUDGET)
            else:
                signal.setitimer(signal.ITIMER_VIRTUAL, CPU_CAP, 2.0)
            try:
                drv.fn(case)
                case.release()
            finally:
                if step_mode:
                    cov.stop_counting()
                else:
                    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            return None
        except CaseTimeout:
            if not step_mode:
                return 'retry'
            return case, Violation(
                'no result after %d executed lines' % STEP_BUDGET)
        except Violation as v:
            return case, v
        except MemoryError:
            return case, Violation('memory limit of %d bytes exhausted'
                                   % MEM_CAP)
        except KeyboardInterrupt:
            raise
        except RecursionError as e:
            return case, Violation('RecursionError', where=where(e))
        except BaseException as e:
            return case, Violation(
                'result could not be interpreted: %s: %s' % (
                    type(e).__name__, e), where=where(e))

    r = attempt(False)
    if r == 'retry':
        stats['events']['step_reruns'] = \
            stats['events'].get('step_reruns', 0) + 1
        r = attempt(True)
    if r is None:
        return None
    case, v = r
    return {
        'property': prop.pid, 'driver': drv.name, 'index': index,
        'seed': seed, 'tier': tier,
        'hashseed': os.environ.get('PYTHONHASHSEED', ''),
        'msg': v.msg, 'key': v.key,
        'detail': {k: short(x, 1500) for k, x in v.detail.items()},
        'notes': [short(n, 800) for n in case.notes],
    }


def load_prop(pid):
    import importlib
    from .props import INDEX, SCALE
    mod = importlib.import_module('vmon.props.' + INDEX[pid])
    for p in mod.PROPS:
        if p.pid == pid:
            for d in p.drivers:
                for tier in d.scale:
                    d.scale[tier] = SCALE.get((pid, tier), 1) * float(
                        os.environ.get('VMON_SCALE') or 1)
            return p
    raise KeyError(pid)


def setup_process():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_CAP, MEM_CAP))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGVTALRM, _alarm)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True


def worker_main(pid, tier, seed, shard, nshards, out):
    setup_process()
    stats = {'events': {}, 'distinct': set(), 'samples': {}, 'checks': 0}
    result = {'violations': [], 'cases': {}, 'import_error': None}
    cov = Coverage()
    t0 = time.time()
    try:
        prop = load_prop(pid)
        import pads
        if not os.path.abspath(pads.__file__).startswith(REPO + os.sep):
            raise SystemExit('pads imported from ' + pads.__file__)
    except SystemExit:
        raise
    except BaseException as e:
        # A module of the repository that cannot be imported offers nothing
        # the property promises; a fault of this harness is an error.
        tb = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if not any(f.startswith(REPO) for f in tb) and \
                not (isinstance(e, ImportError) and 'pads' in str(e)):
            raise
        result['import_error'] = '%s: %s' % (type(e).__name__, e)
        result['violations'].append({
            'property': pid, 'driver': '<import>', 'index': 0, 'seed': seed,
            'tier': tier, 'hashseed': os.environ.get('PYTHONHASHSEED', ''),
            'msg': 'cannot import the code under test', 'key': None,
            'detail': {'error': short(e)}, 'notes': where(e)})
        prop = None
    if prop is not None:
        work = []
        for drv in prop.drivers:
            n = drv.count(tier)
            work += [(i, drv) for i in range(n) if i % nshards == shard]
        # interleave drivers so that an early stop has touched all of them
        work.sort(key=lambda t: (t[0] + 1) / t[1].count(tier))
        bad = 0
        for i, drv in work:
            result['cases'][drv.name] = result['cases'].get(drv.name, 0) + 1
            r = run_case(prop, drv, i, seed, tier, stats, cov)
            if r is not None:
                result['violations'].append(r)
                if r['key'] is None:
                    bad += 1
                if bad >= 3:
                    break
    result['stats'] = {
        'events': stats['events'], 'checks': stats['checks'],
        'samples': stats['samples'], 'distinct': sorted(stats['distinct'])}
    result['lines'] = {f: sorted(s) for f, s in cov.hit.items()}
    result['wall'] = time.time() - t0
    result['cpu'] = time.process_time()
    tmp = out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(result, f)
    os.replace(tmp, out)

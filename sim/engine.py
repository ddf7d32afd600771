"""Runs seeded simulations of one property, in parallel, and reports.

    check.py PROPERTY            one check (tier from VERIF_TIER)
    check.py PROPERTY --replay F replay a recorded violation

Every simulated execution happens in a process forked from a prepared worker,
so nothing survives from one run to the next.  What a run does is a function
of its scenario (JSON); the scenario is a function of the seed.
"""
import copy
import hashlib
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import traceback

from . import seam, world

clock = seam.real['time.monotonic']

CHILD_CPU = 90  # seconds of computing: more is an error of the harness
LATE_CPU = 20  # the same where it counts as not ending
CHILD_WALL = 400  # seconds of real time, whatever happens
TRACE = False
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    pass


class Stats:

    def __init__(self):
        self.executions = 0
        self.syscalls = 0
        self.sim_ns = 0
        self.faults = {}
        self.digests = set()
        self.probes = {}
        self.schedules = set()
        self.stalls = 0
        self.traces = []

    def add(self, s):
        self.executions += 1
        if 'trace' in s:
            self.traces.append(s['trace'])
        self.syscalls += s['syscalls']
        self.sim_ns += s['sim_ns']
        self.stalls += s['stalls']
        for f in s['fired']:
            k = ':'.join(f.split(':')[:2]) if not f.startswith(
                'reboot') else 'reboot'
            self.faults[k] = self.faults.get(k, 0) + 1
        for k, n in s['probes'].items():
            self.probes[k] = self.probes.get(k, 0) + n
        if s['digest']:
            self.digests.add(s['digest'])
        self.schedules.update(s['schedules'])

    def merge(self, o):
        self.executions += o.executions
        self.syscalls += o.syscalls
        self.sim_ns += o.sim_ns
        self.stalls += o.stalls
        for mine, theirs in ((self.faults, o.faults),
                             (self.probes, o.probes)):
            for k, n in theirs.items():
                mine[k] = mine.get(k, 0) + n
        self.digests |= o.digests
        self.schedules |= o.schedules


class Run:
    """Book-keeping of one isolated execution (inside the forked process)."""

    def __init__(self):
        self.worlds = []
        self.probes = {}
        self.schedules = []
        self.stalls = 0
        self.fired = []

    def world(self, spec, chars=None):
        w = world.World(spec)
        if TRACE:
            w.trace = []
        size = sum(len(world.tobytes(f)) for f in (spec or {}).get('files',
                                                                   ()))
        n = max(size, chars or 0)
        w.jump_limit = 3_000_000 + 4000 * n
        w.syscall_limit = 100_000 + 200 * n
        self.worlds.append(w)
        return w

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def stats(self):
        h = hashlib.sha1()
        sim = sysc = 0
        for w in self.worlds:
            h.update(w.log.digest())
            sim += w.clock_ns - world.START - int(w.spec.get('clock',
                                                             0)) * 10**9
            sysc += w.syscalls
        more = {'trace': [w.trace for w in self.worlds]} if TRACE else {}
        return more | {
            'digest': h.hexdigest()[:16],
            'sim_ns': max(sim, 0),
            'syscalls': sysc,
            'fired': self.fired,
            'probes': self.probes,
            'schedules': self.schedules,
            'stalls': self.stalls,
        }


def isolated(fn, *args, cpu=CHILD_CPU, wall=CHILD_WALL):
    """Call fn(run, *args) in a forked process -> (value, stats)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            run = Run()
            try:
                value = fn(run, *args)
                msg = ('ok', value, run.stats())
            except BaseException:  # noqa: B036
                seam.W = None
                msg = ('error', traceback.format_exc(), None)
            seam.W = None
            blob = pickle.dumps(msg, -1)
            view = memoryview(blob)
            while view:
                n = seam.real['write'](w, view)
                view = view[n:]
        except BaseException:  # noqa: B036
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    out = bytearray()
    end = clock() + wall
    late = False
    while True:
        ready, _, _ = select.select([r], [], [], max(0.0, end - clock()))
        if not ready:
            late = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        out += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if late or os.WIFSIGNALED(status) and os.WTERMSIG(
            status) == signal.SIGXCPU:
        return ('late', None, None)
    if not out:
        return ('error', 'simulated process ended with status %d' % status,
                None)
    return pickle.loads(bytes(out))


class Iso:
    """Isolated executions with memory of equal ones (base runs)."""

    def __init__(self, stats=None):
        self.memo = {}
        self.stats = stats or Stats()

    def __call__(self, fn, *args, keep=False, late=False):
        key = None
        if keep:
            key = (fn.__name__, json.dumps(args, sort_keys=True))
            if key in self.memo:
                return self.memo[key]
        kind, value, st = isolated(fn, *args,
                                   cpu=LATE_CPU if late else CHILD_CPU)
        if kind == 'late' and late:
            return None
        if kind == 'late':
            raise HarnessError('an execution took more than %d s: %s' %
                               (CHILD_CPU, json.dumps(args)[:2000]))
        if kind == 'error':
            raise HarnessError(value + '\n' + json.dumps(args)[:2000])
        self.stats.add(st)
        if keep:
            self.memo[key] = value
        return value


def seed_of(base, prop, n):
    h = hashlib.sha256(('%s/%s/%s' % (base, prop, n)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


# -- workers --------------------------------------------------------------------


def worker(prop, base_seed, numbers, deadline, out_fd, tier):
    """Explore the given seeds; send one message per seed, then the stats."""

    def send(msg):
        blob = pickle.dumps(msg, -1)
        blob = len(blob).to_bytes(8, 'big') + blob
        view = memoryview(blob)
        while view:
            n = seam.real['write'](out_fd, view)
            view = view[n:]

    total = Stats()
    try:
        for n in numbers:
            if clock() > deadline:
                break
            seed = seed_of(base_seed, prop.id, n)
            rng = random.Random(seed)
            iso = Iso()
            family = prop.gen(rng, n)
            runs = 0
            trivial = 0
            sample = None
            found = []
            known = []
            for c in prop.explore(family, rng, iso, tier):
                if clock() > deadline + 60:
                    break
                runs += 1
                vs = prop.check(c, iso)
                if sample is None:
                    sample = c
                if not prop.nontrivial(c):
                    trivial += 1
                for v in vs:
                    k = prop.known(v, c)
                    if k:
                        known.append(k)
                    else:
                        found.append((v, c))
                if found:
                    break
            total.merge(iso.stats)
            send(('seed', n, seed, runs, runs - trivial, found[:1], known,
                  sample if n < 3 else None))
        send(('stats', total))
    except BaseException:  # noqa: B036
        send(('error', traceback.format_exc()))
    os._exit(0)


def explore(prop, base_seed, count, wall, tier, jobs=None):
    """-> dict with everything measured; stops at the first violation."""
    jobs = jobs or min(8, os.cpu_count() or 1)
    deadline = clock() + wall
    procs = []
    for j in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            for rr, _ in procs:
                os.close(rr)
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            worker(prop, base_seed, range(j, count, jobs), deadline, w, tier)
        os.close(w)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass  # it did so itself, or has ended
        procs.append((r, pid))
    res = {'seeds': 0, 'runs': 0, 'nontrivial': 0, 'violation': None,
           'known': {}, 'samples': [], 'stats': Stats(), 'errors': []}
    bufs = {r: bytearray() for r, _ in procs}
    live = dict(procs)
    while live:
        ready, _, _ = select.select(list(live), [], [], 5)
        for r in ready:
            b = os.read(r, 1 << 20)
            if not b:
                os.close(r)
                os.waitpid(live.pop(r), 0)
                continue
            buf = bufs[r]
            buf += b
            while len(buf) >= 8:
                n = int.from_bytes(buf[:8], 'big')
                if len(buf) < 8 + n:
                    break
                msg = pickle.loads(bytes(buf[8:8 + n]))
                del buf[:8 + n]
                if msg[0] == 'seed':
                    _, num, seed, runs, nontriv, found, known, sample = msg
                    res['seeds'] += 1
                    res['runs'] += runs
                    res['nontrivial'] += nontriv
                    for k in known:
                        res['known'][k] = res['known'].get(k, 0) + 1
                    if sample is not None:
                        res['samples'].append((num, sample))
                    if found and res['violation'] is None:
                        res['violation'] = (num, seed) + found[0]
                elif msg[0] == 'stats':
                    res['stats'].merge(msg[1])
                else:
                    res['errors'].append(msg[1])
        if res['violation'] is not None or res['errors']:
            for r, pid in live.items():
                # with the executions it has started
                os.killpg(pid, signal.SIGKILL)
            for r, pid in live.items():
                os.waitpid(pid, 0)
                os.close(r)
            break
    return res


# -- minimising --------------------------------------------------------------------

SHRINK_LISTS = {'lines', 'files', 'links', 'hard', 'faults', 'steps', 'switches',
                'saves', 'docs', 'calls', 'history', 'cuts', 'threads',
                'versions', 'prefix'}
SHRINK_DROP = {'buf', 'chunk', 'tmpdev', 'umask', 'mode', 'constant',
               'ordered', 'owner', 'out', 'out_enc', 'stderr', 'unordered', 'levels', 'no_links',
               'no_list_coherence', 'no_indentation', 'skip_lines', 'newline',
               'nl', 'clock', 'pid', 'entropy', 'marker', 'cuts', 'diff'}


def variants(c):
    """Smaller scenarios, roughly from the boldest cut to the smallest."""

    def paths(x, p=()):
        yield p, x
        if isinstance(x, dict):
            for k in x:
                yield from paths(x[k], p + (k, ))
        elif isinstance(x, list):
            for i, y in enumerate(x):
                yield from paths(y, p + (i, ))

    def put(p, value):
        d = copy.deepcopy(c)
        t = d
        for k in p[:-1]:
            t = t[k]
        t[p[-1]] = value
        return d

    def drop(p):
        d = copy.deepcopy(c)
        t = d
        for k in p[:-1]:
            t = t[k]
        del t[p[-1]]
        return d

    items = [(p, x) for p, x in paths(c) if p]
    for p, x in items:
        if p[-1] in SHRINK_LISTS and isinstance(x, list) and len(x) > 1:
            n = len(x)
            size = n // 2
            while size >= 1:
                for i in range(0, n, size):
                    rest = x[:i] + x[i + size:]
                    if rest or p[-1] in ('faults', 'switches', 'saves',
                                         'links', 'hard', 'lines', 'history',
                                         'prefix'):
                        yield put(p, rest)
                size //= 2
        elif p[-1] in ('faults', 'switches', 'saves', 'links', 'hard', 'history',
                       'prefix') and isinstance(x, list) and x:
            yield put(p, [])
    for p, x in items:
        if p[-1] in SHRINK_DROP:
            yield drop(p)
        elif p[-1] in ('sel', 'at', 'line', 'cut', 'pos') and isinstance(
                x, int) and x > 1:
            for y in (1, x // 2, x - 1):
                if y != x:
                    yield put(p, y)
        elif len(p) > 1 and p[-2] == 'lines' and isinstance(x, str) and x:
            # (no parts of words: they might be outside of what is modelled)
            k = x.rfind(' ', 0, len(x) // 2 + 1)
            for y in ('', 'x', '# a', x[:max(k, 0)],
                      x if ' ' in x[3:] else x[:len(x) // 2],
                      x.rsplit(' ', 1)[0]):
                if len(y) < len(x):
                    yield put(p, y)


def minimise(prop, c, what, wall=40):
    """Shrink while the same kind of violation persists."""
    end = clock() + wall
    best, tried = c, 0
    progress = True
    while progress and clock() < end:
        progress = False
        for d in variants(best):
            if clock() > end:
                break
            tried += 1
            try:
                if not prop.valid(d):
                    continue
                vs = prop.check(d, Iso())
            except Exception:
                continue
            vs = [v for v in vs if not prop.known(v, d)]
            if any(v['kind'] == what['kind'] for v in vs):
                best = d
                progress = True
                break
    return best, tried


def traced(prop, c):
    """System calls and faults of the last execution of the scenario."""
    global TRACE
    iso = Iso()
    TRACE = True
    try:
        prop.check(c, iso)
    finally:
        TRACE = False
    return [x for t in iso.stats.traces[-1:] for w in t for x in w]


def confirm(prop, c, what):
    """Does the scenario fail the same way?  -> violation or None"""
    vs = [v for v in prop.check(c, Iso()) if not prop.known(v, c)]
    for v in vs:
        if v['kind'] == what['kind']:
            return v
    return None

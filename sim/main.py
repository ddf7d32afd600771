"""Command line of the checks."""
import json
import os
import random
import sys

from . import seam, world

world.boot(os.environ.get('MDTOC_ROOT', '/repo'))

from . import engine, registry  # noqa: E402

VERIF = engine.VERIF
clock = engine.clock
FINDINGS = os.path.join(VERIF, 'known_findings.txt')


def findings(pid):
    """{finding id: text} recorded for a property (the entries that are open)."""
    out = {}
    try:
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if line.startswith('open: property=%s ' % pid):
                    rest = line.split(' ', 2)[2]
                    fid, text = rest.split(' ', 1)
                    out[fid] = text
    except FileNotFoundError:
        pass
    return out


class Suppressor:
    """Lets a property's `known` speak only for findings that are recorded."""

    def __init__(self, prop):
        self.recorded = findings(prop.id)
        self.orig = prop.known
        prop.known = self

    def __call__(self, v, c):
        k = self.orig(v, c)
        return k if k in self.recorded else None


def report(prop, seed, num, v, c, tier):
    c2, tried = engine.minimise(prop, c, v)
    v2 = engine.confirm(prop, c2, v)
    if v2 is None:
        c2, v2 = c, v
    path = os.path.join(VERIF, 'evidence', 'replay-%s-%s.json' % (prop.id, num))
    with open(path, 'w') as f:
        json.dump({'property': prop.id, 'seed': seed, 'number': num,
                   'violation': v2, 'scenario': c2, 'shrink_steps': tried,
                   'trace': engine.traced(prop, c2)[-300:]}, f,
                  indent=1, sort_keys=True, default=repr)
    return path, v2, c2


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    v = engine.confirm(prop, d['scenario'], d['violation'])
    for x in engine.traced(prop, d['scenario']):
        print('  ' + x)
    if v is None:
        print('not reproduced: %s' % path)
        return 0
    print('reproduced: %s' % v['what'])
    print('VIOLATION property=%s replay=%s' % (prop.id, path))
    return 1


def main(argv):
    pid = argv[0]
    prop = registry.PROPS[pid]()
    sup = Suppressor(prop)
    if '--replay' in argv:
        return replay(prop, argv[argv.index('--replay') + 1])
    if '--outcomes' in argv:
        from . import props_conc
        props_conc.print_outcomes(json.load(sys.stdin))
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    count, wall = getattr(prop, tier)
    if '--count' in argv:
        count = int(argv[argv.index('--count') + 1])
    if '--wall' in argv:
        wall = float(argv[argv.index('--wall') + 1])
    jobs = int(os.environ.get('MDTOC_JOBS', '0')) or None
    print('%s: seed %d, tier %s, up to %d scenario families' %
          (pid, seed, tier, count))
    t0 = clock()
    res = engine.explore(prop, seed, count, wall, tier, jobs)
    if '--digest' in argv:
        print('DIGEST', digest(res))
    found = []
    if res['violation']:
        num, s, v, c = res['violation']
        found.append((s, num, v, c))
    elif not res['errors']:
        for v, c in prop.extra(seed, tier, res):
            found.append((seed, 'extra', v, c))
    status = 0
    replays = []
    for s, num, v, c in found[:1]:
        again = engine.confirm(prop, c, v)
        if again is None:
            print('the violation was not reproduced in a fresh process: %s' %
                  v['what'])
            res['errors'].append('not reproduced: ' + v['what'])
            continue
        path, v, c = report(prop, s, num, v, c, tier)
        replays.append(path)
        print('%s: %s' % (v['kind'], v['what']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        status = 1
    known_lines = []
    if status == 0 and not res['errors']:
        for fid, c in prop.regressions():
            if fid not in sup.recorded:
                continue
            vs = prop.check(c, engine.Iso())
            if any(prop.known(v, c) == fid for v in vs):
                line = 'KNOWN-FINDING: property=%s %s' % (
                    pid, sup.recorded[fid])
                if line in known_lines:
                    continue
                known_lines.append(line)
                print(known_lines[-1])
    wall_s = clock() - t0
    evidence(prop, tier, seed, res, wall_s, status, replays, known_lines)
    st = res['stats']
    print('%s: %d families, %d runs, %d executions, %d system calls, %.1f '
          'simulated s, %d distinct event logs, %.1f s' %
          (pid, res['seeds'], res['runs'], st.executions, st.syscalls,
           st.sim_ns / 1e9, len(st.digests), wall_s))
    if res['errors']:
        sys.stderr.write(res['errors'][0] + '\n')
        return status or 2
    return status


def digest(res):
    import hashlib
    st = res['stats']
    h = hashlib.sha1()
    for x in sorted(st.digests) + sorted(st.schedules):
        h.update(str(x).encode())
    h.update(json.dumps([st.faults, st.probes, st.syscalls, st.sim_ns,
                         res['runs']], sort_keys=True).encode())
    return h.hexdigest()


REAL = ('md_toc (all modules, freshly loaded from /repo for every simulated '
        'process)', 'fpyutils.filelines', 'argparse, tempfile, shutil, '
        'posixpath, traceback of the standard library',
        "io.TextIOWrapper and io.Buffered* (CPython's C code)")
STUB = ('the kernel: system calls of module os, io.FileIO and open() '
        '(sim/vfs.py)', 'clock, process id, random source, temporary names',
        'standard streams below their buffers', 'thread scheduling',
        'process start and exit (sim/world.py)')


def evidence(prop, tier, seed, res, wall_s, status, replays, known):
    st = res['stats']
    ev = {
        'property': prop.id,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'wall_s': round(wall_s, 2),
        'violations': 1 if status else 0,
        'assumptions': [
            'the simulated file system behaves like a POSIX one: rename is '
            'atomic, metadata is journalled in order, data is durable after '
            'fsync',
            'a clean batch is evidence, not proof: runs are sampled',
        ],
        'coverage': {
            'evaluations': res['runs'],
            'distinct_nontrivial': min(len(st.digests), res['nontrivial']),
            'rule': prop.rule + '; distinct = different event log (sequence '
            'of system calls with paths and sizes, faults) of an execution',
            'samples': [c for _, c in sorted(res['samples'],
                                             key=lambda x: x[0])][:3] or
            [repr(prop.gen(random.Random(0), 0))],
            'scenario_families': res['seeds'],
            'simulated_executions': st.executions,
            'seeds_per_hour': int(res['seeds'] / max(wall_s, .001) * 3600),
            'runs_per_hour': int(res['runs'] / max(wall_s, .001) * 3600),
            'system_calls': st.syscalls,
            'simulated_seconds': round(st.sim_ns / 1e9, 3),
            'faults_fired': dict(sorted(st.faults.items())),
            'distinct_event_logs': len(st.digests),
            'distinct_schedules': len(st.schedules),
            'probes': dict(sorted(st.probes.items())),
            'stalled_executions': st.stalls,
            'beyond_seeded_runs': res.get('extra', {}),
            'known_findings_met': res['known'],
            'known_finding_lines': known,
            'components_real': REAL,
            'components_stub': STUB,
            'replays': replays,
        },
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop.id)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(d, prop.id + '.json'))

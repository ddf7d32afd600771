"""What the checks of all properties share: operations, runs, fault plans."""
import random

from . import docs, model, world
from .world import tobytes


def text_of(f):
    return tobytes(f).decode('utf-8', 'surrogateescape')


def viol(kind, what, **more):
    return dict(kind=kind, what=what, **more)


def files_of(w):
    """{path: bytes} of the documents below /w (and where links lead)."""
    return {
        p: x[2]
        for p, x in w.vfs.snapshot().items() if x[0] == 'f'
    }


def doc_bytes(w, names):
    return {n: w.peek(n) for n in names}


def perform(run, w, op, faults=None, lines=False, new=True):
    """Do one operation in world w -> what the caller can see.

    op: {'op': 'cli', 'o': options, 'files': [...], 'in_place', 'diff',
         'stdin': text}                    a run of the command
        {'op': 'update', 'o', 'files'}     the same through the API
        {'op': 'build' | 'equal', 'o', 'files'}
        {'op': 'write', 'files', 'toc', 'nl'}
    """
    w.arm(faults)
    if lines:
        world.watch_lines(True)
    try:
        if op['op'] == 'cli':
            r = w.cli(
                docs.argv(op['o'], op['files'], op.get('in_place'),
                          op.get('diff')),
                op.get('stdin', '').encode('utf-8', 'surrogateescape'),
                op.get('cuts'))
            res = {
                'code': r.code,
                'out': r.out,
                'err': r.err.decode('utf-8', 'replace')[-300:],
                'died': r.died,
                'stalled': r.stalled,
                'ok': r.code in (0, 128) and not r.died,
                'value': [r.code, r.out],
            }
        else:
            if new:
                w.begin(op.get('stdin', '').encode('utf-8', 'surrogateescape'),
                        op.get('cuts'))
            res = api_op(w, op)
            if new and not w.dead:
                w.end()
    finally:
        if lines:
            world.watch_lines(False)
    res['ops'] = w.ops
    res['lines'] = w.lines
    res['fired'] = list(w.fired)
    res['raised'] = sorted(w.raised)
    run.fired.extend(w.fired)
    if res['stalled']:
        run.stalls += 1
    return res


def api_op(w, op):
    o, files = op.get('o'), op.get('files')
    kind = op['op']
    marker = (o or op).get('marker', docs.MARKER)
    nl = (o or op).get('newline', '\n')
    calls = []
    if kind == 'build':
        if len(files) == 1 and not op.get('multi'):
            calls.append(lambda v: w.call('build_toc', files[0],
                                          **docs.kwargs(o)))
        else:
            calls.append(lambda v: w.call('build_multiple_tocs', list(files),
                                          **docs.kwargs(o)))
    elif kind == 'update':
        calls.append(lambda v: w.call('build_multiple_tocs', list(files),
                                      **docs.kwargs(o)))
        calls.append(
            lambda v: w.call('write_strings_on_files_between_markers',
                             list(files), v, marker, nl))
    elif kind == 'equal':
        calls.append(
            lambda v: w.call('build_toc', files[0], **docs.kwargs(o)))
        calls.append(lambda v: w.call('tocs_equal', v, files[0], marker))
    elif kind == 'compare':
        calls.append(
            lambda v: w.call('tocs_equal', op['toc'], files[0], marker))
    elif kind == 'write':
        calls.append(
            lambda v: w.call('write_string_on_file_between_markers', files[0],
                             op['toc'], marker, nl))
    elif kind == 'call':
        calls.append(lambda v: w.call(op['fn'], *op['args'], **op.get(
            'kwargs', {})))
    else:
        raise AssertionError(kind)
    v = None
    for c in calls:
        r = c(v)
        v = r.value
        if not r.ok:
            break
    return {
        'ok': r.ok,
        'code': 0 if r.ok else 1,
        'out': b'',
        'err': '%s: %s' % (r.exc, r.msg) if r.exc else '',
        'exc': r.exc,
        'died': r.died,
        'stalled': r.stalled,
        'value': r.value if r.ok else None,
    }


def names(spec):
    return [f['path'] for f in spec['files']]


# isolated executions ---------------------------------------------------------


def solo(run, spec, op, measure=False, lines=False):
    """One undisturbed operation in a new world."""
    w = run.world(spec)
    if measure:
        w.opkinds = []
    r = perform(run, w, op, None, lines)
    r['files'] = doc_bytes(w, names(spec))
    r['max_fds'] = w.vfs.max_fds
    if measure:
        r['opkinds'] = w.opkinds
    return r


# fault plans -------------------------------------------------------------------

MUTATING = ('creat', 'write', 'fsync', 'close', 'rename', 'unlink', 'chmod',
            'truncate', 'link')


def pick_at(rng, opkinds):
    """An index of a system call, mostly inside the critical part."""
    n = len(opkinds)
    if n == 0:
        return 1
    r = rng.random()
    if r < .45:
        hot = [
            i + 1 for i, (k, p, _) in enumerate(opkinds)
            if k in MUTATING and (p.startswith('/w') or p == '<stdout>')
        ]
        if hot:
            return rng.choice(hot)
    if r < .7:
        hot = [
            i + 1 for i, (k, p, _) in enumerate(opkinds) if k in MUTATING
        ]
        if hot:
            return rng.choice(hot)
    return rng.randint(1, n)


def one_fault(rng, opkinds, kinds, nlines=0):
    k = rng.choice(kinds)
    sel = rng.randrange(1000)
    if k.endswith('@line'):
        if nlines:
            return {'line': rng.randint(1, nlines), 'kind': k[:-5], 'sel': sel}
        k = k[:-5]
    return {'at': pick_at(rng, opkinds), 'kind': k, 'sel': sel}


def plans(rng, opkinds, kinds, count, nlines=0, multi=.3):
    """Fault plans; single faults first go through the points in order."""
    out = []
    n = len(opkinds)
    points = list(range(1, n + 1))
    rng.shuffle(points)
    for i in range(count):
        if rng.random() < multi:
            fs = [
                one_fault(rng, opkinds, kinds, nlines)
                for _ in range(rng.randint(2, 3))
            ]
        else:
            f = one_fault(rng, opkinds, kinds, nlines)
            if 'at' in f and points and rng.random() < .6:
                f['at'] = points.pop()
            fs = [f]
        out.append(fs)
    return out


class Prop:
    id = None
    quick = (40, 60)
    thorough = (4000, 1500)
    rule = ''
    per_family = {'quick': 10, 'thorough': 30}

    def gen(self, rng, n):
        raise NotImplementedError

    def explore(self, family, rng, iso, tier):
        yield family

    def check(self, c, iso):
        raise NotImplementedError

    def known(self, v, c):
        return None

    def nontrivial(self, c):
        return True

    def valid(self, c):
        return bool(c.get('world', {}).get('files')) and all(
            f in names(c['world']) or f in [
                x[0] for x in c['world'].get('links', ())
            ] or f == '-' for f in c.get('op', {}).get('files') or ())

    def regressions(self):
        """(finding id, scenario) of recorded findings."""
        return []

    def extra(self, seed, tier, res):
        """Checks beyond the seeded runs -> list of (violation, scenario)."""
        return []


STYLES = ('p%d/README.md', 'my doc %d.md', 'é%d.md', '/w/abs%d.md',
          '-d%d.md', 'x%d', 'sub dir/deep/%d.markdown', '%d.tmp', '.h%d.md')


def enlarge(rng, f):
    """More than one block of text before, after or around the lines."""
    size = rng.choice((120, 300, 700))
    if rng.random() < .2:
        # more than 64 kB
        f['lines'] += ['lorem ipsum dolor sit amet ' * 26] * 100
    more = docs.body(rng, size, coherent=1) if rng.random() < .5 else [
        'lorem ipsum dolor sit amet ' * rng.randint(1, 6)
        for _ in range(size)
    ]
    r = rng.random()
    f['lines'] = more + f['lines'] if r < .4 else f['lines'] + more if \
        r < .8 else more[:size // 2] + f['lines'] + more[size // 2:]


def some_world(rng, n=1, wild=None, marker=docs.MARKER, markers=None,
               coherent=.9, sizes=None, kind=None, paths=True):
    wild = rng.random() < .3 if wild is None else wild
    spec = {'files': []}
    style = rng.choice(STYLES) if paths and rng.random() < .3 else 'd%d.md'
    for i in range(n):
        f = {
            'path': style % i,
            'lines': docs.document(rng, size=rng.choice(sizes) if sizes else
                                   None, marker=marker, wild=wild,
                                   markers=markers, coherent=coherent,
                                   kind=kind)
        }
        nl = docs.newline(rng)
        if nl != '\n':
            f['nl'] = nl
        if rng.random() < .3:
            f['mode'] = rng.choice(docs.MODES)
        if rng.random() < .06:
            f['owner'] = rng.choice(([1001, 1000], [1001, 1001], [0, 0]))
            f['mode'] = rng.choice((0o664, 0o666, 0o644, 0o646, 0o660))
        if rng.random() < .04:
            f['lines'][0] = '\ufeff' + f['lines'][0]
        spec['files'].append(f)
    large = sizes is None and rng.random() < .06
    if large:
        enlarge(rng, rng.choice(spec['files']))
    docs.knobs(rng, spec)
    if large:
        # a system call for every byte would cost too much
        for k in ('buf', 'chunk'):
            if spec.get(k, 99) < 64:
                spec[k] = 512
    return spec


def some_op(rng, spec, in_place=None, simple=False, marker=docs.MARKER,
            via=None, o=None):
    o = o if o is not None else docs.with_marker(
        docs.options(rng, simple=simple), marker)
    if in_place is None:
        in_place = rng.random() < .7
    via = via or rng.choice(('cli', 'cli', 'api'))
    files = names(spec)
    if via == 'api':
        return {'op': 'update' if in_place else 'build', 'o': o,
                'files': files}
    op = {'op': 'cli', 'o': o, 'files': files, 'in_place': in_place}
    if rng.random() < .25:
        op['diff'] = True
    return op


def short(b, n=160):
    return repr(b if b is None or len(b) <= n else b[:n] + b'...')


__all__ = [n for n in dir() if not n.startswith('_')]

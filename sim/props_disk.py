"""C01, C02, C03, C04, C05, C08: what happens to the documents."""
import random

from . import docs, engine, model
from .base import *  # noqa: F401,F403
from .base import (Prop, doc_bytes, names, perform, plans, short, solo,
                   some_op, some_world, viol)
from .world import tobytes

DISK = ('err', 'err', 'stay', 'short', 'full', 'rofs', 'emfile', 'kill', 'kill',
        'intr', 'nomem', 'intr@line', 'kill@line')


def watched(run, spec, op, faults, allowed, lines, power, seed):
    """One disturbed operation; the documents are looked at all the time."""
    w = run.world(spec)
    rng = random.Random(seed)
    bad = []
    last = [-1]

    def look(kind, path, n):
        if bad or w.vfs.mutations == last[0]:
            return
        last[0] = w.vfs.mutations
        for name, ok in allowed.items():
            b = w.peek(name)
            if b not in ok:
                bad.append(('visible', name, 'before %s %s' % (kind, path), b))
                return
        if power:
            for desc, contents, tree in w.vfs.crash_states(rng, 1):
                run.probe('power-loss states')
                for name, ok in allowed.items():
                    b = w.vfs.lookup_in(tree, contents, w.path(name))
                    if b not in ok:
                        bad.append(('power', name, 'power loss before %s %s '
                                    '(%s)' % (kind, path, desc), b))
                        return

    w.observers.append(look)
    r = perform(run, w, op, faults, lines)
    w.observers.clear()
    last[0] = -1
    if not bad:
        look('the end', 'of the run', 0)
    r['files'] = doc_bytes(w, names(spec))
    r['bad'] = bad
    return r


def by_link(rng, spec, op, p=.15):
    """Some documents are named through a symbolic link."""
    for i, f in enumerate(op['files']):
        if rng.random() < p and not f.startswith('/'):
            name = 'ln%d' % i
            spec.setdefault('links', []).append([name, f])
            op['files'][i] = name
        elif rng.random() < p / 2:
            # a second name: copies of a backup program, of a package manager
            spec.setdefault('hard', []).append(['other%d' % i, f])


class C01(Prop):
    id = 'C01'
    quick = (1000, 75)
    rule = ('one run = one in-place operation (CLI or API) on 1-3 random '
            'documents with a random plan of faults; after every system call '
            'the documents, and every state a power loss could leave, are '
            'compared with the old and the completed content; non-trivial = '
            'the undisturbed operation changes a document')

    def gen(self, rng, n):
        marker = rng.choice(docs.MARKERS)
        spec = some_world(rng, rng.choice((1, 1, 2, 3)), marker=marker,
                          markers=1 if rng.random() < .8 else None)
        op = some_op(rng, spec, True, marker=marker)
        by_link(rng, spec, op)
        return {'world': spec, 'op': op, 'faults': [],
                'seed': rng.randrange(10**6)}

    def explore(self, family, rng, iso, tier):
        base = iso(solo, family['world'], family['op'], True, True, keep=True)
        yield dict(family, power=True)
        if base['stalled']:
            return
        for fs in plans(rng, base['opkinds'], DISK, self.per_family[tier],
                        base['lines']):
            yield dict(family, faults=fs, power=rng.random() < .2)

    def check(self, c, iso):
        base = iso(solo, c['world'], c['op'], True, True, keep=True)
        if base['stalled']:
            return []
        allowed = {}
        for f in c['world']['files']:
            allowed[f['path']] = [tobytes(f), base['files'][f['path']]]
        r = iso(watched, c['world'], c['op'], c['faults'], allowed,
                any('line' in f for f in c['faults']), c.get('power', False),
                c.get('seed', 0))
        out = incomplete(c, base, iso)
        for kind, name, when, b in r['bad']:
            out.append(viol(
                kind, '%s: %s holds neither the old nor the new content: %s' %
                (when, name, short(b)), fired=r['fired']))
        return out


class C02(Prop):
    id = 'C02'
    quick = (2000, 75)
    rule = ('one run = one operation (in place, print, --diff, standard '
            'input; CLI or API) under a random plan of faults; a success '
            'status is compared with the results of the undisturbed run; '
            'non-trivial = at least one fault is planned inside the '
            'operation')

    KINDS = ('err', 'err', 'err', 'stay', 'full', 'rofs', 'emfile', 'short',
             'nomem', 'intr')

    def gen(self, rng, n):
        spec = some_world(rng, rng.choice((1, 1, 2, 3)), wild=rng.random() < .2,
                          markers=1 if rng.random() < .8 else None,
                          coherent=1)
        op = some_op(rng, spec, rng.random() < .5)
        if rng.random() < .2:
            op = {'op': 'cli', 'o': op['o'], 'files': rng.choice(([], ['-'])),
                  'stdin': '\n'.join(docs.document(rng)),
                  'cuts': [rng.randint(1, 40)
                           for _ in range(rng.randint(1, 4))]}
        elif rng.random() < .1 and op['op'] == 'build':
            op = dict(op, op='equal', files=op['files'][:1])
        c = {'world': spec, 'op': op, 'faults': []}
        if rng.random() < .3:
            spec['out'] = rng.choice(('line', 'line', 'through'))
        if rng.random() < .1 and op['op'] == 'cli':
            spec['out_enc'] = rng.choice(('ascii', 'latin-1', 'cp1252'))
        if rng.random() < .12 and op['files'] and op['files'] != ['-']:
            # a document that cannot be read at all
            how = rng.choice(('missing', 'missing', 'mode', 'dir', 'link',
                              'gone'))
            k = rng.randrange(len(op['files']))
            if how == 'mode':
                f = spec['files'][names(spec).index(op['files'][k])]
                f['mode'] = rng.choice((0, 0o200))
            else:
                bad = {'missing': 'missing.md', 'dir': 'somewhere',
                       'link': 'dangling.md', 'gone': 'nowhere/x.md'}[how]
                op['files'] = list(op['files'])
                op['files'].insert(k, bad)
                if op['op'] == 'equal':
                    op['files'] = [bad]
                if how == 'dir':
                    spec['dirs'] = ['somewhere']
                elif how == 'link':
                    spec['links'] = [['dangling.md', 'not-there.md']]
            c['unreadable'] = how
        if rng.random() < (.4 if 'unreadable' in c else .1):
            spec['stderr'] = 'full'
        return c

    def valid(self, c):
        return 'unreadable' in c or super().valid(c)

    def explore(self, family, rng, iso, tier):
        if 'unreadable' in family:
            yield family
            return
        if 'out_enc' in family['world']:
            yield family
        base = iso(solo, family['world'], family['op'], True, keep=True)
        if not base['ok'] or base['stalled']:
            return
        for fs in plans(rng, base['opkinds'], self.KINDS,
                        self.per_family[tier], multi=.2):
            yield dict(family, faults=fs)

    def check(self, c, iso):
        base = iso(solo, c['world'], c['op'], True, keep=True)
        if 'unreadable' in c and base['ok']:
            return [viol('unreadable', 'one of %s cannot be read (%s), but '
                         'the operation reports success (%r)' %
                         (c['op']['files'], c['unreadable'], base['code']))]
        if not base['ok'] or base['stalled']:
            return []
        r = iso(faulted, c['world'], c['op'], c['faults'])
        out = incomplete(c, base, iso)
        enc = c['world'].get('out_enc')
        if enc:
            wide = iso(solo, dict(c['world'], out_enc='utf-8'), c['op'],
                       keep=True)
            a, b = base['out'].decode(enc), wide['out'].decode()
            if not wide['stalled'] and a != b:
                out.append(viol(
                    'not-printed', 'on a terminal that knows only %s the run '
                    'reports success (%r) and prints %r instead of %r' %
                    (enc, base['code'], a[:200], b[:200])))
        if r['died'] or r['stalled'] or not r['ok']:
            return out
        if r['value'] != base['value']:
            out.append(viol(
                'false-success',
                'after %s the operation reports success (%r), but the result '
                'is not complete: got %s instead of %s' %
                (r['fired'], r['code'], short(repr(r['value']).encode()),
                 short(repr(base['value']).encode()))))
        for n, b in base['files'].items():
            if r['files'][n] != b:
                out.append(viol(
                    'false-success-file',
                    'after %s the operation reports success (%r), but %s '
                    'holds %s instead of %s' %
                    (r['fired'], r['code'], n, short(r['files'][n]),
                     short(b))))
                break
        return out


def faulted(run, spec, op, faults, lines=False):
    w = run.world(spec)
    r = perform(run, w, op, faults, lines)
    r['files'] = doc_bytes(w, names(spec))
    return r


class C03(Prop):
    id = 'C03'
    quick = (4500, 75)
    rule = ('one run = one in-place operation, in a world with random buffer '
            'sizes, devices and benign disturbances (short reads and writes), '
            'on a document with random marker lines; the result is compared '
            'with the splice model applied to the TOC that the program '
            'prints for the document; non-trivial = the document has a '
            'marker line')
    per_family = {'quick': 2, 'thorough': 4}

    def gen(self, rng, n):
        marker = rng.choice(docs.MARKERS)
        r = rng.random()
        spec = some_world(rng, 1 if r < .8 else 2, marker=marker,
                          wild=rng.random() < .4)
        if rng.random() < .15:
            f = spec['files'][0]
            f['lines'] = mix_newlines(rng, f['lines'])
            f.pop('nl', None)
        op = some_op(rng, spec, True, marker=marker)
        if rng.random() < .25:
            op = {'op': 'write', 'files': names(spec)[:1], 'toc': odd_toc(rng),
                  'marker': marker, 'newline': docs.newline(rng)}
        return {'world': spec, 'op': op, 'faults': []}

    def explore(self, family, rng, iso, tier):
        yield family
        base = iso(solo, family['world'], family['op'], True, keep=True)
        for fs in plans(rng, base['opkinds'], ('short', ),
                        self.per_family[tier] - 1, multi=.7):
            yield dict(family, faults=fs)

    def check(self, c, iso):
        op = c['op']
        r = iso(faulted, c['world'], op, c['faults'])
        if not r['ok']:
            return []
        return splice_violations(c, op, r, iso)


def incomplete(c, base, iso):
    """The undisturbed run itself loses a part of the document."""
    op = c['op']
    if not base['ok'] or not (op['op'] == 'update' or op.get('in_place')):
        return []
    return splice_violations(c, op, base, iso)


def splice_violations(c, op, r, iso):
    out = []
    links = dict(c['world'].get('links', ()))
    named = [resolve(x, links) for x in op['files']]
    for f in c['world']['files']:
        if f['path'] not in named:
            want = tobytes(f)
        else:
            if op['op'] == 'write':
                toc, marker, nl = (op['toc'], op.get('marker', docs.MARKER),
                                   op.get('newline', '\n'))
            else:
                o = op['o']
                marker = o.get('marker', docs.MARKER)
                nl = o.get('newline', '\n')
                p = iso(solo, c['world'],
                        {'op': 'build', 'o': o, 'files': [f['path']]},
                        keep=True)
                if not p['ok']:
                    out.append(viol(
                        'unexpected-success',
                        'the in-place run succeeds but building the TOC of '
                        '%s does not: %s' % (f['path'], p['err'])))
                    continue
                toc = p['value']
            try:
                want = model.splice(tobytes(f), toc, marker, nl)
            except UnicodeDecodeError:
                continue
        got = r['files'][f['path']]
        if got != want:
            out.append(viol(
                'splice', '%s: %s instead of %s' %
                (f['path'], short(got, 400), short(want, 400))))
    return out


def mix_newlines(rng, lines):
    return [''.join(x + rng.choice(('\n', '\r\n', '\r')) for x in lines)]


def odd_toc(rng):
    return rng.choice((
        '', '- a', '- a\n', '- a\r\n- b\r\n', '  - x\n\n', 'text',
        '- [a](#a)\n  - [b](#b)\n', '1. a\n2. b\n', '- \xe9\u2028z\n',
        '- a\n\n- b', '- a\r- b\r', '* \x0b\n', '- 1\t\n',
    ))


KF1, KF3 = 'KF1', 'KF3'


class C04(Prop):
    id = 'C04'
    quick = (350, 75)
    rule = ('one run = 0-3 disturbed in-place runs of one command (faults, '
            'kills, power losses with a random surviving state, interrupts), '
            'then undisturbed runs: the first must give the bytes of an '
            'undisturbed run on the original, the second must change nothing '
            'and report no difference; non-trivial = the command changes a '
            'document')
    KINDS = ('err', 'stay', 'kill', 'kill', 'power', 'power', 'intr', 'full',
             'rofs', 'nomem', 'intr@line', 'kill@line', 'power@line',
             'emfile')
    per_family = {'quick': 8, 'thorough': 20}

    def gen(self, rng, n):
        marker = rng.choice(docs.MARKERS)
        spec = some_world(rng, rng.choice((1, 1, 2)), marker=marker,
                          markers=1 if rng.random() < .85 else None)
        op = some_op(rng, spec, True, marker=marker)
        op.pop('diff', None)
        o = op['o']
        if o.get('skip_lines'):
            # the skipped lines have to lie before the TOC block
            first = [
                model.find_block(text(f), marker)[1]
                for f in spec['files']
            ]
            first = [x for x in first if x is not None]
            if first and o['skip_lines'] > min(first):
                o['skip_lines'] = min(first)
        return {'world': spec, 'op': op, 'history': []}

    def valid(self, c):
        if not super().valid(c):
            return False
        o = c['op']['o']
        for f in c['world']['files']:
            if model.odd_block(text(f), o.get('marker', docs.MARKER)):
                return False
            a = model.find_block(text(f), o.get('marker', docs.MARKER))[1]
            if a is not None and o.get('skip_lines', 0) > a:
                return False
        return True

    def explore(self, family, rng, iso, tier):
        base = iso(solo, family['world'], family['op'], True, True, keep=True)
        yield family
        if not base['ok']:
            return
        for _ in range(self.per_family[tier]):
            yield dict(family, history=[
                plans(rng, base['opkinds'], self.KINDS, 1, base['lines'],
                      .2)[0] for _ in range(rng.choice((1, 1, 2, 3)))
            ])

    def check(self, c, iso):
        base = iso(solo, c['world'], c['op'], True, True, keep=True)
        if not base['ok'] or not self.valid(c):
            return []
        r = iso(resumed, c['world'], c['op'], c['history'])
        if r.get('stalled'):
            return []
        out = incomplete(c, base, iso)
        for n, b in base['files'].items():
            if r['first'][n] != b:
                out.append(viol(
                    'not-converged',
                    '%s after %s: the next complete run gives %s instead of '
                    '%s' % (n, r['fired'], short(r['first'][n], 300),
                            short(b, 300)), file=n))
            elif r['second'][n] != b:
                out.append(viol(
                    'not-idempotent', '%s: the second run gives %s instead '
                    'of %s' % (n, short(r['second'][n], 300), short(b, 300)),
                    file=n))
        if not r['ok1'] or not r['ok2']:
            out.append(viol('rerun-fails', 'the run after %s fails: %s' %
                            (r['fired'], r['err'])))
        elif not out and r['differ'] and all(
                model.find_block(text(f), c['op']['o'].get(
                    'marker', docs.MARKER))[0] != 'none'
                for f in c['world']['files']):
            out.append(viol('reports-difference',
                            'a run on its own result reports a difference'))
        return out

    def known(self, v, c):
        if v['kind'] not in ('not-idempotent', 'not-converged',
                             'reports-difference'):
            return None
        return unrecognised([
            f for f in c['world']['files']
            if v.get('file') in (None, f['path'])
        ], c['op']['o'])

    def regressions(self):
        return [(KF1, {
            'world': {'files': [{'path': 'd0.md', 'lines': [
                '<!--TOC-->', '# ', '']}]},
            'op': {'op': 'cli', 'o': {'parser': 'github', 'no_links': True},
                   'files': ['d0.md'], 'in_place': True}, 'history': []}),
            (KF3, {
            'world': {'files': [{'path': 'd0.md', 'lines': [
                '<!--TOC-->', '## a', '']}]},
            'op': {'op': 'cli', 'o': {'parser': 'redcarpet'},
                   'files': ['d0.md'], 'in_place': True}, 'history': []})]


def text(f):
    return tobytes(f).decode('utf-8', 'replace')


def unrecognised(files, o):
    """Is it a recorded finding that the tool does not recognise its own TOC?

    KF1: links are disabled and the first listed heading has an empty text or
    one that begins with blank space.
    KF3: redcarpet indents the first listed heading, which is not of level 1,
    by four or more spaces.
    """
    for f in files:
        lines = model.lines_of(text(f))[o.get('skip_lines', 0):]
        hs = [(level, t) for level, t in model.headings(lines, o['parser'])
              if level <= o.get('levels', 6)]
        if not hs:
            continue
        level, t = hs[0]
        if o.get('no_links') and (not t.strip() or t[0] in ' \t\v'):
            return KF1
        if o['parser'] == 'redcarpet' and level > 1 and not o.get(
                'no_indentation'):
            return KF3
    return None


def resumed(run, spec, op, history):
    w = run.world(spec)
    fired = []
    lines = any('line' in f for fs in history for f in fs)
    for fs in history:
        r = perform(run, w, op, fs, lines)
        fired += r['fired']
        if r['stalled']:
            return {'stalled': True}
        if r['died']:
            w.settle()
        w.lift()
    r1 = perform(run, w, op)
    first = doc_bytes(w, names(spec))
    op2 = dict(op)
    if op['op'] == 'cli':
        op2['diff'] = True
    r2 = perform(run, w, op2)
    second = doc_bytes(w, names(spec))
    if r1['stalled'] or r2['stalled']:
        return {'stalled': True}
    return {
        'first': first,
        'second': second,
        'ok1': r1['ok'],
        'ok2': r2['ok'],
        'err': r1['err'] + r2['err'],
        'differ': r2['code'] == 128 if op['op'] == 'cli' else
        r2['value'] is False,
        'fired': fired,
    }


class C05(Prop):
    id = 'C05'
    quick = (1200, 75)
    rule = ('one run = one batch of 2-5 files (some unreadable, missing, '
            'incoherent or binary), in place or printed, with or without '
            '--diff, CLI or API, under a random plan of errors; compared with '
            'runs over each file alone; non-trivial = at least two files')
    per_family = {'quick': 6, 'thorough': 16}

    def gen(self, rng, n):
        k = rng.choice((2, 2, 3, 3, 4, 5, rng.randint(6, 24)))
        spec = some_world(rng, k, sizes=(2, 3, 5, 8) if k < 6 else (1, 3),
                          coherent=1)
        if rng.random() < .3:
            f = rng.choice(spec['files'])
            r = rng.random()
            if r < .4:
                f['lines'] = ['# a', '### b'] + f['lines']
            elif r < .6:
                f['lines'] = f['lines'] + ['#']
            elif r < .8:
                f['lines'] = f['lines'] + ['\udcff']
            else:
                f['mode'] = 0
        op = some_op(rng, spec, rng.random() < .65, simple=True)
        rng.shuffle(op['files'])
        if op['op'] == 'build':
            op['multi'] = True
        if rng.random() < .05:
            op['files'].insert(rng.randint(0, k), 'missing.md')
        if rng.random() < .12:
            op['files'].insert(rng.randint(0, k), '-')
            op['stdin'] = '\n'.join(docs.document(rng, size=4, coherent=1))
        elif op['op'] == 'build' or op['op'] == 'cli' and not op['in_place']:
            while rng.random() < .25:
                op['files'].insert(rng.randint(0, k),
                                   rng.choice(op['files']))
        return {'world': spec, 'op': op, 'faults': []}

    def valid(self, c):
        return bool(c['world']['files']) and bool(c['op']['files']) and all(
            f in names(c['world']) + ['missing.md', '-']
            for f in c['op']['files'])

    def explore(self, family, rng, iso, tier):
        yield family
        base = iso(solo, family['world'], family['op'], True, keep=True)
        for fs in plans(rng, base['opkinds'],
                        ('err', 'err', 'stay', 'full', 'rofs', 'emfile'),
                        self.per_family[tier] - 1, multi=.15):
            yield dict(family, faults=fs)

    def check(self, c, iso):
        op, spec = c['op'], c['world']
        in_place = op['op'] == 'update' or op.get('in_place')
        order = op['files']
        alone = []
        for f in order:
            # each file in the same surroundings, named alone
            alone.append(iso(solo, spec, dict(op, files=[f]), keep=True))
        builds = [
            iso(solo, spec, {'op': 'build', 'o': op['o'], 'files': [f],
                              'stdin': op.get('stdin', '')},
                keep=True) for f in order
        ]
        r = iso(faulted, spec, op, c['faults'])
        if r['stalled'] or any(a['stalled'] for a in alone):
            return []
        old = {f['path']: tobytes(f) for f in spec['files']}
        out = []
        if not r['fired']:
            unbuilt = [f for f, b in zip(order, builds)
                       if not b['ok'] or f not in old and f != '-']
            if unbuilt:
                if r['ok']:
                    out.append(viol('no-error', 'the TOC of %s cannot be '
                                    'built, but the batch succeeds' % unbuilt))
                for n, b in r['files'].items():
                    if b != old[n]:
                        out.append(viol(
                            'modified', 'the TOC of %s cannot be built, but '
                            '%s was modified' % (unbuilt, n)))
                return out
            failed = [n for n, a in enumerate(alone) if not a['ok']]
            stop = failed[0] if failed else len(order)
            for n, f in enumerate(order):
                if f not in old:
                    continue
                want = alone[n]['files'][f] if n < stop else old[f]
                if r['files'][f] != want:
                    out.append(viol(
                        'differs', '%s (number %d of the batch): %s, alone %s'
                        % (f, n, short(r['files'][f]), short(want))))
            for n in old:
                if n not in order and r['files'][n] != old[n]:
                    out.append(viol('modified', '%s is not named, but '
                                    'modified' % n))
            if failed:
                if r['ok']:
                    out.append(viol('no-error', '%s fails alone, but the '
                                    'batch succeeds' % order[stop]))
                return out
            if not r['ok']:
                return out + [viol('error', 'every file alone succeeds, the '
                                   'batch fails: %s' % r['err'])]
            if op['op'] == 'cli':
                code = 128 if any(a['code'] == 128 for a in alone) else 0
                if r['code'] != code:
                    out.append(viol('status', 'status %s, but %s from the '
                                    'files alone' % (r['code'], code)))
                text = b''.join(a['out'] for a in alone)
                if r['out'] != text:
                    out.append(viol('output', 'printed %s, alone %s' %
                                    (short(r['out']), short(text))))
            elif op['op'] == 'build':
                vals = [a['value'] for a in alone]
                vals = [v[0] if isinstance(v, list) else v for v in vals]
                if r['value'] != vals:
                    out.append(viol('values', 'TOCs %r, alone %r' %
                                    (r['value'], vals)))
            elif r['value'] is not all(a['value'] for a in alone):
                out.append(viol('equal', 'returns %r, alone %r' %
                                (r['value'], [a['value'] for a in alone])))
            return out
        # faults: complete updates first, then untouched files
        if not in_place:
            for n in old:
                if r['files'][n] != old[n]:
                    out.append(viol('modified', '%s modified' % n))
            return out
        new = {f: a['files'][f] for f, a in zip(order, alone) if f in old}
        seen_old = None
        for f in order:
            if f not in old:
                continue
            b = r['files'][f]
            if b not in (old[f], new[f]):
                out.append(viol('partial', '%s after %s: %s' %
                                (f, r['fired'], short(b))))
            elif b == new[f] and b != old[f] and seen_old:
                out.append(viol(
                    'order', 'after %s %s is updated although %s before it '
                    'is not' % (r['fired'], f, seen_old)))
            elif b == old[f] and b != new[f]:
                seen_old = f
        if any(not b['ok'] for b in builds):
            for n in old:
                if r['files'][n] != old[n]:
                    out.append(viol('modified', 'a TOC cannot be built, but '
                                    '%s was modified' % n))
        if seen_old and r['ok']:
            out.append(viol('no-error', '%s was not updated after %s, but '
                            'the batch reports success' %
                            (seen_old, r['fired'])))
        return out


SIBLINGS = ('d0.md~', 'd0.md.bak', 'd0.md.tmp', '.d0.md.swp', 'd0', 'd0.md.orig',
            'tmp', 'd0.html', '/tmp/tmpfile', '/tmp/d0.md', '/home/u/.cfg')


class C08(Prop):
    id = 'C08'
    quick = (1500, 75)
    rule = ('one run = one operation (in place, print, --diff, API) on '
            'documents with random permissions, symbolic links and sibling '
            'files, with or without I/O errors; the whole simulated file '
            'system before and after is compared; non-trivial = in-place or '
            'with a fault')
    KINDS = ('err', 'err', 'stay', 'full', 'short', 'emfile', 'nomem')

    def gen(self, rng, n):
        spec = some_world(rng, rng.choice((1, 1, 2)),
                          markers=1 if rng.random() < .8 else None,
                          coherent=.9, paths=False)
        for f in spec['files']:
            f['mode'] = rng.choice(docs.MODES + (0o604, 0o7644 & 0o1777))
        docs_ = names(spec)
        for s in rng.sample(SIBLINGS, rng.randint(0, 4)):
            spec['files'].append({'path': s, 'lines': ['keep', ''],
                                  'mode': rng.choice(docs.MODES)})
        o = docs.options(rng, simple=True)
        files = list(docs_)
        if rng.random() < .4:
            style = rng.choice(('rel', 'abs', 'dir', 'chain'))
            real = docs_[0]
            if style == 'rel':
                spec['links'] = [['link.md', real]]
            elif style == 'abs':
                spec['links'] = [['link.md', '/w/' + real]]
            elif style == 'chain':
                spec['links'] = [['link.md', 'l2.md'], ['l2.md', real]]
            else:
                spec['dirs'] = ['sub']
                spec['links'] = [['sub/l2.md', '../' + real],
                                 ['link.md', 'sub/l2.md']]
            files[0] = 'link.md'
        op = some_op(rng, spec, rng.random() < .75, o=o)
        op['files'] = files
        if op['op'] == 'build' and rng.random() < .4:
            op = dict(op, op='equal', files=files[:1])
        if rng.random() < .08:
            op['files'] = list(op['files'])
            op['files'][rng.randrange(len(op['files']))] = 'missing.md'
        return {'world': spec, 'op': op, 'faults': []}

    def valid(self, c):
        have = names(c['world']) + [x[0] for x in c['world'].get('links', ())]
        have.append('missing.md')
        if any(f not in have for f in c['op']['files']):
            return False
        for a, t in c['world'].get('links', ()):
            b = t.split('/')[-1]
            if b not in have and 'sub/' + b not in have:
                return False
        return bool(c['op']['files'])

    def explore(self, family, rng, iso, tier):
        yield family
        base = iso(solo, family['world'], family['op'], True, keep=True)
        for fs in plans(rng, base['opkinds'], self.KINDS,
                        self.per_family[tier] - 1, multi=.2):
            yield dict(family, faults=fs)

    def nontrivial(self, c):
        return bool(c['faults'] or c['op'].get('in_place')
                    or c['op']['op'] == 'update')

    def check(self, c, iso):
        r = iso(surveyed, c['world'], c['op'], c['faults'])
        if r['stalled']:
            return []
        out = []
        op = c['op']
        in_place = op['op'] == 'update' or op.get('in_place')
        links = dict(c['world'].get('links', ()))
        named = set()
        for f in op['files']:
            for _ in range(5):
                if f not in links:
                    break
                t = links[f]
                if t.startswith('/w/'):
                    f = t[3:]
                elif t.startswith('../'):
                    f = t[3:]
                else:
                    f = t
            named.add('/w/' + f)
        before, after = r['before'], r['after']
        for p in sorted(set(before) | set(after)):
            a, b = before.get(p), after.get(p)
            if a == b:
                continue
            if a is None:
                if r['uncleanable']:
                    continue
                out.append(viol(
                    'left-behind', '%s is left behind (created by %s) after '
                    '%s' % (p, r['creators'].get(p), r['fired'] or 'the run'),
                    creator=r['creators'].get(p), path=p, fired=r['fired']))
            elif b is None:
                out.append(viol('removed', '%s was removed' % p))
            elif a[0] != b[0]:
                out.append(viol('type', '%s was a %s and is a %s' %
                                (p, a[0], b[0])))
            elif a[1] != b[1]:
                out.append(viol('mode', 'permissions of %s: %o -> %o' %
                                (p, a[1], b[1])))
            elif not in_place or p not in named:
                out.append(viol('changed', '%s was changed (%s)' %
                                (p, 'read-only operation' if not in_place else
                                 'not named')))
        for e in r['escapes']:
            if e.startswith('open /usr/tmp/'):
                continue  # tempfile looks for a directory it can use
            out.append(viol('outside', 'tries to modify: ' + e))
        if in_place and r['ok'] and not r['fired'] and 'link.md' in links:
            flat = iso(solo, dict(c['world'], links=[]),
                       dict(op, files=[n[3:] if n.startswith('/w/') else n
                                       for n in [resolve(f, links)
                                                 for f in op['files']]]),
                       keep=True)
            for p in named:
                if after.get(p, (0, 0, None))[2] != flat['files'].get(p[3:]):
                    out.append(viol('link-target', 'the target %s of the link '
                                    'was not updated' % p))
        return out

    def known(self, v, c):
        if v['kind'] == 'left-behind' and v['path'].startswith(
                ('/tmp/tmp', '/var/tmp/tmp', '/w/tmp')) and (v.get('creator') or '').startswith(
                    'fpyutils.filelines.') and v['fired']:
            return 'KF2'
        return None

    def regressions(self):
        spec = {'files': [{'path': 'd0.md', 'lines': [
            '<!--TOC-->', '# a', '']}]}
        op = {'op': 'cli', 'o': {'parser': 'github'}, 'files': ['d0.md'],
              'in_place': True}
        base = engine.Iso()(solo, spec, op, True)
        at = [n + 1 for n, (k, p, _) in enumerate(base['opkinds'])
              if k == 'write' and p.startswith('/tmp/tmp')]
        return [('KF2', {'world': spec, 'op': op, 'faults': [
            {'at': n, 'kind': 'err', 'sel': 0}]}) for n in at]


def resolve(f, links):
    for _ in range(5):
        if f not in links:
            return f
        t = links[f]
        f = t[3:] if t.startswith(('/w/', '../')) else t
    return f


def surveyed(run, spec, op, faults):
    w = run.world(spec)
    before = w.vfs.snapshot()
    r = perform(run, w, op, faults)
    w.lift()
    after = w.vfs.snapshot()
    r['before'], r['after'] = before, after
    r['creators'] = {
        p: w.vfs.creator_of(p)
        for p in after if p not in before
    }
    r['escapes'] = w.escapes
    # nobody can clean up if removing or looking through directories fails
    r['uncleanable'] = bool(w.raised & {'unlink', 'rmdir', 'listdir',
                                        'open-dir'}) or w.vfs.dirs_refused > 0
    return r

"""C06, C07, C12, C13: what is read, compared and listed."""
from . import docs, model
from .base import (Prop, doc_bytes, names, perform, plans, short, solo,
                   some_op, some_world, viol)
from .props_disk import faulted, text, unrecognised
from .world import tobytes


def as_toc(r, op):
    """What a caller gets, independent of the way it asks."""
    if not r['ok']:
        return ['failed']
    if op['op'] == 'cli':
        return ['toc', r['out'].decode('utf-8', 'surrogateescape')]
    return ['toc', r['value']]


class C06(Prop):
    id = 'C06'
    quick = (2500, 75)
    thorough = (60000, 1500)
    rule = ('one run = the TOC of one random text, delivered by file or '
            'standard input, CLI or API, with random cuts of the stream, '
            'buffer and decoder sizes, short reads, line endings and end of '
            'input; compared with the TOC of the same text in an LF file with '
            'default buffers; non-trivial = the delivery differs from that')
    per_family = {'quick': 7, 'thorough': 16}

    def gen(self, rng, n):
        lines = docs.document(rng, wild=rng.random() < .5,
                              size=rng.choice((1, 3, 6, 10, 18)),
                              coherent=.95, markers=rng.choice((0, 0, 1)))
        lines = [x.replace('\r', '') for x in lines]
        if rng.random() < .5:
            # the input ends at an arbitrary character
            t = '\n'.join(lines)
            lines = t[:rng.randint(0, len(t))].split('\n')
        if rng.random() < .15:
            lines = ['', '#' * rng.randint(1, 3) + ' ' +
                     'x' * rng.choice((100, 8180, 8190, 8192, 8200))] + lines
        if rng.random() < .06:
            lines[0] = '\ufeff' + lines[0]
        if rng.random() < .12:
            # a cut of a long line must not show a heading or a fence
            lines[0:0] = [docs.long_line(rng)
                          for _ in range(rng.randint(1, 2))]
        o = docs.options(rng)
        o['no_list_coherence'] = True
        o.pop('no_indentation', None)
        return {'lines': lines, 'o': o, 'via': 'file', 'cli': False}

    def delivery(self, rng):
        c = {'via': rng.choice(('file', 'stdin')), 'cli': rng.random() < .4}
        if rng.random() < .5:
            c['nl'] = rng.choice(('\r\n', '\r'))
        if rng.random() < .5:
            c['buf'] = rng.choice((1, 2, 3, 5, 7, 11, 16, 64, 500, 4096))
        if rng.random() < .5:
            c['chunk'] = rng.choice((1, 2, 3, 5, 7, 16, 100, 1000))
        if c['via'] == 'stdin' and rng.random() < .8:
            c['cuts'] = [rng.choice((1, 1, 2, 3, 5, 8, 13, 40, 200, 5000))
                         for _ in range(rng.randint(1, 6))]
        if rng.random() < .3:
            c['shorts'] = [[rng.randint(1, 60), rng.randrange(1000)]
                           for _ in range(rng.randint(1, 5))]
        return c

    def explore(self, family, rng, iso, tier):
        # both plain channels first, then disturbed ones
        yield dict(family, via='stdin')
        for _ in range(self.per_family[tier]):
            yield dict(family, **self.delivery(rng))

    def valid(self, c):
        return True

    def make(self, c):
        spec = {'files': []}
        t = c.get('nl', '\n').join(c['lines'])
        for k in ('buf', 'chunk'):
            if k in c:
                spec[k] = c[k]
        op = {'op': 'cli' if c.get('cli') else 'build', 'o': c['o'],
              'files': ['-']}
        if c['via'] == 'file':
            spec['files'].append({'path': 'd0.md', 'text': t})
            op['files'] = ['d0.md']
        else:
            op['stdin'] = t
            if 'cuts' in c:
                op['cuts'] = c['cuts']
            if c.get('cli') and len(t) % 2:
                op['files'] = []
        return spec, op

    def check(self, c, iso):
        base_spec, base_op = self.make({'lines': c['lines'], 'o': c['o'],
                                        'via': 'file'})
        base = iso(solo, base_spec, base_op, keep=True)
        spec, op = self.make(c)
        r = iso(faulted, spec, op,
                [{'at': a, 'kind': 'short', 'sel': s}
                 for a, s in c.get('shorts', ())])
        if base['stalled'] or r['stalled']:
            return []
        a, b = as_toc(base, base_op), as_toc(r, op)
        if a != b:
            return [viol('delivery', 'delivered as %s the TOC is %r, from a '
                         'plain file it is %r' %
                         ({k: v for k, v in c.items() if k not in
                           ('lines', 'o')}, b, a))]
        return []


class C07(Prop):
    id = 'C07'
    quick = (1400, 75)
    thorough = (40000, 1500)
    rule = ('one run = a history of edits, in-place runs and checks with '
            '--diff (CLI or API, 1-3 files), disturbed by short reads and '
            'writes and crashes; each verdict is compared with the one '
            'computed from the bytes on disk and the TOC the program builds '
            'for them; non-trivial = a verdict was given')
    per_family = {'quick': 3, 'thorough': 8}

    def gen(self, rng, n):
        marker = rng.choice(docs.MARKERS)
        spec = some_world(rng, rng.choice((1, 1, 2, 3)), marker=marker,
                          wild=rng.random() < .25, coherent=1,
                          sizes=(2, 4, 6, 10))
        o = docs.with_marker(docs.options(rng), marker)
        if o.get('skip_lines', 0) > 3:
            o['skip_lines'] = 1
        return {'world': spec, 'o': o, 'steps': []}

    def step(self, rng, files):
        r = rng.random()
        if r < .4:
            s = {'do': 'diff', 'in_place': rng.random() < .3}
        elif r < .5:
            s = {'do': 'run'}
        elif r < .62:
            s = {'do': 'equal'}
        elif r < .72:
            s = {'do': 'write'}
        else:
            return {'do': 'edit', 'edit': some_edit(rng) if rng.random() < .5
                    else block_edit(rng),
                    'file': rng.randrange(len(files))}
        s['files'] = sorted(rng.sample(range(len(files)),
                                       rng.randint(1, len(files))))
        if rng.random() < .2:
            s['faults'] = [{'at': rng.randint(1, 120), 'kind': rng.choice(
                ('short', 'short', 'err', 'kill', 'intr')),
                'sel': rng.randrange(1000)}
                for _ in range(rng.randint(1, 3))]
        return s

    def explore(self, family, rng, iso, tier):
        files = names(family['world'])
        allf = list(range(len(files)))
        yield dict(family, steps=[{'do': 'diff', 'files': allf},
                                  {'do': 'run', 'files': allf},
                                  {'do': 'diff', 'files': allf}])
        for _ in range(self.per_family[tier] - 1):
            steps = [self.step(rng, files) for _ in range(rng.randint(2, 7))]
            if rng.random() < .5:
                # a TOC that is almost the right one
                steps = [{'do': 'run', 'files': allf}]
                for f in allf:
                    for _ in range(rng.choice((0, 1, 1, 2))):
                        steps.append({'do': 'edit', 'edit': block_edit(rng),
                                      'file': f})
                for _ in range(rng.randint(1, 3)):
                    how = rng.choice(('diff', 'diff', 'equal', 'write'))
                    steps.append({'do': how, 'files': sorted(rng.sample(
                        allf, rng.randint(1, len(allf))))})
                    if how == 'diff' and rng.random() < .4:
                        steps[-1]['in_place'] = True
            yield dict(family, steps=steps)

    def valid(self, c):
        n = len(c['world']['files'])
        return n > 0 and all(
            max(s.get('files') or [s.get('file', 0)]) < n for s in c['steps'])

    def nontrivial(self, c):
        return any(s['do'] != 'edit' for s in c['steps'])

    def check(self, c, iso):
        h = iso(diff_history, c['world'], c['o'], c['steps'])
        out = []
        o = c['o']
        marker = o.get('marker', docs.MARKER)
        nl = o.get('newline', '\n')
        clean = {}  # file -> bytes right after a successful in-place run
        for n, e in enumerate(h):
            if e['stalled'] or e['died']:
                continue
            s = e['step']
            if s['do'] in ('run', ) and e['code'] == 128:
                out.append(viol('status', 'step %d: status 128 without --diff'
                                % n))
            if not e['ok']:
                if e['code'] == 128:
                    out.append(viol('status', 'step %d: failed, but status '
                                    '128' % n))
                continue
            if s['do'] == 'run' and e['code'] != 0:
                continue
            differ = False
            known = False
            for f, data in e['before']:
                b = iso(solo, {'files': [{'path': f, 'hex': data.hex()}]},
                        {'op': 'build', 'o': o, 'files': [f]}, keep=True)
                if not b['ok']:
                    differ = None
                    break
                try:
                    same = model.same_toc(data, b['value'], marker)
                except UnicodeDecodeError:
                    differ = None
                    break
                differ = differ or not same
                if data == clean.get(f) and not same and model.find_block(
                        data.decode(), marker)[0] != 'none':
                    v = viol('after-run', 'step %d: %s was just updated, but '
                             'its TOC differs' % (n, f), file=f,
                             data=data.hex())
                    out.append(v)
            if differ is not None and s['do'] != 'run':
                if e['verdict'] != differ:
                    out.append(viol(
                        'verdict', 'step %d (%s): the verdict is %s, but the '
                        'TOC block in the file %s the new TOC' %
                        (n, s['do'], 'different' if e['verdict'] else 'equal',
                         'differs from' if differ else 'is')))
            odd = [f for f, data in e['before']
                   if model.odd_block(data.decode('utf-8', 'replace'), marker)]
            for f, data in e['after']:
                if f not in odd and (s['do'] in ('run', 'write')
                                     or s.get('in_place')):
                    lines = model.lines_of(data.decode('utf-8', 'replace'))
                    block = model.find_block('\n'.join(lines), marker)
                    if block[1] is not None and o.get('skip_lines',
                                                      0) <= block[1]:
                        clean[f] = data
        return out

    def known(self, v, c):
        if v['kind'] != 'after-run':
            return None
        return unrecognised([{'hex': v['data']}], c['o'])

    def regressions(self):
        return [('KF1', {
            'world': {'files': [{'path': 'd0.md', 'lines': [
                '<!--TOC-->', '# ', '']}]},
            'o': {'parser': 'github', 'no_links': True},
            'steps': [{'do': 'run', 'files': [0]},
                      {'do': 'diff', 'files': [0]}]}),
            ('KF3', {
            'world': {'files': [{'path': 'd0.md', 'lines': [
                '<!--TOC-->', '## a', '']}]},
            'o': {'parser': 'redcarpet'},
            'steps': [{'do': 'run', 'files': [0]},
                      {'do': 'diff', 'files': [0]}]})]


def some_edit(rng, wild=False, marker=None):
    r = rng.random()
    if r < .3:
        return ['insert', rng.random(), [docs.heading(rng, rng.choice(
            (1, 1, 2, 2, 3)), wild)]]
    if r < .45:
        return ['insert', rng.random(), [docs.noise(rng, wild)]]
    if r < .55:
        return ['insert', rng.random(), docs.fence(rng, wild)]
    if r < .75:
        return ['delete', rng.random(), rng.randint(1, 3)]
    if r < .85:
        return ['delete-heading', rng.random()]
    if r < .93:
        return ['rename', rng.random(), docs.text(rng)]
    return ['newline', rng.choice(('\n', '\r\n', '\r'))]


NUDGES = ('swap', 'indent', 'case', 'double', 'drop', 'space', 'mark', 'tail',
          'trail', 'digit', 'reverse', 'blank', 'first', 'swapped-headings',
          'level', 'recased-heading')


def block_edit(rng):
    return ['block', rng.choice(NUDGES), rng.random(), rng.random()]


def nudge(lines, a, b, how, x, y):
    """A small change of the TOC block in lines a to b, or of headings."""
    if how in ('swapped-headings', 'level', 'recased-heading'):
        hs = [n for n, t in enumerate(lines) if t.startswith('#')
              and not a <= n <= b]
        if not hs:
            return
        i, j = hs[int(x * len(hs))], hs[int(y * len(hs))]
        if how == 'level':
            lines[i] = '#' + lines[i] if y < .5 else lines[i][1:]
        elif how == 'recased-heading':
            lines[i] = lines[i].swapcase()
        else:
            lines[i], lines[j] = lines[j], lines[i]
        return
    inner = [n for n in range(a + 1, b) if lines[n].strip()]
    if not inner:
        return
    i, j = inner[int(x * len(inner))], inner[int(y * len(inner))]
    t = lines[i]
    k = int(y * len(t))
    if how == 'swap':
        lines[i], lines[j] = lines[j], lines[i]
    elif how == 'indent':
        lines[i] = '  ' + t if y < .5 or t[0] != ' ' else t[1:]
    elif how == 'case':
        lines[i] = t[:k] + t[k].swapcase() + t[k + 1:]
    elif how == 'double':
        lines.insert(j, t)
    elif how == 'drop':
        del lines[i]
    elif how == 'space':
        lines[i] = t.replace(' ', '  ') if y < .5 else t.replace('[', ' [')
    elif how == 'mark':
        lines[i] = t.replace('- ', '* ') if '- ' in t else t.replace(
            '* ', '+ ')
    elif how == 'tail':
        lines[inner[-1]] += 'x'
    elif how == 'trail':
        lines[i] += ' ' if y < .7 else '\t'
    elif how == 'digit':
        lines[i] = t[:-1] + '-1)' if t.endswith(')') else t + '1'
    elif how == 'reverse':
        lines[inner[0]:inner[-1] + 1] = lines[inner[0]:inner[-1] + 1][::-1]
    elif how == 'blank':
        lines.insert(i, '')
    elif how == 'first':
        lines[inner[0]] = lines[inner[0]].replace('[', '[a', 1)


def edit(data, e, marker):
    """Apply an edit; the TOC block itself is touched by 'block' only."""
    t = data.decode('utf-8', 'surrogateescape')
    nl = '\r\n' if '\r\n' in t else '\r' if '\r' in t and '\n' not in t \
        else '\n'
    lines = model.universal(t).split('\n')
    if e[0] == 'newline':
        return e[1].join(lines).encode('utf-8', 'surrogateescape')
    kind, a, b, _ = model.find_block(t, marker)
    if e[0] == 'block':
        if kind == 'pair':
            nudge(lines, a, b, *e[1:])
        return nl.join(lines).encode('utf-8', 'surrogateescape')
    free = [n for n in range(len(lines))
            if kind == 'none' or not a <= n <= max(b, a)]
    if not free:
        return data
    if e[0] in ('delete-heading', 'rename'):
        free = [n for n in free if lines[n].startswith('#')] or free
    at = free[int(e[1] * len(free)) % len(free)]
    if e[0] == 'insert':
        lines[at:at] = e[2]
    elif e[0] == 'rename':
        if lines[at].startswith('#'):
            lines[at] = lines[at].split(' ')[0] + ' ' + e[2]
    else:
        k = e[2] if e[0] == 'delete' else 1
        gone = [n for n in range(at, at + k) if n in free]
        lines = [x for n, x in enumerate(lines) if n not in gone]
    return nl.join(lines).encode('utf-8', 'surrogateescape')


def diff_history(run, spec, o, steps):
    w = run.world(spec)
    ns = names(spec)
    marker = o.get('marker', docs.MARKER)
    out = []
    for s in steps:
        if s['do'] == 'edit':
            f = ns[s['file']]
            w.save(f, edit(w.peek(f), s['edit'], marker))
            continue
        files = [ns[i] for i in s['files']]
        before = [(f, w.peek(f)) for f in files]
        if s['do'] == 'diff':
            op = {'op': 'cli', 'o': o, 'files': files, 'diff': True,
                  'in_place': s.get('in_place', False)}
        elif s['do'] == 'run':
            op = {'op': 'cli', 'o': o, 'files': files, 'in_place': True}
        elif s['do'] == 'write':
            op = {'op': 'update', 'o': o, 'files': files}
        else:
            files, before = files[:1], before[:1]
            op = {'op': 'equal', 'o': o, 'files': files}
        r = perform(run, w, op, s.get('faults'))
        if r['died']:
            w.settle()
        w.lift()
        verdict = r['code'] == 128 if op['op'] == 'cli' else \
            r['value'] is False
        out.append({'step': s, 'before': before, 'ok': r['ok'],
                    'code': r['code'], 'died': r['died'],
                    'stalled': r['stalled'], 'verdict': verdict,
                    'after': [(f, w.peek(f)) for f in files]})
    return out


BAD = ('ff', 'fe', 'c3', 'c328', 'e28228', 'f0288cbc', '80', 'c0af', 'eda080',
       'f8888080', 'f4908080', 'e282', 'f09f', '00ff00', 'bf', '89504e470d0a1a')
NOTICE = '<!--stop reading %s: probably a binary file-->'


class C12(Prop):
    id = 'C12'
    quick = (4000, 75)
    thorough = (60000, 1500)
    rule = ('one run = one document (or standard input) that is not valid '
            'UTF-8 at a random position (inserted, overwritten, cut), read '
            'with random buffers and short reads: building prints nothing but '
            'the notice or fails, in place fails with status 1 and changes '
            'nothing; non-trivial = all runs')
    per_family = {'quick': 6, 'thorough': 14}

    def gen(self, rng, n):
        spec = some_world(rng, 1, wild=rng.random() < .2, coherent=1,
                          markers=rng.choice((1, 1, 1, 0)))
        f = spec['files'][0]
        if rng.random() < .15:
            # the damage lies beyond the first blocks
            f['lines'] = docs.body(rng, 260) + f['lines']
        return {'world': spec, 'o': docs.options(rng), 'pos': 0, 'bad': 'ff',
                'how': 'print'}

    def explore(self, family, rng, iso, tier):
        size = len(tobytes(family['world']['files'][0]))
        for _ in range(self.per_family[tier]):
            c = dict(family, bad=rng.choice(BAD),
                     pos=rng.choice((0, size, rng.randint(0, size),
                                     rng.randint(0, size))),
                     how=rng.choice(('print', 'print', 'stdin', 'build',
                                     'api-stdin', 'in-place', 'in-place',
                                     'update', 'diff')))
            if rng.random() < .3:
                c['over'] = rng.randint(1, 4)
            if rng.random() < .3:
                c['faults'] = [{'at': rng.randint(1, 60), 'kind': 'short',
                                'sel': rng.randrange(1000)}
                               for _ in range(rng.randint(1, 4))]
            if rng.random() < .6:
                c['cuts'] = [rng.choice((1, 2, 3, 7, 50))
                             for _ in range(rng.randint(1, 4))]
            yield c

    def valid(self, c):
        return len(c['world']['files']) == 1

    def check(self, c, iso):
        f = c['world']['files'][0]
        data = tobytes(f)
        p = min(c['pos'], len(data))
        data = data[:p] + bytes.fromhex(c['bad']) + data[p + c.get('over',
                                                                   0):]
        try:
            data.decode('utf-8')
            return []
        except UnicodeDecodeError:
            pass
        spec = dict(c['world'])
        spec['files'] = [{k: v for k, v in f.items() if k not in
                          ('lines', 'nl')}]
        spec['files'][0]['hex'] = data.hex()
        how, name = c['how'], f['path']
        op = {'o': c['o'], 'files': [name]}
        in_place = False
        if how in ('print', 'diff', 'in-place'):
            op['op'] = 'cli'
            in_place = op['in_place'] = how == 'in-place'
            op['diff'] = how == 'diff'
        elif how == 'update':
            op['op'] = 'update'
            in_place = True
        elif how == 'build':
            op['op'] = 'build'
        else:
            op['op'] = 'cli' if how == 'stdin' else 'build'
            op['files'] = ['-']
            name = '-'
            op['stdin'] = data.decode('utf-8', 'surrogateescape')
            if 'cuts' in c:
                op['cuts'] = c['cuts']
        r = iso(faulted, spec, op, c.get('faults'))
        if r['stalled']:
            return []
        out = []
        if r['files'][f['path']] != data:
            out.append(viol('changed', 'the damaged document was changed '
                            '(%s): %s' % (how, short(
                                r['files'][f['path']], 300))))
        if in_place:
            if r['ok'] or r['code'] != 1:
                out.append(viol('status', 'status %s after an in-place run '
                                'on a damaged document' % r['code']))
            return out
        if op['op'] == 'cli':
            # whatever is printed is the notice, also before an error
            shown = r['out'].decode('utf-8', 'replace')
            if shown.strip() not in ('', NOTICE % name):
                out.append(viol('entries', 'printed from a damaged document: '
                                '%r' % shown[:300]))
            if r['ok'] and not shown.strip():
                out.append(viol('silent', 'neither the notice nor an error'))
        elif r['ok'] and r['value'].strip() != NOTICE % name:
            out.append(viol('entries', 'built from a damaged document: %r' %
                            (r['value'], )))
        return out


class C13(Prop):
    id = 'C13'
    quick = (1700, 75)
    thorough = (60000, 1500)
    rule = ('one run = a history of edits, in-place and printing runs (CLI or '
            'API in one process) with crashes, errors and short transfers in '
            'between; each completed run is compared with the reference model '
            'of TOC and splice applied to the bytes on disk before it; '
            'non-trivial = at least one completed run')
    per_family = {'quick': 3, 'thorough': 8}

    def many(self, rng):
        """Several documents and option sets, one after another."""
        files = []
        for i in range(rng.randint(3, 10)):
            o = docs.options(rng)
            red = o['parser'] == 'redcarpet'
            f = {'path': 'd%d.md' % i, 'lines': docs.dense(
                rng, rng.choice((docs.SAME, docs.WORDS, docs.REDS)) if red else rng.choice(
                    (None, None, docs.PUNCT)))
                if rng.random() < .7 else docs.document(rng, vocabulary=None if
                                                        red else docs.RICH)}
            if rng.random() < .06:
                for _ in range(rng.randint(1, 2)):
                    f['lines'].insert(rng.randint(0, len(f['lines'])),
                                      docs.long_line(rng))
            if rng.random() < .05:
                # a long heading (a link has at most 999 characters)
                free = red or o.get('no_links')
                f['lines'].insert(rng.randint(0, len(f['lines'])),
                                  '# ' + ' '.join(
                    rng.choice(('alpha', 'x', 'Beta', '2'))
                    for _ in range(rng.choice((30, 60, 130, 160) + (
                        (260, 520, 1100) if free else ()))))
                    + rng.choice(('', '', ' #', ' ' * 1500 + '##')))
            if rng.random() < .2:
                f['lines'] = docs.dense(rng, docs.ODD)
                f['odd'] = True
            nl = docs.newline(rng)
            if nl != '\n':
                f['nl'] = nl
            if rng.random() < .6:
                o.pop('no_indentation', None)
                o['no_list_coherence'] = True
            f['o'] = o
            files.append(f)
        spec = docs.knobs(rng, {'files': files})
        return {'world': spec, 'many': True,
                'api': rng.random() < .8}

    def gen(self, rng, n):
        if n % 2:
            return self.many(rng)
        marker = rng.choice(docs.MARKERS)
        size = rng.choice((3, 5, 8, 12, 20, 20, 40, 90))
        kind = rng.choice((None, 'single', 'pair', 'pair', 'empty', 'blank',
                           'ordered', 'indented'))
        o = docs.with_marker(docs.options(rng), marker)
        rich = o['parser'] != 'redcarpet' and rng.random() < .5
        spec = {'files': [{
            'path': 'd0.md',
            'lines': docs.document(rng, size=size, marker=marker,
                                   markers=rng.choice((1, 1, 1, 1, 0, 2)),
                                   kind=kind, coherent=.9,
                                   vocabulary=docs.RICH if rich else rng.choice(
                                       (None, docs.SAME) if o['parser'] !=
                                       'redcarpet' else (None, docs.REDS)))
        }]}
        nl = docs.newline(rng)
        if nl != '\n':
            spec['files'][0]['nl'] = nl
        docs.knobs(rng, spec)
        return {'world': spec, 'o': o, 'steps': [{'do': 'run'}],
                'api': rng.random() < .35}

    def options(self, rng, o):
        # redcarpet's anchors are modelled for words and punctuation only
        new = docs.options(rng)
        if (new['parser'] == 'redcarpet') != (o['parser'] == 'redcarpet'):
            new['parser'] = o['parser']
            if new.get('ordered') == ')':
                del new['ordered']
        return docs.with_marker(new, o.get('marker', docs.MARKER))

    def step(self, rng, o):
        r = rng.random()
        if r < .45:
            return {'do': 'edit', 'edit': some_edit(rng)}
        s = {'do': 'run' if r < .8 else 'print'}
        if rng.random() < .3:
            s['o'] = self.options(rng, o)
        if rng.random() < .3:
            s['faults'] = [{'at': rng.randint(1, 150), 'kind': rng.choice(
                ('short', 'err', 'kill', 'intr', 'power', 'full')),
                'sel': rng.randrange(1000)}
                for _ in range(rng.randint(1, 2))]
        return s

    def explore(self, family, rng, iso, tier):
        yield family
        if 'many' in family:
            for _ in range(self.per_family[tier] - 1):
                yield self.many(rng)
            return
        for _ in range(self.per_family[tier] - 1):
            yield dict(family, steps=[
                self.step(rng, family['o']) for _ in range(rng.randint(3, 8))
            ] + [{'do': 'run'}])

    def valid(self, c):
        if 'many' in c:
            return bool(c['world']['files'])
        return len(c['world']['files']) == 1

    def check(self, c, iso):
        if 'many' in c:
            h = iso(build_each, c['world'], c['api'])
        else:
            h = iso(edit_history, c['world'], c['o'], c['steps'],
                    c.get('api', False))
        out = []
        for e in h:
            if e['stalled'] or e['died']:
                continue
            o, before = e['o'], e['before']
            marker = o.get('marker', docs.MARKER)
            try:
                want = model.toc(before.decode('utf-8'), o)
            except model.Rejected as x:
                if e['ok']:
                    out.append(viol('not-rejected', 'step %d: the document '
                                    'has to be rejected (%s)' % (e['n'], x)))
                if e['after'] != before:
                    out.append(viol('rejected-changed', 'step %d: rejected, '
                                    'but changed' % e['n']))
                continue
            if not e['ok']:
                if not e['fired']:
                    out.append(viol('fails', 'step %d fails: %s' %
                                    (e['n'], e['err'])))
                continue
            if e['do'] == 'print':
                if e['toc'] != want and not (
                        e.get('odd') and bare(e['toc']) == bare(want)):
                    out.append(viol('toc', 'step %d: TOC %r instead of %r' %
                                    (e['n'], e['toc'], want)))
                want_after = before
            else:
                want_after = model.splice(before, want, marker,
                                          o.get('newline', '\n'))
            if e['after'] != want_after:
                out.append(viol(
                    'document', 'step %d: %s instead of %s' %
                    (e['n'], short(e['after'], 600), short(want_after, 600))))
        return out


def bare(toc):
    """The TOC without the targets of its links."""
    return [x.rsplit('](#', 1)[0] for x in model.universal(toc).split('\n')]


def build_each(run, spec, api):
    w = run.world(spec)
    if api:
        w.begin()
    out = []
    for n, f in enumerate(spec['files']):
        name, o = f['path'], f['o']
        before = w.peek(name)
        op = {'op': 'build' if api else 'cli', 'o': o, 'files': [name]}
        r = perform(run, w, op, None, new=not api)
        out.append({
            'n': n, 'do': 'print', 'o': o, 'before': before, 'ok': r['ok'],
            'died': r['died'], 'stalled': r['stalled'], 'err': r['err'],
            'fired': [], 'toc': as_toc(r, op)[-1], 'after': w.peek(name),
            'odd': f.get('odd')
        })
        if r['stalled']:
            break
    return out


def edit_history(run, spec, o, steps, api):
    w = run.world(spec)
    name = names(spec)[0]
    out = []
    if api:
        w.begin()
    for n, s in enumerate(steps):
        if s['do'] == 'edit':
            w.save(name, edit(w.peek(name), s['edit'],
                              o.get('marker', docs.MARKER)))
            continue
        oo = s.get('o', o)
        before = w.peek(name)
        if api:
            op = {'op': 'update' if s['do'] == 'run' else 'build', 'o': oo,
                  'files': [name]}
        else:
            op = {'op': 'cli', 'o': oo, 'files': [name],
                  'in_place': s['do'] == 'run'}
        r = perform(run, w, op, s.get('faults'), new=not api)
        if r['stalled']:
            out.append({'stalled': True, 'died': False})
            return out
        if r['died']:
            w.settle()
            if api:
                w.begin()
        w.lift()
        out.append({
            'n': n, 'do': s['do'], 'o': oo, 'before': before, 'ok': r['ok'],
            'died': r['died'], 'stalled': False, 'err': r['err'],
            'fired': [x for x in r['fired'] if not x.startswith('short')],
            'toc': as_toc(r, op)[-1], 'after': w.peek(name)
        })
    return out

"""C09, C10, C11, C14, C15: schedules, histories, bounds."""
import json
import os
import random
import subprocess

from . import docs, engine, model, world
from .base import (Prop, api_op, doc_bytes, names, one_fault, perform,
                   plans, short, solo, some_op, some_world, viol)
from .props_disk import faulted, text
from .world import tobytes


def outcome(r):
    """What the caller of one operation sees."""
    return ['value', r['value']] if r['ok'] else ['raised', r.get('exc')]


CALLS = ('get_md_header', 'remove_emphasis', 'remove_html_tags',
         'is_opening_code_fence', 'is_closing_code_fence', 'get_atx_heading',
         'anchor', 'tocs_equal', 'indent', 'line')


def low_level(rng, files):
    """A call of one of the smaller functions of the API."""
    p = rng.choice(docs.PARSERS)
    k = rng.choice(CALLS)
    line = docs.heading(rng, rng.randint(1, 6), True)
    if k == 'get_md_header':
        a = [line, {}, rng.randint(1, 6), p, rng.random() < .3]
    elif k == 'remove_emphasis':
        a = [docs.raw_text(rng), p]
    elif k == 'remove_html_tags':
        a = [docs.raw_text(rng), p]
    elif k == 'is_opening_code_fence':
        a = [docs.fence(rng)[0], p]
    elif k == 'is_closing_code_fence':
        a = [docs.fence(rng)[0], rng.choice(('```', '~~~~')),
             rng.random() < .5, p]
    elif k == 'get_atx_heading':
        a = [line, rng.randint(1, 6), p]
    elif k == 'anchor':
        k, a = 'build_anchor_link', [docs.raw_text(rng), {}, p]
    elif k == 'tocs_equal':
        a = ['- [a](#a)\n', rng.choice(files), docs.MARKER]
    elif k == 'indent':
        k, a = 'init_indentation_log', [p, '-']
    else:
        k = 'build_toc_line_without_indentation'
        a = [{'header_type': rng.randint(1, 6), 'text_original': 'x y',
              'text_anchor_link': 'x-y', 'visible': True},
             rng.random() < .5, rng.random() < .5, rng.randint(1, 12), p, '-']
        a[5] = '.' if a[1] else '-'
    return {'op': 'call', 'fn': k, 'args': a}


def some_api_op(rng, mine, marker=docs.MARKER):
    """An API operation that writes only documents of `mine`."""
    r = rng.random()
    o = docs.with_marker(docs.options(rng), marker)
    if r < .35:
        return {'op': 'build', 'o': o, 'files': [rng.choice(mine)]}
    if r < .45:
        k = rng.randint(1, len(mine))
        return {'op': 'build', 'o': o, 'files': mine[:k], 'multi': True}
    if r < .7:
        return {'op': 'update', 'o': o, 'files': [rng.choice(mine)]}
    if r < .8:
        return {'op': 'equal', 'o': o, 'files': [rng.choice(mine)]}
    if r < .9:
        return {'op': 'write', 'files': [rng.choice(mine)],
                'toc': '- [%s](#x)\n' % docs.text(rng),
                'newline': docs.newline(rng), 'marker': marker}
    return low_level(rng, mine)


def fresh(f, o):
    """Brings the TOC of a document up to date (as the model has it)."""
    try:
        data = tobytes(f)
        new = model.splice(data, model.toc(data.decode(), o), o.get(
            'marker', docs.MARKER))
        f['lines'] = new.decode().split('\n')[:-1] or ['']
    except (model.Rejected, UnicodeDecodeError, KeyError):
        pass


SWAP = str.maketrans('aeghil', 'eaghli')


# -- C09 --------------------------------------------------------------------------


def plain_result(r):
    return {'out': outcome(r), 'died': r['died'], 'stalled': r['stalled']}


def run_alone(run, spec, ops, mine):
    w = run.world(spec)
    w.begin()
    rs = [plain_result(api_op(w, op)) for op in ops]
    w.end()
    return {'results': rs, 'files': doc_bytes(w, mine)}


def run_threads(run, spec, threads, switches, faults, places=False):
    """All threads in one process; `switches` decides who runs."""
    w = run.world(spec)
    w.begin()
    w.arm(faults)

    def body(ops):

        def go():
            out = []
            for op in ops:
                out.append(plain_result(api_op(w, op)))
            return out

        return go

    s = world.Sched(w, [body(t['ops']) for t in threads],
                    {a: b for a, b in switches}, limit=3_000_000)
    if places:
        s.places = {}
    w.sched = s
    w.enter()
    world.watch_lines(True)
    try:
        results = s.run()
    finally:
        world.watch_lines(False)
        w.leave()
    bad = [repr(r) for r in results if isinstance(r, BaseException)]
    run.schedules.append(s.order.hexdigest()[:16])
    run.probe('switches taken', len(s.taken))
    struck = sorted(w.struck)
    run.fired.extend(w.fired)
    stalled = bad or any(x['stalled'] for r in results
                         if isinstance(r, list) for x in r)
    if stalled:
        run.stalls += 1
    return {
        'results': results if not bad else None,
        'bad': bad,
        'stalled': bool(stalled),
        'struck': struck,
        'files': doc_bytes(w, names(spec)),
        'steps': s.step,
        'taken': s.taken,
        'places': list((s.places or {}).values()),
        'hot': [x for (_, k), x in (s.places or {}).items()
                if k in world.hot_lines()],
    }


def some_switches(rng, steps, n, places=(), hot=()):
    """A schedule: few well placed switches, or many."""
    if places and rng.random() < .4:
        # at places of the code, however often they are passed
        if hot and rng.random() < .5:
            places = hot
        at = sorted({rng.choice(rng.choice(places))
                     for _ in range(rng.choice((1, 1, 2, 3, 6)))})
        if rng.random() < .3:
            # and back soon
            at = sorted(set(at) | {x + int(2**rng.uniform(0, 9))
                                   for x in at})
        return [[x, rng.randrange(n)] for x in at]
    r = rng.random()
    if r < .4:
        k = rng.randint(1, 4)
    elif r < .7:
        k = rng.randint(5, 30)
    else:
        k = rng.randint(30, 400)
    at = sorted({rng.randint(1, max(1, steps)) for _ in range(k)})
    if r > .9:  # strictly alternating for a while
        a = rng.randint(1, max(1, steps))
        at = list(range(a, a + rng.randint(20, 600), rng.choice((1, 2, 3))))
        return [[x, i % n] for i, x in enumerate(at)]
    return [[x, rng.randrange(n)] for x in at]


class C09(Prop):
    id = 'C09'
    quick = (550, 75)
    thorough = (20000, 1500)
    rule = ('one run = 2-4 threads of one process, each doing 1-3 API calls '
            'on its own documents, under one explicit schedule with switches '
            'at source lines and system calls; results and documents are '
            'compared with each thread run alone; threads hit by an injected '
            'error are not compared, the others are; non-trivial = at least '
            'one switch')
    per_family = {'quick': 10, 'thorough': 40}

    def gen(self, rng, n):
        k = rng.choice((2, 2, 2, 3, 4))
        spec = {'files': []}
        threads = []
        place = rng.choice(('t%d-%d.md', 't%d-%d.md', 'p%d/%d.md',
                            '/w/q%d/%d.md', 'p%d/s/%d.md'))
        alike = rng.random() < .15  # all threads compare first
        for t in range(k):
            mine = []
            marker = rng.choice(docs.MARKERS)
            for i in range(rng.choice((1, 1, 2))):
                name = place % (t, i)
                lines = docs.document(
                    rng, size=rng.choice((2, 4, 8)), wild=rng.random() < .2,
                    coherent=.9, marker=marker,
                    vocabulary=rng.choice((None, docs.SAME, docs.RICH)))
                if rng.random() < .2:
                    lines[0:0] = ['# ' + docs.ticks(rng)
                                  for _ in range(rng.randint(1, 2))]
                spec['files'].append({'path': name, 'lines': lines})
                if rng.random() < .05:
                    spec['files'][-1]['lines'] += ['\udcff']
                mine.append(name)
            ops = [some_api_op(rng, mine, marker)
                   for _ in range(rng.randint(1, 3))]
            if alike or rng.random() < .3:
                # nothing differs
                o = docs.with_marker(docs.options(rng), marker)
                f = rng.choice([f for f in spec['files']
                                if f['path'] in mine])
                fresh(f, o)
                ops.insert(0, {'op': 'equal', 'o': o, 'files': [f['path']]})
                if alike:
                    ops = ops[:1]
                elif rng.random() < .5:
                    ops.insert(0, {'op': 'update', 'o': o,
                                   'files': [f['path']]})
            threads.append({'mine': mine, 'ops': ops})
        docs.knobs(rng, spec)
        return {'world': spec, 'threads': threads, 'switches': [],
                'faults': []}

    def explore(self, family, rng, iso, tier):
        base = iso(run_threads, family['world'], family['threads'], [], [],
                   True)
        for _ in range(self.per_family[tier]):
            c = dict(family, switches=some_switches(
                rng, base['steps'], len(family['threads']),
                base['places'], base['hot']))
            if rng.random() < .25:
                c['faults'] = [{'at': rng.randint(1, 200), 'kind': rng.choice(
                    ('err', 'short', 'intr', 'nomem')),
                    'sel': rng.randrange(1000)}
                    for _ in range(rng.randint(1, 2))]
            yield c

    def valid(self, c):
        have = names(c['world'])
        return len(c['threads']) > 0 and all(
            f in have for t in c['threads'] for f in t['mine']) and all(
                t['ops'] for t in c['threads'])

    def nontrivial(self, c):
        return bool(c['switches'])

    def check(self, c, iso):
        alone = [
            iso(run_alone, c['world'], t['ops'], t['mine'], keep=True)
            for t in c['threads']
        ]
        if any(x['stalled'] for a in alone for x in a['results']):
            return []
        r = iso(run_threads, c['world'], c['threads'], c['switches'],
                c['faults'])
        out = []
        if r['stalled']:
            out.append(viol('stuck', 'the threads do not finish: %s' %
                            (r['bad'] or 'too many steps')))
            return out
        for i, t in enumerate(c['threads']):
            if i in r['struck']:
                continue
            for n, (a, b) in enumerate(zip(alone[i]['results'],
                                           r['results'][i])):
                if a['out'] != b['out']:
                    out.append(viol(
                        'result', 'thread %d, call %d (%s): %r, alone %r' %
                        (i, n, t['ops'][n]['op'], b['out'], a['out'])))
            for f in t['mine']:
                if r['files'][f] != alone[i]['files'][f]:
                    out.append(viol(
                        'document', 'thread %d: %s holds %s, alone %s' %
                        (i, f, short(r['files'][f], 300),
                         short(alone[i]['files'][f], 300))))
        return out


# -- C10 --------------------------------------------------------------------------


def with_saves(run, spec, op, saves, versions, faults):
    """One operation while another program saves versions of the document."""
    w = run.world(spec)
    name = names(spec)[0]
    state = {'n': 0, 'todo': sorted([list(x) for x in saves])}
    seen = []
    last = [-1]

    def before(kind, path, n):
        state['n'] += 1
        b = w.peek(name)
        if w.vfs.mutations != last[0]:
            if not seen or seen[-1] != ('doc', b):
                seen.append(('doc', b))
        while state['todo'] and state['n'] >= state['todo'][0][0]:
            i = state['todo'].pop(0)[1]
            w.save(name, tobytes(versions[i]))
            seen.append(('save', i))
            seen.append(('doc', w.peek(name)))
            run.probe('saves by others')
        last[0] = w.vfs.mutations

    w.observers.append(before)
    r = perform(run, w, op, faults)
    w.observers.clear()
    seen.append(('doc', w.peek(name)))
    r['seen'] = seen
    r['final'] = w.peek(name)
    r['gates'] = state['n']
    return r


class C10(Prop):
    id = 'C10'
    quick = (1300, 75)
    thorough = (20000, 1500)
    rule = ('one run = one operation (build, compare, write, in-place run '
            'through API or CLI) while other programs atomically save 1-3 '
            'versions of the document at chosen system calls, or two in-place '
            'writers on one document under an explicit schedule; results and '
            'every visible state are compared with what single versions give; '
            'non-trivial = a save or a switch happened')
    per_family = {'quick': 10, 'thorough': 30}

    def version(self, rng, base, marker):
        r = rng.random()
        if r < .15:
            # what follows is code, or was
            lines = list(base)
            k = rng.randint(0, len(lines))
            lines[k:k] = [rng.choice(('```', '~~~')) for _ in range(
                rng.choice((1, 1, 2)))]
            return lines + docs.dense(rng, None, rng.choice((3, 6)))
        if r < .35:
            return docs.document(rng, size=rng.choice((1, 3, 6)),
                                 marker=marker, markers=1, coherent=1)
        lines = list(base)
        k = rng.randint(0, len(lines))
        if r < .6:
            lines[k:k] = [docs.heading(rng, rng.choice((1, 2)))]
        elif r < .75:
            lines[k:k] = docs.toc_block(rng, marker)
        elif r < .9:
            del lines[k:k + rng.randint(1, 4)]
        else:
            lines = docs.body(rng, 5) + lines
        return lines

    def gen(self, rng, n):
        marker = docs.MARKER
        base = docs.document(rng, size=rng.choice((2, 4, 7)), marker=marker,
                             markers=1, coherent=1)
        spec = {'files': [{'path': 'd0.md', 'lines': base}]}
        docs.knobs(rng, spec)
        o = docs.options(rng)
        o['no_list_coherence'] = True
        o.pop('no_indentation', None)
        o.pop('skip_lines', None)
        if rng.random() < .3:
            o2 = docs.options(rng)
            o2['no_list_coherence'] = True
            o2.pop('no_indentation', None)
            o2.pop('skip_lines', None)
            if rng.random() < .4:
                o2 = dict(o)
            if o.get('no_links') or o2.get('no_links'):
                o.pop('no_links', None)
                o2.pop('no_links', None)
            return {'world': spec, 'writers': [
                {'op': 'update', 'o': o, 'files': ['d0.md']},
                {'op': 'update', 'o': o2, 'files': ['d0.md']}],
                'switches': []}
        kind = rng.choice(('build', 'compare', 'compare', 'write', 'write',
                           'update', 'cli', 'print'))
        if kind in ('build', 'print') and rng.random() < .5:
            o['skip_lines'] = rng.randint(1, 4)
        if kind == 'compare':
            op = {'op': 'compare', 'toc': '', 'files': ['d0.md']}
        elif kind == 'write':
            op = {'op': 'write', 'files': ['d0.md'], 'toc':
                  '- [%s](#x)\n' % docs.text(rng), 'newline':
                  docs.newline(rng)}
        elif kind in ('cli', 'print'):
            op = {'op': 'cli', 'o': o, 'files': ['d0.md'],
                  'in_place': kind == 'cli'}
        else:
            op = {'op': kind, 'o': o, 'files': ['d0.md']}
        vs = []
        for _ in range(rng.randint(1, 3)):
            v = {'lines': self.version(rng, base, marker)}
            nl = docs.newline(rng)
            if nl != '\n':
                v['nl'] = nl
            vs.append(v)
        if kind == 'compare':
            # a comparison with the TOC block of one of the versions
            t = text(rng.choice(vs + spec['files']))
            op['toc'] = rng.choice((
                model.find_block(t, marker)[3], '- [old](#old)\n', ''))
        return {'world': spec, 'op': op, 'versions': vs, 'saves': []}

    def explore(self, family, rng, iso, tier):
        if 'writers' in family:
            threads = [{'ops': [op]} for op in family['writers']]
            base = iso(run_threads, family['world'], threads, [], [], True)
            for _ in range(self.per_family[tier]):
                yield dict(family, switches=some_switches(
                    rng, base['steps'], len(threads), base['places'],
                    base['hot']))
            return
        base = iso(with_saves, family['world'], family['op'], [],
                   family['versions'], None)
        for _ in range(self.per_family[tier]):
            k = rng.randint(1, 3)
            at = sorted(rng.randint(1, base['gates']) for _ in range(k))
            if rng.random() < .3:
                a = rng.randint(1, base['gates'])
                at = [a + i * rng.randint(0, 3) for i in range(k)]
            yield dict(family, saves=[
                [a, rng.randrange(len(family['versions']))] for a in at
            ])

    def valid(self, c):
        return len(c['world']['files']) == 1 and ('writers' in c or all(
            v < len(c['versions']) for _, v in c['saves']))

    def nontrivial(self, c):
        return bool(c.get('saves') or c.get('switches'))

    def on(self, iso, f, op):
        """The operation on one version, undisturbed."""
        return iso(solo, {'files': [dict(f, path='d0.md')]}, op, keep=True)

    def check(self, c, iso):
        if 'writers' in c:
            return self.check_writers(c, iso)
        op = c['op']
        r = iso(with_saves, c['world'], op, c['saves'], c['versions'], None)
        if r['stalled']:
            return []
        order = [x[1] for x in r['seen'] if x[0] == 'save']
        files = [dict(c['world']['files'][0])] + [c['versions'][i]
                                                  for i in order]
        files = [{k: v for k, v in f.items() if k in ('lines', 'nl', 'hex',
                                                      'text')}
                 for f in files]
        out = []
        kind = op['op']
        in_place = kind in ('write', 'update') or op.get('in_place')
        if not in_place:
            ok = [self.on(iso, f, op) for f in files]
            if kind == 'cli':
                got = [r['code'], r['out']]
                want = [[x['code'], x['out']] for x in ok]
            else:
                got, want = outcome(r), [outcome(x) for x in ok]
            if got not in want:
                out.append(viol(
                    'mixed', '%s gives %r, which is not the result for any '
                    'version: %r' % (kind, got, want)))
            allowed = []
        else:
            allowed = []
            if kind == 'write':
                for f in files:
                    x = self.on(iso, f, op)
                    if x['ok']:
                        allowed.append(x['files']['d0.md'])
            else:
                o = op['o']
                for i, f in enumerate(files):
                    t = self.on(iso, f, {'op': 'build', 'o': o, 'files':
                                         ['d0.md']})
                    if not t['ok']:
                        continue
                    for g in files[i:]:
                        x = self.on(iso, g, {
                            'op': 'write', 'toc': t['value'], 'files':
                            ['d0.md'], 'newline': o.get('newline', '\n')})
                        if x['ok']:
                            allowed.append(x['files']['d0.md'])
        if kind == 'cli' and not r['ok'] and not r['fired']:
            if all(self.on(iso, f, op)['ok'] for f in files):
                out.append(viol('fails', 'fails although it succeeds on '
                                'every version: %s' % r['err']))
        saved = [tobytes(files[0])]
        for what, x in r['seen']:
            if what == 'save':
                saved.append(tobytes(c['versions'][x]))
            elif x != saved[-1] and x not in allowed:
                out.append(viol(
                    'mixed-document', 'the document holds %s, which is '
                    'neither the last saved version nor an update of a saved '
                    'one' % short(x, 400)))
                break
        return out

    def check_writers(self, c, iso):
        spec = c['world']
        threads = [{'ops': [op]} for op in c['writers']]
        r = iso(run_threads, spec, threads, c['switches'], [])
        if r['stalled']:
            return [viol('stuck', 'the writers do not finish')]
        old = dict(spec['files'][0])
        tocs = []
        for op in c['writers']:
            t = iso(solo, spec, dict(op, op='build'), keep=True)
            if not t['ok']:
                return []
            tocs.append((t['value'], op['o'].get('newline', '\n')))

        def write(f, t):
            x = self.on(iso, f, {'op': 'write', 'toc': t[0], 'newline': t[1],
                                 'files': ['d0.md']})
            return {'hex': x['files']['d0.md'].hex()}

        allowed = []
        for t in tocs:
            a = write(old, t)
            allowed.append(a)
            for u in tocs:
                allowed.append(write(a, u))
        got = r['files']['d0.md']
        if got not in [tobytes(a) for a in allowed] and len(tocs) > 1:
            return [viol('mixed-writers', 'two in-place runs leave %s' %
                         short(got, 400))]
        return []


# -- C11 --------------------------------------------------------------------------


def after_history(run, spec, history, target, clean):
    w = run.world(spec)
    w.begin(target.get('stdin', '').encode('utf-8', 'surrogateescape'),
            target.get('cuts'))
    if any('line' in f for h in history for f in h.get('faults') or ()):
        world.watch_lines(True)
    fired = []
    for h in history:
        if 'put' in h:
            # somebody replaces a document
            w.save(h['put'][0], tobytes({'lines': h['put'][1]}))
            w.stamp(h['put'][0])
            continue
        if 'stdin' in h['op']:
            w.feed(h['op']['stdin'])
        r = perform(run, w, h['op'], h.get('faults'), new=False)
        fired += r['fired']
        if r['stalled'] or r['died'] or 'stdin' in h['op'] and not r['ok']:
            world.watch_lines(False)
            return {'skip': True}
        w.lift()
    world.watch_lines(False)
    if 'stdin' in target:
        w.feed(target['stdin'], target.get('cuts'))
    # the documents of the target as they were
    for f in clean:
        w.vfs.save(w.path(f['path']), tobytes(f))
        w.stamp(f['path'])
    r = perform(run, w, target, None, new=False)
    return {'skip': bool(r['stalled']), 'out': outcome(r), 'fired': fired,
            'files': doc_bytes(w, [f['path'] for f in clean]),
            'printed': bytes(w.out)}


class C11(Prop):
    id = 'C11'
    quick = (1300, 75)
    thorough = (30000, 1500)
    rule = ('one run = a history of 1-8 API calls in one process (some fail, '
            'some are hit by I/O errors or interrupted at a source line), '
            'then a target call; its result, output and document are compared '
            'with the same call in a new process with another clock, process '
            'id and temporary names; non-trivial = non-empty history')
    per_family = {'quick': 7, 'thorough': 20}

    def gen(self, rng, n):
        spec = {'files': []}
        where = rng.choice(('', '', '', '/s', '/s/t'))
        voc = rng.choice((None, docs.SAME, docs.RICH, docs.PUNCT))
        marker = rng.choice(docs.MARKERS)
        for i in range(rng.randint(1, 2)):
            spec['files'].append({
                'path': 'd%s%d.md' % (where, i),
                'lines': docs.document(rng, size=rng.choice((3, 6, 10)),
                                       wild=rng.random() < .3, coherent=.9,
                                       vocabulary=voc, marker=marker)
            })
            if rng.random() < .3:
                spec['files'][-1]['lines'] = docs.dense(
                    rng, voc, rng.choice((4, 9, 20)))
        mine = names(spec)
        for i in range(2):
            f = {'path': 'h%s%d.md' % (where, i),
                 'lines': docs.document(rng, size=rng.choice((2, 5, 9)),
                                        wild=rng.random() < .4, coherent=.7,
                                        vocabulary=voc)}
            if rng.random() < .1:
                f['lines'] += ['\udcff']
            spec['files'].append(f)
        docs.knobs(rng, spec)
        target = some_api_op(rng, mine, marker)
        if target['op'] in ('equal', 'update') and rng.random() < .6:
            fresh(next(f for f in spec['files']
                       if f['path'] == target['files'][0]), target['o'])
        if target['op'] == 'build' and rng.random() < .15:
            target['files'] = ['-']
            target.pop('multi', None)
            target['stdin'] = '\n'.join(spec['files'][0]['lines'])
            target['o'].pop('no_indentation', None)
            target['o']['no_list_coherence'] = True
        return {'world': spec, 'history': [], 'target': target}

    def valid(self, c):
        have = names(c['world'])
        return all(f in have or f == '-' for x in [c['target']] +
                   [h['op'] for h in c['history'] if 'op' in h]
                   for f in x.get('files', ()))

    def nontrivial(self, c):
        return bool(c['history'])

    def some(self, rng, family):
        have = names(family['world'])
        mine = [n for n in have if n[0] == 'd']
        other = [n for n in have if n[0] == 'h']
        r = rng.random()
        if r < .08:
            f = rng.choice(family['world']['files'])
            lines = [x.replace('a', 'b') if rng.random() < .5 else x
                     for x in f['lines']]
            if rng.random() < .3:
                rng.shuffle(lines)
            return {'put': [f['path'], lines]}
        r = rng.random()
        if r < .15 and 'stdin' in family['target']:
            # the standard input was read to its end before
            return {'op': dict(family['target'], stdin='\n'.join(
                docs.document(rng, size=rng.choice((0, 1, 4)))))}
        if r < .2 and family['target']['files' if 'files' in family['target']
                                       else 'op'] != ['-']:
            op = json.loads(json.dumps(family['target']))
        elif r < .5:
            op = some_api_op(rng, mine, rng.choice(docs.MARKERS))
            if rng.random() < .4 and 'o' in op and 'o' in family['target']:
                op['o'] = dict(op['o'], parser=family['target']['o']['parser'])
            elif rng.random() < .5 and 'o' in op and 'o' in family['target']:
                # one option differs from the target's
                o = dict(family['target']['o'])
                k = rng.choice(sorted(op['o']))
                o[k] = op['o'][k]
                if o['parser'] == 'redcarpet' and o.get('ordered') == ')':
                    o['ordered'] = '.'
                op['o'] = o
        else:
            op = some_api_op(rng, other)
        h = {'op': op}
        r = rng.random()
        if r < .25:
            h['faults'] = [{'at': int(2**rng.uniform(0, 8)), 'kind': rng.choice(
                ('err', 'err', 'intr', 'nomem', 'full', 'emfile', 'short',
                 'jump')),
                'sel': rng.randrange(1000)}]
        elif r < .45:
            h['faults'] = [{'line': int(2**rng.uniform(0, 12)),
                            'kind': rng.choice(('intr', 'intr', 'nomem')),
                            'sel': 0}]
        return h

    def variants(self, rng, target):
        """The target call, with other options."""
        out = []
        for p in rng.sample(docs.PARSERS, 3):
            out.append({'op': dict(target, o=dict(target['o'], parser=p))})
        for _ in range(2):
            out.append({'op': dict(target, o=docs.options(
                rng, target['o']['parser']))})
        for h in out:
            o = h['op']['o']
            if o['parser'] == 'redcarpet' and o.get('ordered') == ')':
                o['ordered'] = '.'
        rng.shuffle(out)
        return out

    def explore(self, family, rng, iso, tier):
        t = family['target']
        if 'o' in t and t['files'] != ['-']:
            yield dict(family, history=self.variants(rng, t))
        for _ in range(self.per_family[tier]):
            c = dict(family, history=[
                self.some(rng, family) for _ in range(rng.randint(1, 8))
            ])
            if rng.random() < .15 and t.get('files', ['-']) != ['-']:
                # it was damaged, or quite another text, when last seen
                f = next(f for f in family['world']['files']
                         if f['path'] == t['files'][0])
                lines = list(f['lines'])
                if rng.random() < .3:
                    # of the same length
                    lines = [x.translate(SWAP) if x[:2] in ('- ', '1.')
                             or rng.random() < .5 else x for x in lines]
                elif rng.random() < .6:
                    k = rng.randint(0, len(lines))
                    lines[k:k] = ['\udcff']
                else:
                    lines = docs.document(rng)
                c['history'] += [{'put': [f['path'], lines]}, {'op': t}]
            c['world'] = dict(family['world'], clock=rng.randrange(10**7),
                              pid=rng.randrange(9999),
                              entropy=rng.randrange(10**6))
            yield c

    def check(self, c, iso):
        if 'hash_seed' in c:
            return self.check_hash(c)
        spec = {k: v for k, v in c['world'].items()
                if k not in ('clock', 'pid', 'entropy')}
        clean = [f for f in c['world']['files'] if f['path'][0] == 'd']
        base = iso(after_history, spec, [], c['target'], clean, keep=True)
        if base['skip']:
            return []
        r = iso(after_history, c['world'], c['history'], c['target'], clean)
        if r['skip']:
            return []
        out = []
        for k, what in (('out', 'gives'), ('files', 'leaves'),
                        ('printed', 'prints')):
            if r[k] != base[k]:
                out.append(viol(
                    'history-' + k, 'after the history (%s) the call %s %r, '
                    'in a new process %r' %
                    (r['fired'], what, r[k], base[k])))
        return out

    def extra(self, seed, tier, res):
        """The same calls in interpreters with other hash seeds."""
        rng = random.Random(seed)
        cases = []
        for n in range(60 if tier == 'quick' else 1500):
            family = self.gen(rng, n)
            cases.append(dict(family, hash_seed=rng.choice(
                ('1', '7', '271828', '4294967295'))))
        base = elsewhere('0', cases)
        for hs in ('1', '7', '271828', '4294967295'):
            these = [n for n, c in enumerate(cases) if c['hash_seed'] == hs]
            got = elsewhere(hs, [cases[n] for n in these])
            for n, x in zip(these, got):
                if x != base[n]:
                    return [(hash_violation(cases[n], x, base[n]), cases[n])]
        res['extra'] = {'hash seeds': 5, 'calls per hash seed comparison':
                        len(cases)}
        return []

    def check_hash(self, c):
        a, = elsewhere('0', [c])
        b, = elsewhere(c['hash_seed'], [c])
        return [hash_violation(c, b, a)] if a != b else []


def hash_violation(c, got, want):
    return viol('hash-seed', 'with PYTHONHASHSEED=%s the call gives %s, with '
                '0 %s' % (c['hash_seed'], got[:300], want[:300]))


def elsewhere(hash_seed, cases):
    """Outcomes of calls in an interpreter with the given hash seed."""
    top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, MDTOC_HASHSEED=hash_seed)
    env.pop('MDTOC_SIM', None)
    p = subprocess.run(
        ['python3', os.path.join(top, 'check.py'), 'C11', '--outcomes'],
        env=env, input=json.dumps(cases), capture_output=True, text=True,
        timeout=800)
    out = [x[8:] for x in p.stdout.splitlines() if x.startswith('OUTCOME ')]
    if p.returncode or len(out) != len(cases):
        raise engine.HarnessError('hash seed %s: %s' % (hash_seed, p.stderr))
    return out


def print_outcomes(cases):
    iso = engine.Iso()
    for c in cases:
        clean = [f for f in c['world']['files'] if f['path'][0] == 'd']
        r = iso(after_history, c['world'], [], c['target'], clean)
        print('OUTCOME ' + json.dumps(
            [r.get('out'), sorted((r.get('files') or {}).items()),
             r.get('printed')], default=repr))


# -- C14 --------------------------------------------------------------------------


def pathological(rng):
    """Lines that are hard on parsers."""
    n = rng.choice((3, 10, 30, 80, 150))
    unit = rng.choice((
        '*', '_', '`', '[', ']', '(', ')', '<', '>', '!', '&', '\\', '#', '~',
        '*a ', '_a ', '**a', '*a_', '_a*', '[a', '![a', '<a', '<a ', '<!--',
        '</a>', '<b>', '``', '` ', '&#', '<?', '<![CDATA[', '](', '[]()',
        '*_', 'a*', '$', '"', "'", '--', '\t', '\x0b', '\xa0', 'é', '🚀',
        '**', '***a ', '* ', ' *', '[x](', '<a href="', "<a b='", '\x00',
        '\u2028', '=', '<a b=c ', '1', 'a', 'a-', 'a_', 'a b ', '1.', ' ',
        '- ', 'A', '.', 'a.', ',', ', ', '#a', '# ', '\\a', '&a', ';'))
    t = unit * n + rng.choice(('', '', '', '!', 'x', '1', ' ', '.'))
    r = rng.random()
    if r < .5:
        t = '#' * rng.randint(1, 6) + ' ' + t
    elif r < .65:
        t = '#' * rng.randint(1, 6) + ' ' + t + rng.choice(docs.RAW)
    elif r < .75:
        t = ('`' if rng.random() < .5 else '~') * rng.randint(3, 200) + t
    return t


class C14(Prop):
    id = 'C14'
    quick = (4000, 75)
    thorough = (30000, 1500)
    rule = ('one run = one operation on long, odd or truncated input, from '
            'file or in pieces from standard input, under I/O errors; loop '
            'iterations and system calls are counted while it runs and '
            'compared with a bound computed from the size of the input; '
            'non-trivial = all runs')
    per_family = {'quick': 5, 'thorough': 12}

    def gen(self, rng, n):
        spec = some_world(rng, rng.choice((1, 1, 1, 2, 3)),
                          wild=rng.random() < .6)
        for k in ('buf', 'chunk'):
            if rng.random() < .6:
                spec.pop(k, None)
        f = spec['files'][0]
        r = rng.random()
        if r < .5:
            for _ in range(rng.randint(1, 3)):
                f['lines'].insert(rng.randint(0, len(f['lines'])),
                                  pathological(rng))
        elif r < .56:
            # inside of what may be a TOC block
            t = pathological(rng).lstrip('#')
            if rng.random() < .7:
                t = t[1:]
            k = rng.randint(0, len(f['lines']))
            f['lines'][k:k] = [docs.MARKER, '', t, '', docs.MARKER]
        elif r < .6:
            f['lines'] = (f['lines'] * 40)[:rng.choice((100, 250, 400))]
        elif r < .65:
            f['lines'] = ['# ' + 'word ' * rng.choice((100, 300))] + f['lines']
        if rng.random() < .3:
            t = '\n'.join(f['lines'])
            f['lines'] = t[:rng.randint(0, len(t))].split('\n')
        op = some_op(rng, spec)
        if rng.random() < .1:
            op['o']['skip_lines'] = rng.choice((1000, 10**5, 10**8, 10**15))
        if rng.random() < .25:
            op = {'op': 'cli', 'o': op['o'], 'files': ['-'],
                  'stdin': '\n'.join(f['lines'])}
        return {'world': spec, 'op': op, 'faults': []}

    def explore(self, family, rng, iso, tier):
        yield family
        kinds = ('err', 'stay', 'short', 'full', 'emfile', 'rofs', 'intr',
                 'nomem')
        base = {}
        if rng.random() < .3:
            base = iso(calls_of, family['world'], family['op'], late=True)
        for _ in range(self.per_family[tier] - 1):
            c = dict(family, faults=[
                one_fault(rng, base['opkinds'], kinds)
                if base and base['opkinds'] else
                {'at': int(2**rng.uniform(0, 9)), 'kind': rng.choice(kinds),
                 'sel': rng.randrange(1000)}
                for _ in range(rng.randint(1, 3))])
            if 'stdin' in c['op']:
                c['op'] = dict(c['op'], cuts=[
                    rng.choice((1, 2, 3, 7, 50, 1000))
                    for _ in range(rng.randint(1, 4))])
            yield c

    def check(self, c, iso):
        # loops inside of C code are noticed only by the real time they take
        r = iso(counted, c['world'], c['op'], c['faults'], late=True)
        out = []
        if r is None:
            return [viol('endless', 'the operation does not end')]
        if r['stalled']:
            out.append(viol('endless', 'the operation does not end (%s)' %
                            r['stalled']))
            return out
        if r['syscalls'] > r['call_bound']:
            out.append(viol('system-calls', '%d system calls for an input of '
                            'size %s (bound %d)' %
                            (r['syscalls'], r['size'], r['call_bound'])))
        if r['jumps'] > r['jump_bound']:
            out.append(viol('steps', '%d loop iterations for an input of '
                            'size %s (bound %d)' %
                            (r['jumps'], r['size'], r['jump_bound'])))
        return out


def calls_of(run, spec, op):
    return counted(run, spec, op, None, True)


def counted(run, spec, op, faults, measure=False):
    w = run.world(spec)
    if measure:
        w.opkinds = []
    datas = [tobytes(f) for f in spec['files'] if f['path'] in op['files']]
    files = len(datas)
    if 'stdin' in op:
        datas.append(op['stdin'].encode('utf-8', 'surrogateescape'))
    texts = [model.universal(d.decode('utf-8', 'replace')) for d in datas]
    lines = sum(t.count('\n') + 1 for t in texts)
    bytes_ = sum(len(d) for d in datas)
    square = sum(len(x)**2 for t in texts for x in t.split('\n'))
    marker = (op.get('o') or op).get('marker', docs.MARKER)
    markers = sum(t.count(marker) for t in texts)
    block = max(1, min(spec.get('buf', 8192), spec.get('chunk', 8192),
                       *(op.get('cuts') or [8192])))
    blocks = bytes_ // block + 1
    jump_bound = JUMPS[0] + JUMPS[1] * bytes_ + JUMPS[2] * square + \
        JUMPS[3] * lines + JUMPS[4] * markers * bytes_
    call_bound = CALLS_[0] * (files + 1) + CALLS_[1] * lines + \
        CALLS_[2] * blocks
    w.jump_limit = jump_bound * 2
    w.syscall_limit = call_bound * 2
    r = perform(run, w, op, faults)
    return {'stalled': r['stalled'], 'syscalls': w.syscalls, 'jumps': w.jumps,
            'size': [files, lines, bytes_, block], 'call_bound': call_bound,
            'jump_bound': jump_bound, 'opkinds': w.opkinds}


# allowances per run, byte, length of a line squared, line, marker * byte
JUMPS = (20000, 300, 4, 1000, 8)
# allowances per file, line, block
CALLS_ = (150, 6, 10)


# -- C15 --------------------------------------------------------------------------


class C15(Prop):
    id = 'C15'
    quick = (1000, 75)
    thorough = (30000, 1500)
    rule = ('one run = 3-14 API calls of one process with a small limit on '
            'open files, some hit by I/O errors, interrupts or bad documents; '
            'after each call the simulated descriptor table must be empty; or '
            'one batch of many files, whose peak of open files is compared '
            'with that of one file; non-trivial = all runs')
    per_family = {'quick': 7, 'thorough': 20}

    def gen(self, rng, n):
        spec = some_world(rng, 3, coherent=.6, wild=rng.random() < .3,
                          sizes=(2, 4, 8))
        if rng.random() < .4:
            spec['files'][0]['lines'].insert(
                rng.randint(0, len(spec['files'][0]['lines'])), 'x\udcff')
        if rng.random() < .1:
            spec['files'][1]['mode'] = 0
        if rng.random() < .2:
            spec['fd_limit'] = rng.choice((8, 12, 20))
        return {'world': spec, 'history': []}

    def explore(self, family, rng, iso, tier):
        mine = names(family['world'])
        for _ in range(self.per_family[tier]):
            if rng.random() < .15:
                k = rng.choice((5, 12, 25))
                op = some_api_op(rng, mine)
                yield {'world': dict(family['world'], files=[
                    dict(rng.choice(family['world']['files']),
                         path='d%d.md' % i) for i in range(k)]),
                    'batch': {'op': rng.choice(('build', 'update')),
                              'multi': True, 'o': docs.options(rng),
                              'files': ['d%d.md' % i for i in range(k)]}}
                continue
            if rng.random() < .3:
                # the same call again and again, each time with another fault
                op = some_api_op(rng, mine)
                base = iso(solo, family['world'], op, True, True, keep=True)
                n = rng.randint(4, 14)
                if not base['stalled'] and base['opkinds']:
                    yield dict(family, history=[
                        {'op': op, 'faults': fs} for fs in plans(
                            rng, base['opkinds'], self.KINDS, n,
                            base['lines'], 0)])
                continue
            yield dict(family, history=[
                self.some(rng, mine) for _ in range(rng.randint(3, 14))
            ])

    KINDS = ('err', 'err', 'err', 'err', 'stay', 'full', 'rofs', 'short',
             'nomem@line', 'intr@line')

    def some(self, rng, mine):
        h = {'op': some_api_op(rng, mine)}
        r = rng.random()
        if r < .35:
            h['faults'] = [{'at': int(2**rng.uniform(0, 8)), 'kind':
                            rng.choice(('err', 'err', 'stay', 'full', 'rofs',
                                        'intr', 'nomem', 'short')),
                            'sel': rng.randrange(1000)}]
        elif r < .5:
            h['faults'] = [{'line': int(2**rng.uniform(0, 11)), 'kind':
                            rng.choice(('intr', 'nomem')), 'sel': 0}]
        return h

    def valid(self, c):
        have = names(c['world'])
        ops = [h['op'] for h in c.get('history', ())]
        if 'batch' in c:
            ops.append(c['batch'])
            if not c['batch']['files']:
                return False
        return all(f in have for op in ops for f in op.get('files', ()))

    def check(self, c, iso):
        if 'batch' in c:
            op = c['batch']
            r = iso(solo, c['world'], op)
            alone = [
                iso(solo, c['world'], dict(op, files=[f]), keep=True)
                for f in op['files']
            ]
            if r['stalled'] or any(a['stalled'] for a in alone):
                return []
            most = max(a['max_fds'] for a in alone) + 2
            if r['max_fds'] > most:
                return [viol('many-open', '%d files open at the same time in '
                             'a batch of %d, at most %d for one file' %
                             (r['max_fds'], len(op['files']), most - 2))]
            return []
        r = iso(leak_history, c['world'], c['history'])
        return [
            viol('leak', 'call %d (%s, %s): left open: %s' %
                 (n, c['history'][n]['op']['op'], how, left))
            for n, how, left in r
        ]


def leak_history(run, spec, history):
    w = run.world(spec)
    w.begin()
    if any('line' in f for h in history for f in h.get('faults') or ()):
        world.watch_lines(True)
    out = []
    for n, h in enumerate(history):
        r = perform(run, w, h['op'], h.get('faults'), new=False)
        if r['stalled'] or r['died']:
            break
        w.lift()
        left = w.leaked()
        # closing itself may have been what failed or was interrupted
        if left and not any(x.startswith(('err:close', 'stay:close', 'intr',
                                          'nomem'))
                            for x in r['fired']):
            out.append((n, r['fired'] or ('ok' if r['ok'] else r['err']),
                        left))
            break
        if left:
            w.vfs.fds.clear()
    world.watch_lines(False)
    return out

"""Random documents and options (all drawn from the run's seeded generator)."""

MARKER = '<!--TOC-->'
MARKERS = (MARKER, MARKER, MARKER, '[](TOC)', '<!-- toc -->', '::toc::')
PARSERS = ('github', 'cmark', 'gitlab', 'commonmarker', 'goldmark',
           'redcarpet')
WORDS = ('alpha', 'Beta', 'gamma', 'Install', 'Usage', 'FAQ', 'API', 'v1',
         '2', 'x', 'été', 'naïve', '日本', 'Ωmega', 'foo_bar', 'a-b', 'C++',
         'What?', 'end.', 'k=v', "it's", '(opt)', '[x]', '100%', 'a/b', '🚀',
         'B')
SAME = ('alpha', 'Alpha', 'ALPHA', 'beta', 'Beta', 'alpha-1', 'alpha')
RICH = WORDS + SAME + ('*em*', 'em', '**bold**', 'bold', '_em_', '__bold__',
                       '`code`', 'code', 'snake_case', '<b>bold</b>',
                       '``c d``', '&', '2.0', 'ß', '—', '~x~', 'é\u0301',
                       'İ', '**é**', '<br>', '_a-b_', 'Hello,', '-', '--',
                       '...', 'x--y', '&', '_two words_', '__two words__',
                       '___x___', '*_em_*', '_*em*_', '_`c`_', '`_c_`',
                       '<a href="u">x</a>', '**_a_ b**', '_a **b** c_',
                       '__a _b_ c__', '<i>_x_</i>', '~~_x_~~', '_(x)_',
                       '"_q_"', '(_x_)', '_a_.', '_é_', '_日本_', 'a_b_c',
                       '[_l_](u)', '[a_b](c_d)', '\\_esc\\_', '日_本_語',
                       'x²', '`a_b_ c_d`', '</b>', '<x/>', '&copy;', 'E=m^2^',
                       '<http://a.b>', 'a\tb', 'x\xa0y', '~~del~~',
                       '<a\tb=c>', '[x]', '\\[y\\]', '[z', 'w]', '\\[v]',
                       '[[u]]', '#tag', 'f#')
# anchors that the parsers make in different ways
PUNCT = ('alpha', 'Beta', 'gamma', 'C', '-', '--', '&', '...', 'x--y', 'a_b',
         '_em_', '**bold**', 'été', '1.2', '+', '(x)', '—')
REDS = ('alpha', 'Beta', 'alpha', 'Hello,', '(x)', '1.2', '+', '--', 'x--y',
        '...', 'a/b', 'été', '@x', 'C++', '100%', '~', 'a_b', '-', 'É', '日本',
        'a:b;', '=', '{x}', '|', '^2', '$5', '?!')
# only the labels are modelled
ODD = ('*a', 'b*', '_', '_c', '`', '`x', '<a', '<b>', '</b', '![i](u)',
       '[l](u)', '<!--c-->', '&amp;', '&', '$', '"', "'", ')', '(', '<?', '𝒳',
       'x\xa0', '\u2028', 'y\x85z', '**', '***', '=', '|', '>', '<', ']', '[',
       '](', '<!--', '-->', '&#35;', '``', '*_', '_*x', 'a&b', 'a<b', '{', '~~',
       'e\u0301', '\ufeff', '!', '<a b="', 'word', 'Word', '%', '\\x', '\\[',
       '\\\\[', '<![CDATA[', '](#x)', '\x1f')
MODES = (0o644, 0o600, 0o664, 0o755, 0o640, 0o444, 0o666)
RAW = ('*a*', '**b**', '_c_', '<b>', '</b>', '`code`', '&amp;', '\\', '\\[',
       '![i](u)', '[l](u)', '<!--c-->', '*', '_', '`', '#', '##', '~~~', '\t',
       '\x0b', '\x0c', '\x00', '\xa0', '\u2028', '\x85', '-', '1.', '\ufeff',
       '<a', '<?', ']', '[', ')', '&#35;', '"', "'", '\x1c', '[x',
       '*_', '_*', '$', 'é', '𝒳')


words = WORDS  # in use now, see document()


def text(rng, n=None):
    return ' '.join(rng.choice(words)
                    for _ in range(n or rng.choice((1, 1, 2, 2, 3, 3, 5))))


def raw_text(rng):
    return ''.join(
        rng.choice(RAW) if rng.random() < .6 else rng.choice(WORDS) +
        rng.choice(('', ' ')) for _ in range(rng.randint(1, 5)))


def heading(rng, level, wild=False):
    t = raw_text(rng) if wild and rng.random() < .5 else text(rng)
    r = rng.random()
    s = '#' * level + ' ' + t
    if r < .05:
        s += ' ' + '#' * rng.randint(1, 4)
    elif r < .08:
        s += rng.choice((' # #', ' ##  # ', ' #b', ' # b #', ' \\#',
                         ' b#b##', ' ## # #', '  ##  ', ' # b'))
    elif r < .14:
        s = ' ' * rng.randint(1, 3) + s
    elif r < .18:
        s = '#' * level + ' ' * rng.randint(2, 4) + t
    elif r < .22:
        s += ' ' * rng.randint(1, 3)
    elif r < .24:
        s = '#' * level + '\t' + t
    return s


def ticks(rng):
    """Code spans and runs of backticks that do not close."""
    return ' '.join(rng.choice((
        '`_b_`', '``', '`_b_ _c_`', '``_d_``', '`', '```', 'x', '_em_',
        '` _b_', '[_b_', '_c_](u)', '![', '&amp;', '<_b_', '*a', 'b*'))
        for _ in range(rng.randint(2, 7)))


def long_line(rng):
    """Looks like a heading or a fence if it is cut at a usual size."""
    at = rng.choice((80, 128, 255, 256, 512, 998, 999, 1000, 1024, 2048, 4095,
                     4096, 8191, 8192, 16384, 65536))
    return 'y' * (at + rng.choice((-1, 0, 0, 0, 1))) + rng.choice(
        ('# z', '## z z', '```', '~~~', '<!--TOC-->'))


def noise(rng, wild=False):
    r = rng.random()
    if r < .35:
        return ''
    if r < .65:
        return text(rng, rng.randint(1, 6))
    if wild and r < .8:
        return raw_text(rng)
    return rng.choice(
        ('#nospace', '    # indented', '####### seven', 'see # this',
         '- item', '1. one', '> # quoted', '---', '  trailing  ', '***',
         'a' * rng.randint(1, 90), '\\# escaped', '<!-- # comment -->', '##x',
         '- [link](#alpha)', '| a | b |', '<!--TOC', 'x <!--TOC--> y', '=='))


def fence(rng, wild=False):
    c = rng.choice('`~')
    n = rng.randint(3, 5)
    out = [
        ' ' * rng.choice((0, 0, 0, 1, 3)) + c * n +
        rng.choice(('', '', 'sh', ' python', ' # c', '\t'))
    ]
    for _ in range(rng.randint(0, 4)):
        r = rng.random()
        if r < .45:
            out.append('#' * rng.randint(1, 4) + ' ' + text(rng))
        elif r < .6:
            out.append(('~' if c == '`' else '`') * rng.randint(3, 5))
        elif r < .7:
            out.append(c * (n - 1))
        elif r < .78:
            out.append(c * n + ' no')
        else:
            out.append(noise(rng, wild))
    if rng.random() < .85:
        out.append(' ' * rng.choice((0, 0, 0, 2)) + c *
                   (n + rng.choice((0, 0, 1))) + rng.choice(('', '', '  ')))
    return out


def body(rng, size, wild=False, coherent=.85, fences=True):
    """Lines of a document without markers."""
    lines = []
    level = rng.choice((1, 1, 1, 2))
    first = level
    coh = rng.random() < coherent
    while len(lines) < size:
        r = rng.random()
        if r < .42:
            if coh:
                level = max(first, min(6, level + rng.choice(
                    (1, 1, 0, 0, -1, -2))))
                if not lines or not any(x.startswith('#') for x in lines):
                    level = first
            else:
                level = rng.randint(1, 6)
            lines.append(heading(rng, level, wild))
        elif fences and r < .5:
            lines.extend(fence(rng, wild))
        else:
            lines.append(noise(rng, wild))
    return lines


def toc_block(rng, marker, kind=None):
    """A marker block as it may be found in a document."""
    k = kind or rng.choice(
        ('single', 'single', 'pair', 'pair', 'empty', 'blank', 'text', 'three',
         'pair+single', 'indented', 'ordered', 'short', 'spaces'))
    m = marker
    toc = ['- [old](#old)'] + [
        rng.choice(('- [%s](#x)', '  - [%s](#y)', '- %s')) % text(rng)
        for _ in range(rng.randint(0, 3))
    ]
    if k == 'single':
        return [m]
    if k == 'indented':
        return [' ' * rng.randint(1, 5) + m + ' ' * rng.randint(0, 2)]
    if k == 'pair':
        return [m, ''] + toc + ['', m]
    if k == 'ordered':
        return [m, '', '1. a', '2. b', '', m]
    if k == 'empty':
        return [m, m]
    if k == 'blank':
        return [m] + [''] * rng.randint(1, 4) + [m]
    if k == 'spaces':
        return [m, '  ', '\t', m]
    if k == 'text':
        return [m, '', text(rng), '', m]
    if k == 'short':
        return [m] + toc[:1] + [m]
    if k == 'three':
        return [m, 'x', m, ''] + toc + ['', m]
    return [m, ''] + toc + ['', m, text(rng), m]


def document(rng, size=None, marker=MARKER, wild=False, markers=None,
             coherent=.85, kind=None, fences=True, vocabulary=None):
    """-> list of lines (joined with a newline string by the world)"""
    global words
    if vocabulary:
        words = vocabulary
        try:
            return document(rng, size, marker, wild, markers, coherent, kind,
                            fences)
        finally:
            words = WORDS
    size = size if size is not None else rng.choice((2, 4, 6, 9, 14, 24))
    lines = body(rng, size, wild, coherent, fences)
    n = markers if markers is not None else rng.choice((1, 1, 1, 1, 2, 0))
    at = []
    for _ in range(n):
        at.append(rng.randint(0, len(lines)) if rng.random() < .7 else
                  rng.choice((0, len(lines))))
    for p in sorted(at, reverse=True):
        lines[p:p] = toc_block(rng, marker, kind)
    if rng.random() < .8:
        lines.append('')  # ends with a newline
    return lines


def dense(rng, vocabulary=None, size=None):
    """Little more than headings: levels, repetitions, fences at random."""
    global words
    words = vocabulary or rng.choice((SAME, SAME, WORDS, RICH))
    size = size or rng.choice((3, 3, 6, 6, 12, 12, 25, 25, 60, 60, 120, 350))
    lines, level = [], 1
    jump = rng.random() < .4
    deep = rng.choice((2, 3, 4, 6, 6))
    plain = rng.random() < .3
    try:
        while len(lines) < size:
            r = rng.random()
            if r < .08:
                lines += fence(rng)
            elif r < .16:
                lines.append(noise(rng))
            else:
                if jump:
                    level = rng.randint(1, deep)
                elif plain:
                    level = rng.choice((1, 1, 1, 1, 1, 1, 2))
                else:
                    level = max(1, min(deep, level + rng.choice(
                        (1, 0, 0, 0, -1, -2))))
                lines.append(' ' * rng.choice((0, 0, 0, 0, 1, 2, 3)) +
                             heading(rng, level).lstrip(' '))
    finally:
        words = WORDS
    if rng.random() < .8:
        lines.append('')
    return lines


def newline(rng):
    return rng.choice(('\n', '\n', '\n', '\n', '\r\n', '\r'))


def options(rng, parser=None, simple=False):
    """Options of a run, as data."""
    o = {'parser': parser or rng.choice(PARSERS + ('github', 'github'))}
    if simple and rng.random() < .5:
        return o
    if rng.random() < .35:
        o['ordered'] = rng.choice(
            ('.', ')') if o['parser'] != 'redcarpet' else ('.', ))
    elif rng.random() < .3:
        o['unordered'] = rng.choice('-+*')
    if rng.random() < .15:
        o['constant'] = True
    if rng.random() < .35:
        o['levels'] = rng.randint(1, 6)
    if rng.random() < .2:
        o['no_links'] = True
    r = rng.random()
    if r < .3:
        o['no_list_coherence'] = True
    elif r < .45:
        o['no_indentation'] = True
    if rng.random() < .2:
        o['skip_lines'] = rng.choice((0, 1, 2, 3, 5, 200,
                                      rng.randint(6, 300)))
    if rng.random() < .3:
        o['newline'] = rng.choice(('\n', '\r', '\r\n'))
    return o


def with_marker(o, marker):
    if marker != MARKER:
        o['marker'] = marker
    return o


def argv(o, files, in_place=False, diff=False):
    a = []
    if in_place:
        a.append('-p')
    if diff:
        a.append('-d')
    if o.get('no_links'):
        a.append('-l')
    if o.get('no_list_coherence'):
        a.append('-c')
    if o.get('no_indentation'):
        a.append('-i')
    if 'skip_lines' in o:
        a += ['-s', str(o['skip_lines'])]
    if 'newline' in o:
        a += ['-n', {'\n': r'\n', '\r': r'\r', '\r\n': r'\r\n'}[o['newline']]]
    if 'marker' in o:
        a += ['-m', o['marker']]
    a.append(o['parser'])
    if 'ordered' in o:
        a += ['-o', o['ordered']]
    elif 'unordered' in o:
        a += ['--unordered-list-marker=' + o['unordered']]
    if o.get('constant'):
        a.append('-c')
    if 'levels' in o:
        a += ['-l', str(o['levels'])]
    if files is not None:
        a.append('--')
        a += list(files)
    return a


def kwargs(o):
    """The same for build_toc."""
    ordered = 'ordered' in o
    k = {
        'parser': o['parser'],
        'ordered': ordered,
        'no_links': bool(o.get('no_links')),
        'no_indentation': bool(o.get('no_indentation')),
        'no_list_coherence': bool(o.get('no_list_coherence')),
        'keep_header_levels': o.get('levels', 6),
        'list_marker': o.get('ordered', o.get('unordered', '-')),
        'skip_lines': o.get('skip_lines', 0),
        'constant_ordered_list': bool(o.get('constant')),
        'newline_string': o.get('newline', '\n'),
    }
    return k


def knobs(rng, spec):
    """Buffer sizes, devices and so on, varied per run."""
    if rng.random() < .4:
        spec['buf'] = rng.choice((1, 2, 3, 7, 16, 64, 512))
    if rng.random() < .4:
        spec['chunk'] = rng.choice((1, 2, 3, 5, 16, 100))
    if rng.random() < .3:
        spec['tmpdev'] = True
    if rng.random() < .2:
        spec['umask'] = rng.choice((0, 0o077, 0o027))
    return spec

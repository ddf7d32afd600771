"""Executable reference models, written from the documentation.

They are deliberately simple: whole documents in memory, no streaming, no
state between calls.  The TOC model covers the plain vocabulary of
`docs.body(wild=False)`.
"""
import re


class Rejected(Exception):
    """The run must fail and leave everything as it was."""


def universal(text):
    return text.replace('\r\n', '\n').replace('\r', '\n')


def lines_of(text):
    """Lines without their ends."""
    out = universal(text).split('\n')
    if out[-1] == '':
        out.pop()
    return out


# -- the TOC block in a document -------------------------------------------------

LIST = re.compile(r' {0,3}([-+*]|\d+[.)]) (?![ \t\v]+).*')
BLANK = re.compile(r'[ \t\v]*')


def find_block(text, marker):
    """-> (kind, first line, last line, old toc); lines count from 0"""
    lines = lines_of(text)
    at = [n for n, x in enumerate(lines) if x.strip() == marker.strip()]
    if not at:
        return 'none', None, None, ''
    if len(at) == 1:
        return 'single', at[0], at[0], marker
    for a, b in zip(at, at[1:]):
        inner = ''.join(lines[a + 2:b - 1])
        if LIST.fullmatch(inner) or BLANK.fullmatch(''.join(
                lines[a + 1:b])):
            return 'pair', a, b, '\n'.join(lines[a + 1:b]).strip()
    return 'before', at[0], at[0] - 1, ''


def odd_block(text, marker):
    """Does the block to be replaced hold headings or fences of its own?"""
    kind, a, b, _ = find_block(text, marker)
    return kind == 'pair' and any(
        re.match(r'\s*(#|```|~~~)', x) for x in lines_of(text)[a:b + 1])


def splice(data, toc, marker, nl='\n'):
    """The document after an in-place write: bytes -> bytes."""
    text = data.decode('utf-8')
    kind, a, b, _ = find_block(text, marker)
    if kind == 'none':
        return data
    text = universal(text)
    ends = text.split('\n')
    unended = ends[-1] != ''
    lines = lines_of(text)
    block = universal('\n'.join([marker, '', toc.rstrip(), '',
                                 marker])).split('\n')
    tail = lines[b + 1:]
    out = ''.join(x + '\n' for x in lines[:a] + block + tail)
    if unended and tail:
        out = out[:-1]
    return out.replace('\n', nl).encode('utf-8')


def same_toc(data, toc, marker):
    old = find_block(data.decode('utf-8'), marker)[3]
    return universal(toc.strip()) == old


# -- the TOC of a document ------------------------------------------------------------

GITHUB = ('github', 'commonmarker')
ANY = ('github', 'cmark', 'gitlab', 'commonmarker', 'goldmark')
STRIPPED = set(" -&+$,/:;=?@\"#{}|^~[]`\\*()%.!'")


def headings(lines, parser):
    """[(level, text)] outside fenced code."""
    out = []
    fence = None
    blank = ' ' if parser in GITHUB else ' \t'
    for line in lines:
        if parser == 'redcarpet':  # no fenced code without an extension
            m = re.fullmatch(r'(#{1,6})(?: +(.*))?', line)
            if m and m.group(2):
                t = m.group(2).rstrip('#').rstrip(' ')
                if t:
                    out.append((len(m.group(1)), t))
            continue
        indent = len(line) - len(line.lstrip(' '))
        s = line.lstrip(' ')
        if fence is not None:
            t = s.rstrip(blank)
            if indent <= 3 and len(t) >= len(fence) and set(t) == {fence[0]}:
                fence = None
            continue
        m = re.match(r'(`{3,}|~{3,})(.*)', s)
        if indent <= 3 and m and not (m.group(1)[0] == '`'
                                      and '`' in m.group(2)):
            fence = m.group(1)
            continue
        m = re.match(r'(#{1,6})(?=[%s]|$)(.*)' % blank, s)
        if indent > 3 or not m:
            continue
        t = m.group(2).strip(blank)
        t = re.sub(r'(^|[%s]+)#+$' % blank, '', t).rstrip(blank)
        out.append((len(m.group(1)), t))
    return out


# words of the vocabulary that are more than text and punctuation
MARKED = {'_em_': 'em', '__bold__': 'bold', '<b>bold</b>': 'bold', '<br>': '',
          '_a-b_': 'a-b', '_two words_': 'two words',
          '__two words__': 'two words', '___x___': 'x', '*_em_*': 'em',
          '_*em*_': 'em', '_`c`_': 'c', '<a href="u">x</a>': 'x',
          '**_a_ b**': 'a b', '_a **b** c_': 'a b c', '__a _b_ c__': 'a b c',
          '<i>_x_</i>': 'x', '~~_x_~~': 'x', '_(x)_': 'x', '"_q_"': 'q',
          '(_x_)': 'x', '_a_.': 'a', '_é_': 'é', '_日本_': '日本',
          '[_l_](u)': 'lu', '</b>': '', '<a\tb=c>': '', '<x/>': ''}
MARKS = re.compile(r'(?<!\S)(%s)(?!\S)' % '|'.join(
    re.escape(x) for x in sorted(MARKED, key=len, reverse=True)))


def slug(t, parser):
    if parser != 'redcarpet':
        t = MARKS.sub(lambda m: MARKED[m.group()], t)
    if parser == 'redcarpet':
        s = ''.join(c.lower() if c.isascii() and c not in STRIPPED else '-'
                    for c in t)
        s = re.sub('-+', '-', s).strip('-')
        if s:
            return s
        h = 5381
        for c in t:
            h = h * 33 + ord(c)
        return 'part-%x' % h
    s = re.sub(r'[^\w\- ]', '', t.lower()).replace(' ', '-')
    return re.sub('-+', '-', s) if parser == 'gitlab' else s


def toc(text, o):
    """The table of contents; raises Rejected."""
    parser = o['parser']
    nl = o.get('newline', '\n')
    ordered = 'ordered' in o or o.get('constant')
    if ordered:
        mark = o.get('ordered', '.')
    else:
        mark = o.get('unordered', '-')
    keep = o.get('levels', 6)
    lines = lines_of(text)[o.get('skip_lines', 0):]
    out, seen = [], {}
    count = {}
    indent_of = {}
    first = prev = None
    prev_width = prev_indent = 0
    for level, t in headings(lines, parser):
        label = t
        if not o.get('no_links') and parser != 'redcarpet':
            if not t:
                raise Rejected('empty label')
            # brackets that are not yet escaped
            label = re.sub(r'(\\*)([\[\]])', lambda m: m.group() if len(
                m.group(1)) % 2 else m.group(1) + '\\' + m.group(2), t)
        s = slug(t, parser)
        if parser != 'redcarpet':
            n = seen.get(s, 0)
            seen[s] = n + 1
            if n:
                s += '-%d' % n
        if level > keep:
            continue
        if prev is not None and level > prev:
            count[level] = 0
        count[level] = count.get(level, 0) + 1
        if first is None:
            first = level
        if not (o.get('no_indentation') or o.get('no_list_coherence')):
            if level < first or (prev is not None and level > prev + 1):
                raise Rejected('incoherent')
        index = 1 if o.get('constant') else count[level]
        bullet = '%d%s' % (index, mark) if ordered else mark
        if o.get('no_indentation'):
            indent = 0
        elif parser == 'redcarpet':
            indent = 4 * (level - 1)
        else:
            if prev is None:
                indent = 0
            elif level > prev:
                indent = prev_indent + prev_width + 1
            else:
                indent = indent_of.get(level, 0)
            for deeper in range(level + 1, 7):
                if prev is not None and level < prev:
                    indent_of.pop(deeper, None)
            indent_of[level] = indent
        prev, prev_width, prev_indent = level, len(bullet), indent
        entry = label if o.get('no_links') else '[%s](#%s)' % (label, s)
        out.append(' ' * indent + bullet + ' ' + entry + nl)
    return ''.join(out)

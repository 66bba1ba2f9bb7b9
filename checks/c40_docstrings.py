"""C40: conversion of docstrings for the documentation."""
import re
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact

word = st.sampled_from(['a', 'list', 'the', 'tracers', 'pos', '(n,3)',
    'array,', 'e.g.', 'x:', '``code``', '[m/s].', ':math:`i=1`', '2', 'a-b',
    'value', '3rd', '-1', 'of'])
title = st.sampled_from(['Arguments', 'Returns', 'Yields', 'See', 'Note'])
name = st.sampled_from(['pos', 'x, y', 'trajid,time', 'num_neighbs', 'fps',
    'a, b, c', 'a,  b, c2'])


@st.composite
def doc_lines(draw):
    lines = []
    for _ in range(draw(st.integers(0, 14))):
        indent = ' ' * draw(st.sampled_from([0, 0, 4, 8]))
        text = ' '.join(draw(st.lists(word, min_size=1, max_size=5)))
        kind = draw(st.sampled_from(['text', 'text', 'def', 'blank',
            'title', 'titletext']))
        if kind == 'blank':
            lines.append(draw(st.sampled_from(['', '    '])))
        elif kind == 'def':
            lines.append(indent + draw(name) + ' ' * draw(st.integers(1, 2))
                + '- ' + text)
        elif kind == 'title':
            lines.append(indent + draw(title) + ':')
        elif kind == 'titletext':
            lines.append(indent + draw(title) + ': ' + text)
        else:
            lines.append(indent + text)
    return lines


def words(lines):
    """The text without markup, as one string without spaces."""
    return re.sub(r'[\s*`:-]', '', ''.join(lines))


@facet('C40', 'text', doc_lines(), quick=2500,
    rule='docstrings of up to 14 lines: titles with and without text on '
    'their line, definitions, text, in any order and indentation; non-trivial '
    'with a definition and a title')
def text(case, ctx):
    from flowtracks.format_docstrings import parse_docstring
    lines = list(case)
    with ctx.sut('parse_docstring'):
        ret = parse_docstring(None, 'function', 'f', None, None, lines)
    check(isinstance(lines, list) and all(isinstance(v, str) for v in lines),
        'result is not a list of lines: %s', lines)
    equal(words(lines), words(case), 'text of %s, which becomes %s'
        % (case, lines))
    start, titled = True, 0
    for line in case:
        if line.strip() == '':
            start = True
            continue
        m = re.match(r'^\s*(\w+):', line)
        if start and m:
            titled += 1
            check('*%s*' % m.group(1) in lines, 'title %s is not marked in '
                '%s', m.group(1), lines)
        start = False
    items = [l for l in lines if l.startswith('* ``')]
    plain = [l for l in case if re.match(r'^\s*\w+(,\s*\w+)*\s+-\s+\S', l)]
    ctx.nontrivial(titled > 0 and len(items) > 0)
    for l in plain:
        n, d = re.match(r'^\s*(\w+(?:,\s*\w+)*)\s+-\s+(.+)', l).groups()
        if l == l.lstrip():
            check('* ``%s``: %s' % (n, d) in lines, 'definition %r is not '
                'an item of %s', l, lines)
    layout(case, lines)


def layout(case, lines):
    """Which lines belong to a definition, and the room that markup needs."""
    for n, l in enumerate(lines):
        if l.startswith('* ``') and n > 0:
            equal(lines[n - 1], '', 'line before %r, in %s' % (l, lines))
    # Only lines that appear once can be told.
    start, item = True, False
    for line in case:
        text = line.strip()
        if text == '':
            start, item = True, False
            continue
        is_def = re.match(r'^\s*\w+(,\s*\w+)*\s+-\s+\S', line)
        if start and re.match(r'^\s*\w+:', line):
            name = '*%s*' % re.match(r'^\s*(\w+):', line).group(1)
            if lines.count(name) == 1 and lines[-1] != name:
                equal(lines[lines.index(name) + 1], '', 'line after %s' % name)
            # Text on the title's line may be taken as a definition or not.
            item = None if re.search(r'\s-\s', line) else item
        elif is_def:
            # Indented ones may be taken as definitions, or not.
            item = True if line[:1].strip() else item or None
        elif item is not None and [v.strip() for v in case].count(text) == 1:
            found = [v for v in lines if v.strip() == text]
            if len(found) == 1:
                equal(found[0], ('  ' if item else '') + text,
                    'indentation, in %s that becomes %s' % (case, lines))
        start = False

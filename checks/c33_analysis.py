"""C33: the file made by analysis()."""
import os
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact
from harness import duals, gen, scenes


@st.composite
def cases(draw):
    case = draw(duals.duals(companions=False))
    case['which'] = draw(st.sampled_from([[0], [1], [0, 1], [1, 0], []]))
    case['range'] = None
    if draw(st.integers(0, 2)) == 0:
        lo, hi = case['rng']
        a = draw(st.integers(lo, hi))
        case['range'] = [a, draw(st.integers(a, hi + 2))]
        # Open ended.
        case['range'] = draw(st.sampled_from([case['range']] * 5 + ['all',
            [None, case['range'][1]], [a, None]]))
    case['exists'] = draw(st.booleans())
    return case


@facet('C33', 'table', cases(), quick=350,
    rule='dual scenes analysed by zero to two analysers, with columns of '
    'different types and lengths, on the frame range of the scene or another,'
    ' with another file in place or not; non-trivial if two segments have '
    'particles')
def table(case, ctx):
    import tables
    from flowtracks.scene import read_dual_scene
    from flowtracks.analysis import analysis
    conf = duals.write(case, ctx)
    out = ctx.path('analysis.h5')
    if case['exists']:
        with open(out, 'wb') as f:
            f.write(b'something else')
    anl = duals.analysers()
    anl = [anl[i] for i in case['which']]
    rng = case['range'] or case['rng']
    if rng == 'all' or None in rng:
        # As both databases have it; they should begin together.
        ends = [(min(t), max(t) + 1) for t in [scenes.by_time(
            gen.model_rows(case[w])) for w in ('tracers', 'parts')]]
        lo, hi = (None, None) if rng == 'all' else rng
        if lo is None and ends[0][0] != ends[1][0]:
            return
        rng = [ends[0][0] if lo is None else lo, min(e[1] for e in ends)
            if hi is None else hi]
        ctx.note('open range')
    segs = duals.segments(case, rng)
    ctx.nontrivial(sum(len(s[1]) > 0 for s in segs) > 1)
    ctx.note('own range' if case['range'] else 'range of the scene')
    with ctx.sut('analysis'):
        scene = read_dual_scene(conf)
        args = () if case['range'] is None else (None if case['range']
            == 'all' else tuple(case['range']),)
        analysis(scene, out, conf, anl, *args)
        f = tables.open_file(out, 'r')
        tab = f.get_node('/analysis')
        data = tab.read()
        attrs = tab.attrs['config'], tab.attrs['trajects']
        indexed = tab.cols.trajid.is_indexed, tab.cols.time.is_indexed
        f.close()
        rng_after = tuple(scene.get_range())
        del scene
    equal(attrs, (conf, ctx.path('particles.h5')), 'recorded paths')
    equal(rng_after, tuple(case['rng']), 'range of the scene afterwards')
    kinds = [kd for w in case['which'] for kd in duals.AN_KINDS[w * 2:w * 2
        + 2]]
    equal(sorted(data.dtype.names), sorted(['trajid', 'time']
        + [k for k, _ in kinds]), 'columns')
    equal(indexed, (True, True), 'trajid and time indexed')
    want = dict(((i, s[0]), v) for s in segs
        for i, v in duals.analysed(s).items())
    have = [(int(r['trajid']), int(r['time'])) for r in data]
    equal(sorted(have), sorted(want), 'particles and times')
    for name, kind in kinds:
        same(data[name], gen.prop_array(kind, [want[h][name] for h in have]),
            name, 1e-12)

"""C39: what is drawn is the data."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact
from harness import gen


@st.composite
def samples(draw):
    n = draw(st.integers(2, 40))
    kind = draw(st.sampled_from(['reals', 'pos', 'wide', 'ints']))
    if kind == 'ints':
        vals = [float(v) for v in draw(gen.ints(n, 1, 9))]
    else:
        vals = draw(gen.reals(n))
    if kind == 'pos':
        vals = [abs(v) + 1e-3 for v in vals]
    if kind == 'wide':
        vals = [float(10**(3 * v)) for v in vals]
    # Normally not all the same.
    if draw(st.integers(0, 7)):
        vals[0] = vals[-1] * 2 + 0.5 if vals[-1] > 0 else vals[-1] - 0.5
    scale = draw(st.sampled_from([1., 1., 1e-5, 1e4]))
    return [v * scale for v in vals]


def ref_hist(vals, edges):
    """Counts by the definition: last bin is closed on both sides."""
    cnt = [0] * (len(edges) - 1)
    for v in vals:
        for i in range(len(cnt)):
            last = i == len(cnt) - 1
            if edges[i] <= v and (v < edges[i + 1] or (last
                    and v <= edges[i + 1])):
                cnt[i] += 1
    return cnt


def fuzzy(vals, edges):
    """Values that may fall on either side of an inner edge."""
    return any(abs(v - e) <= 1e-9 * max(abs(v), abs(e)) for v in vals
        for e in edges[1:-1])


@facet('C39', 'pdf', st.tuples(samples(), st.integers(1, 12), st.booleans()),
    quick=1200,
    rule='2 to 40 samples on several scales, 1 to 12 bins, linear or '
    'logarithmic; non-trivial if two bins have samples')
def pdf(case, ctx):
    from flowtracks.graphics import pdf_bins
    vals, num, log = case
    used = [v for v in vals if v > 0] if log else vals
    if len(used) == 0 or (log and min(used) == max(used)):
        return
    data = np.array(vals)
    with ctx.sut('pdf_bins'):
        hist, edges = pdf_bins(data, num, log)
        if not log:
            for a, b in zip(pdf_bins(data, num), (hist, edges)):
                exact(a, b, 'PDF in linear bins, the default')
    exact(data, vals, 'data after making a PDF')
    equal((np.shape(hist), np.shape(edges)), ((num,), (num + 1,)), 'shapes')
    check(np.all(np.diff(edges) > 0), 'edges %s', edges)
    check(np.all(np.asarray(hist) >= 0), 'density %s', hist)
    width = np.diff(edges)
    same(np.sum(hist * width), 1., 'integral')
    # Everybody is counted, in the right bin.
    cnt = hist * width * len(used)
    if min(used) < max(used):
        same([edges[0], edges[-1]], [min(used), max(used)], 'range', 1e-12)
        if log:
            same(np.diff(np.log(edges)), np.full(num, (np.log(max(used))
                - np.log(min(used))) / num), 'log-spaced bins', 1e-6, 1e-9)
        else:
            same(width, np.full(num, (max(used) - min(used)) / num),
                'bin widths', 1e-6)
        if not fuzzy(used, edges):
            same(cnt, ref_hist(used, edges), 'counts', 1e-6, 1e-9)
    same(cnt, np.round(cnt), 'counts', 1e-6, 1e-6)
    ctx.nontrivial(np.sum(np.asarray(hist) > 0) > 1)
    ctx.note('log' if log else 'linear')


@facet('C39', 'graph', st.tuples(samples(), st.one_of(st.integers(1, 8),
        st.integers(1, 150)), st.booleans(),
        st.booleans(), st.sampled_from(['o', 's', '^'])), quick=120,
    rule='PDF graphs, by scale and marker; non-trivial with two bins')
def graph(case, ctx):
    import matplotlib.pyplot as pl
    from flowtracks.graphics import pdf_graph, pdf_bins, \
        generalized_histogram_disp
    vals, num, log, logd, marker = case
    # What is left for the defaults.
    args = (log, logd, marker)
    for default in ('o', False, False):
        if args and args[-1] == default:
            args = args[:-1]
        else:
            break
    used = [v for v in vals if v > 0] if log else vals
    if len(used) == 0 or (log and min(used) == max(used)):
        return
    ctx.nontrivial(num > 1)
    try:
        with ctx.sut('pdf_graph'):
            pl.figure(1)
            pl.clf()
            pdf_graph(np.array(vals), num, *args)
            lines = pl.gca().get_lines()
            scales = pl.gca().get_xscale(), pl.gca().get_yscale()
            hist, edges = pdf_bins(np.array(vals), num, log)
        equal(len(lines), 1, 'number of lines')
        same(lines[0].get_xdata(), edges[:-1], 'x of the graph')
        same(lines[0].get_ydata(), hist, 'y of the graph')
        equal(scales, ('log' if log else 'linear', 'log' if logd
            else 'linear'), 'scales')
        equal(lines[0].get_marker(), marker, 'marker')
        with ctx.sut('generalized_histogram_disp'):
            pl.clf()
            ret = generalized_histogram_disp(hist, edges[:-1], *args)
            scales = pl.gca().get_xscale(), pl.gca().get_yscale()
        equal(len(ret), 1, 'lines returned')
        equal(scales, ('log' if log else 'linear', 'log' if logd
            else 'linear'), 'scales of the histogram')
        equal(ret[0].get_marker(), marker, 'marker of the histogram')
        same(ret[0].get_xdata(), edges[:-1], 'x of the histogram')
        same(ret[0].get_ydata(), hist, 'y of the histogram')
    finally:
        pl.close('all')


@facet('C39', 'vectors', st.integers(2, 9).flatmap(lambda n:
        st.fixed_dictionaries(dict(vecs=gen.rows(n), indep=gen.reals(n),
        arrows=st.one_of(st.none(), gen.rows(n)), scale=st.sampled_from(
        [None, None, 1.5]), ticks=st.sampled_from([None, 4]),
        own=st.booleans(), form=st.booleans(), color=st.sampled_from(['r',
        (0.2, 0.4, 0.6)]), marker=st.sampled_from(['--', ':o'])))), quick=60,
    rule='vectors plotted by component; non-trivial all')
def vectors(case, ctx):
    import matplotlib.pyplot as pl
    from flowtracks.graphics import plot_vectors
    from matplotlib.colors import to_rgba
    ctx.nontrivial()
    vecs, indep = np.array(case['vecs']), np.array(case['indep'])
    try:
        fig = pl.figure(7) if case['own'] else None
        if case['own']:
            pl.figure(3)
        form = pl.FormatStrFormatter('%.3f') if case['form'] else None
        with ctx.sut('plot_vectors'):
            got = plot_vectors(vecs, indep, 'the x', fig=fig,
                marker=case['marker'], yticks_format=form,
                arrow_color=case['color'],
                unit_str='[m]', common_scale=case['scale'],
                ytick_dens=case['ticks'], arrows=None
                if case['arrows'] is None else np.array(case['arrows']))
            axes = got.get_axes()
        if case['own']:
            check(got is fig, 'another figure was used')
        equal(len(axes), 3, 'subplots')
        for c, ax in enumerate(axes):
            line = ax.get_lines()[0]
            same(line.get_xdata(), indep, 'x of component %d' % c)
            same(line.get_ydata(), vecs[:, c], 'y of component %d' % c)
            equal(line.get_linestyle(), case['marker'].strip('o'), 'line')
            if form is not None:
                check(ax.get_yaxis().get_major_formatter() is form,
                    'formatter of ticks of %d', c)
            check(ax.get_ylabel().startswith('XYZ'[c])
                and ax.get_ylabel().endswith('[m]'), 'label of %d is %s', c,
                ax.get_ylabel())
            if case['scale'] is not None and case['ticks'] is None:
                same(ax.get_ylim(), np.r_[-case['scale'], case['scale']]
                    + vecs[:, c].mean(), 'limits of %d' % c, 1e-9, 1e-12)
            if case['ticks'] is not None:
                same(ax.get_yticks(), np.linspace(vecs[:, c].min(),
                    vecs[:, c].max(), 4), 'ticks of %d' % c, 1e-9, 1e-12)
            if case['arrows'] is not None:
                q = [a for a in ax.collections if hasattr(a, 'U')]
                equal(len(q), 1, 'arrow sets of %d' % c)
                same(q[0].V, np.array(case['arrows'])[:, c], 'arrows of %d'
                    % c)
                same(q[0].U, np.zeros(len(indep)), 'arrows of %d' % c)
                same(q[0].get_facecolor()[0], to_rgba(case['color']),
                    'colour of arrows')
                same(np.asarray(q[0].get_offsets()), np.c_[indep,
                    vecs[:, c]], 'places of arrows of %d' % c)
        equal(axes[2].get_xlabel(), 'the x', 'x label')
        equal([ax.get_xaxis().get_visible() for ax in axes], [False, False,
            True], 'x axes shown')
    finally:
        pl.close('all')

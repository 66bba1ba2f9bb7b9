"""C11: trajectories(), whatever the format of the data."""
import os
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, same, check, short, at, kept_env
from harness import gen, scenes, oldfmt, ptvis


@st.composite
def requests(draw):
    tset = draw(gen.traj_sets(max_n=6, max_len=8, gaps=True,
        props=[['accel', 'v3']]))
    lim = st.one_of(st.none(), st.integers(-1, 17))
    fmt = draw(st.sampled_from(['hdf', 'npz', 'mat']))
    return dict(tset=tset, fmt=fmt, lo=draw(lim), hi=draw(lim),
        min_len=draw(st.sampled_from([None, None, 0, 1, 2, 3, 4, 5])),
        give_fmt=draw(st.booleans()), it=draw(st.booleans()),
        where=draw(st.sampled_from(['abs', 'abs', 'rel', 'home'])))


@facet('C11', 'formats', requests(), quick=600,
    rule='the same trajectories stored as HDF, NPZ directory or mat file, '
    'read over an inclusive range with a minimal length, as list or '
    'iterator; non-trivial if range or length leave some out and some in, '
    'or cut some')
def formats(case, ctx):
    from flowtracks import io
    tset, fmt = case['tset'], case['fmt']
    if fmt == 'hdf':
        name = 'scene.h5'
        io.save_particles_table(ctx.path(name), gen.make_trajs(tset))
    elif fmt == 'npz':
        name = 'scene/'
        io.save_trajectories(ctx.path('scene'), gen.make_trajs(tset), {})
    else:
        name = 'scene.mat'
        oldfmt.write_mat(ctx.path(name), tset)
        for tr in tset['trajs']:
            for p in ('pos', 'velocity', 'accel'):
                tr[p] = [[v / 1000. for v in r] for r in tr[p]]
    rows = gen.model_rows(tset)
    base = min(r[1] for r in rows)
    lo = None if case['lo'] is None else base + case['lo']
    hi = None if case['hi'] is None else base + case['hi']
    min_len = 2 if case['min_len'] is None else case['min_len']
    full = scenes.by_id(rows)
    want = dict((i, es) for i, es in scenes.by_id(
        scenes.in_range(rows, lo, hi)).items() if len(es) >= min_len)
    cut = any(len(want[i]) < len(full[i]) for i in want)
    ctx.note(fmt, *[c for c, v in [('cut', cut), ('none', not want),
        ('some out', 0 < len(want) < len(full))] if v])
    ctx.nontrivial(cut or 0 < len(want) < len(full))
    kw = {}
    if case['give_fmt']:
        kw['fmt'] = fmt
    if case['min_len'] is not None:
        kw['traj_min_len'] = case['min_len']
    if case['it']:
        kw['iter_allowed'] = True
    where = case['where']
    if where == 'home' and fmt == 'hdf':
        where = 'abs'
    with kept_env():
        with ctx.sut('reading'):
            got = io.trajectories(at(ctx, where, name), lo, hi, 100., **kw)
            got = list(got)
    ids = [int(t.trajid()) for t in got]
    equal(sorted(ids), sorted(want), 'trajectories in range (%s, %s) of min '
        'length %s' % (lo, hi, min_len))
    for t in got:
        es = want[int(t.trajid())]
        same(t.time(), [e[0] for e in es], 'time of %s' % t.trajid())
        for p in ('pos', 'velocity', 'accel'):
            same(getattr(t, p)(), [e[1][p] for e in es],
                '%s of %s' % (p, t.trajid()), 1e-12, 1e-15)


@facet('C11', 'frames', st.fixed_dictionaries(dict(
        film=ptvis.linked_frames(xuap=True), xuap=st.booleans(),
        frate=gen.frame_rates, it=st.booleans(), give_fmt=st.booleans(),
        where=st.sampled_from(['abs', 'rel', 'home', 'rel/sub']),
        min_len=st.sampled_from([None, 1, 2, 3]),
        lo=st.one_of(st.none(), st.integers(0, 3)),
        hi=st.one_of(st.none(), st.integers(3, 9)))), quick=700,
    rule='films in ptv_is and xuap files, through the general function; '
    'non-trivial if at least two trajectories are read')
def frames(case, ctx):
    from flowtracks import io
    film, xuap = case['film'], case['xuap']
    d = ctx.path('sub')
    os.mkdir(d)
    sub = case['where'].endswith('/sub')
    (ptvis.write_xuap_dir if xuap else ptvis.write_ptvis_dir)(film,
        d if sub else ctx.tmp)
    name = ('sub/' if sub else '') + ('xuap.%d' if xuap else 'ptv_is.%d')
    lo, hi = case['lo'], case['hi']
    if lo is not None:
        lo = min(lo, film['nframes'] - 1)
    want = ptvis.expected(film, lo, hi,
        2 if case['min_len'] is None else case['min_len'])
    ctx.note(case['where'], 'xuap' if xuap else 'ptvis')
    ctx.nontrivial(len(want) > 1)
    kw = dict(iter_allowed=True) if case['it'] else {}
    if case['give_fmt']:
        kw['fmt'] = 'xuap' if xuap else 'ptvis'
    with kept_env():
        with ctx.sut('reading'):
            got = list(io.trajectories(
                at(ctx, case['where'].split('/')[0], name),
                None if lo is None else film['first'] + lo,
                None if hi is None else film['first'] + hi, case['frate'],
                traj_min_len=case['min_len'], **kw))
    ptvis.match_trajects(got, [ptvis.expected_arrays(e, case['frate'], xuap)
        for e in want], True, case['frate'])


@facet('C11', 'acc', gen.traj_sets(max_n=8, max_len=6, span=6, gaps=True,
        props=[['accel', 'v3']]), quick=250,
    rule='trajAcc files through the general function, iterator or list; '
    'non-trivial if some are long enough and some are not')
def acc(case, ctx):
    from flowtracks import io
    starts = [tr['t0'] for tr in case['trajs']]
    frames = list(range(min(starts), max(starts) + 1))
    order = oldfmt.write_acc(ctx.tmp, 'trajAcc.%d', case, frames)
    for min_len, it in [(None, False), (3, True)]:
        with ctx.sut('reading'):
            got = list(io.trajectories(ctx.path('trajAcc.%d'), frames[0],
                frames[-1], 1., traj_min_len=min_len, iter_allowed=it))
        want = [case['trajs'][i] for i in order
            if len(case['trajs'][i]['pos']) >= (min_len or 2)]
        ctx.nontrivial(0 < len(want) < len(order))
        equal(len(got), len(want), 'number of trajectories')
        for t, tr in zip(got, want):
            same(t.pos(), gen.arr(tr['pos'], 3), 'pos', 1e-12, 1e-15)
            same(t.time(), gen.times_of(tr),
                'time')


word = st.text(alphabet='abcdeg0_-. %', max_size=6)


@facet('C11', 'infer', st.tuples(word, word, st.sampled_from(
        ['mat', 'npz', 'ptvis', 'txt', 'xuap', 'h5', 'hdf', 'acc'])),
    quick=400,
    rule='names that have exactly one of the marks of formats; non-trivial '
    'all')
def infer(case, ctx):
    from flowtracks import io
    pre, mid, fmt = case
    name = '/d/%s/%s' % (pre.strip('.'), mid)
    # No marks in the random parts: they lack the letters for any of them.
    name = {'mat': name + '.mat', 'npz': name + '/',
        'ptvis': name + 'ptv_is.%d', 'txt': name + '.txt',
        'xuap': name + 'xuap.%d', 'h5': name + '.h5', 'hdf': name + '.hdf',
        'acc': name + 'trajAcc.%d'}[fmt]
    want = {'txt': 'ptvis', 'h5': 'hdf'}.get(fmt, fmt)
    ctx.nontrivial()
    ctx.note(fmt)
    with ctx.sut('infer_format'):
        got = io.infer_format(name)
    equal(got, want, 'format of %r' % name)

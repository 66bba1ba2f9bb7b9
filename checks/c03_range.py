"""C03: frame range and minimal length when reading ptv_is/xuap frames."""
from hypothesis import strategies as st
from harness.core import facet, equal
from harness import ptvis


@st.composite
def ranged(draw):
    xuap = draw(st.integers(0, 3)) == 0
    film = draw(ptvis.linked_frames(max_frames=12, xuap=xuap))
    n = film['nframes']
    lo = draw(st.one_of(st.none(), st.integers(-2, n - 1)))
    hi = draw(st.one_of(st.none(), st.integers(max(lo or 0, 0), n + 2)))
    cuts = [t for t in film['trajs'] if len(t['pos']) > 2
        and not t['goes_on']]
    if cuts and draw(st.booleans()):
        t = draw(st.sampled_from(cuts))
        end = t['start'] + len(t['pos']) - 1
        lo = draw(st.integers(t['start'], end))
        hi = draw(st.one_of(st.none(), st.integers(max(lo, end - 1), n)))
    if draw(st.integers(0, 19)) == 0:
        lo, hi = draw(st.sampled_from([(n, None), (n + 1, n + 3), (-3, -1),
            (None, -1), (2, 1)]))
    return dict(film=film, xuap=xuap, lo=lo, hi=hi,
        min_len=draw(st.sampled_from([None, 0, 1, 2, 2, 3, 3, 4, 5])),
        frate=draw(st.sampled_from([1., 100.])))


@facet('C03', 'select', ranged(), quick=1000,
    rule='films in ptv_is or xuap files, read with a random inclusive range '
    'of frames and minimal length, as a list and as an iterator; non-trivial '
    'if the range or length leaves some trajectories in and others out')
def select(case, ctx):
    from flowtracks import io
    film, xuap = case['film'], case['xuap']
    (ptvis.write_xuap_dir if xuap else ptvis.write_ptvis_dir)(film, ctx.tmp)
    path = ctx.path('xuap.%d' if xuap else 'ptv_is.%d')
    lo, hi = case['lo'], case['hi']
    first = None if lo is None else film['first'] + lo
    last = None if hi is None else film['first'] + hi
    frames = range(max(lo or 0, 0), min(film['nframes'] - 1 if hi is None
        else hi, film['nframes'] - 1) + 1)
    eff = 2 if case['min_len'] is None else case['min_len']
    want = ptvis.expected(film, lo, hi, eff)
    full = ptvis.expected(film, min_len=1)
    cut = any(t['start'] < w[0] for w in want
        for t in [w[2]])
    ctx.note(*[c for c, v in [('start cut', cut), ('xuap', xuap),
        ('some out', 0 < len(want) < len(full)), ('none in', not want),
        ('no frames', not frames), ('last only', hi is not None and lo is None)] if v])
    ctx.nontrivial((0 < len(want) < len(full)) or cut)
    kw = dict(first=first, last=last, frate=case['frate'], xuap=xuap,
        traj_min_len=case['min_len'])
    want = [ptvis.expected_arrays(e, case['frate'], xuap) for e in want]
    with ctx.sut('reading as list'):
        got = io.trajectories_ptvis(path, **kw)
    ptvis.match_trajects(got, want, True, case['frate'])
    with ctx.sut('reading as iterator'):
        it = list(io.iter_trajectories_ptvis(path, **kw))
    ptvis.match_trajects(it, want, True, case['frate'])
    equal([int(t.trajid()) for t in it], [int(t.trajid()) for t in got],
        'ids from the iterator, against those from the list')


@facet('C03', 'files', ranged(), quick=300,
    rule='reading a range against reading a directory where only the frames '
    'of that range exist; non-trivial if some frames are out of range and '
    'some trajectory is read')
def only_files(case, ctx):
    import os
    from flowtracks import io
    film, xuap = case['film'], case['xuap']
    a, b = ctx.path('all'), ctx.path('part')
    os.mkdir(a), os.mkdir(b)
    write = ptvis.write_xuap_dir if xuap else ptvis.write_ptvis_dir
    write(film, a)
    write(film, b)
    tmpl = 'xuap.%d' if xuap else 'ptv_is.%d'
    lo = 0 if case['lo'] is None else max(0, case['lo'])
    hi = film['nframes'] - 1 if case['hi'] is None \
        else min(case['hi'], film['nframes'] - 1)
    for f in range(film['nframes']):
        if not lo <= f <= hi:
            os.remove(os.path.join(b, tmpl % (film['first'] + f)))
    kw = dict(frate=case['frate'], xuap=xuap, traj_min_len=case['min_len'])
    with ctx.sut('reading a range'):
        got = io.trajectories_ptvis(os.path.join(a, tmpl),
            film['first'] + lo, film['first'] + hi, **kw)
    with ctx.sut('reading all files there are'):
        ref = io.trajectories_ptvis(os.path.join(b, tmpl), **kw)
    ctx.nontrivial(len(ref) > 0 and hi - lo + 1 < film['nframes'])
    ptvis.match_trajects(got, [(t.time(), t.pos(), t.velocity(), t.accel())
        for t in ref], True, case['frate'])

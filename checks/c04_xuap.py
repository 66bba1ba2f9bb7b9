"""C04: reading xuap frames."""
from hypothesis import strategies as st
from harness.core import facet
from harness import ptvis
from harness.gen import frame_rates


@facet('C04', 'xuap', st.fixed_dictionaries(dict(
        film=ptvis.linked_frames(xuap=True), frate=frame_rates,
        extra_col=st.booleans(), float_links=st.booleans(),
        front=st.booleans(), min_len=st.sampled_from([None, 1, 2, 3]))),
    quick=900,
    rule='films of linked particles in xuap files, with links written as '
    'integers or floats, with or without a trailing column; non-trivial if '
    'two trajectories end in the film, one of them after three points')
def xuap(case, ctx):
    from flowtracks import io
    film, frate = case['film'], case['frate']
    ptvis.write_xuap_dir(film, ctx.tmp, extra_col=case['extra_col'],
        float_links=case['float_links'])
    min_len = case['min_len']
    want = ptvis.expected(film, min_len=2 if min_len is None else min_len)
    ctx.note(*[c for c in ['extra_col', 'float_links', 'front'] if case[c]])
    ctx.nontrivial(len(want) > 1 and max(len(w[1]) for w in want) > 2)
    path = ctx.path('xuap.%d')
    with ctx.sut('reading'):
        if case['front']:
            got = io.trajectories(path, None, None, frate,
                traj_min_len=min_len)
        else:
            got = io.trajectories_ptvis(path, frate=frate, xuap=True,
                traj_min_len=min_len)
    ptvis.match_trajects(got, [ptvis.expected_arrays(e, frate, True)
        for e in want], True, frate)

"""C05: concatenated ptv_is frames in a single file."""
import os
from hypothesis import strategies as st
from harness.core import facet
from harness import ptvis


@facet('C05', 'concat', st.fixed_dictionaries(dict(
        film=ptvis.linked_frames(first=0), min_len=st.sampled_from([None, 1,
            2, 3]), frate=st.sampled_from([1., 250.]),
        sep=st.sampled_from(['', '', '', ' ', '\t ']),
        end=st.sampled_from(['', '\n', '\n']),
        name=st.sampled_from(['all.txt', 'ptv_is_all', 'run 7.txt']),
        front=st.booleans())),
    quick=700,
    rule='the same film as a directory of frames numbered from 0 and as a '
    'single file of concatenated frames, some of them empty; non-trivial if '
    'two trajectories end in the film, one of them after three points')
def concat(case, ctx):
    from flowtracks import io
    film = case['film']
    if not film['order'][0]:
        ctx.note('first frame empty')
    d = ctx.path('frames')
    os.mkdir(d)
    ptvis.write_ptvis_dir(film, d)
    single = ctx.path(case['name'])
    ptvis.write_ptvis_single(film, single, case['sep'])
    if case['end']:
        with open(single, 'a') as f:
            f.write(case['end'])
    min_len = case['min_len']
    want = ptvis.expected(film, min_len=2 if min_len is None else min_len)
    ctx.note(*[c for c, v in [
        ('blanks in separators', bool(case['sep'])),
        ('empty frame', any(not o for o in film['order'])),
        ('one-row frame', any(len(o) == 1 for o in film['order']))] if v])
    ctx.nontrivial(len(want) > 1 and max(len(w[1]) for w in want) > 2)
    kw = dict(frate=case['frate'], traj_min_len=min_len)
    with ctx.sut('reading the single file'):
        if case['front']:
            got = io.trajectories(single, None, None, **kw)
        else:
            got = io.trajectories_ptvis(single, **kw)
    with ctx.sut('reading the directory'):
        ref = io.trajectories_ptvis(os.path.join(d, 'ptv_is.%d'), **kw)
    arrs = [ptvis.expected_arrays(e, case['frate']) for e in want]
    ptvis.match_trajects(got, arrs, True, case['frate'])
    ptvis.match_trajects(ref, arrs, True, case['frate'])

"""C02: velocity and acceleration derived from ptv_is positions."""
from hypothesis import strategies as st
from harness.core import facet
from harness import ptvis
from harness.gen import frame_rates


@facet('C02', 'motion', st.fixed_dictionaries(dict(
        film=ptvis.linked_frames(), frate=frame_rates,
        front=st.sampled_from(['list', 'iter', 'front', 'front_iter']),
        min_len=st.sampled_from([1, 2, 3]))),
    quick=900,
    rule='films of linked particles in ptv_is files, at several frame rates '
    'and through each of the reading functions; non-trivial if a trajectory '
    'of three or more points ends in the film, and another of another start')
def motion(case, ctx):
    from flowtracks import io
    film, frate = case['film'], case['frate']
    ptvis.write_ptvis_dir(film, ctx.tmp)
    want = ptvis.expected(film, min_len=case['min_len'])
    lens = [len(w[1]) for w in want]
    ctx.note(*['length %s' % (l if l < 5 else '5+') for l in lens])
    ctx.nontrivial(any(l > 2 for l in lens)
        and len(set(w[0] for w in want)) > 1)
    path = ctx.path('ptv_is.%d')
    kw = dict(traj_min_len=case['min_len'])
    if case['front'] in ('list', 'iter') and (frate != 1. or
            case['film']['first'] % 2):
        kw['frate'] = frate     # The default is 1.
    with ctx.sut('reading'):
        if case['front'] == 'list':
            got = io.trajectories_ptvis(path, **kw)
        elif case['front'] == 'iter':
            got = list(io.iter_trajectories_ptvis(path, **kw))
        else:
            got = list(io.trajectories(path, None, None, frate,
                iter_allowed=(case['front'] == 'front_iter'), **kw))
    ptvis.match_trajects(got, [ptvis.expected_arrays(e, frate) for e in want],
        True, frate)

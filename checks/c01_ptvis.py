"""C01: trajectories are rebuilt from linked ptv_is frames."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet
from harness import ptvis


def classes(film, ctx):
    want = ptvis.expected(film, min_len=1)
    overlap = any(
        a['start'] != b['start'] and a['start'] <= b['start'] + len(b['pos'])
        for a in film['trajs'] for b in film['trajs'] if a is not b)
    ctx.note(*[c for c, v in [
        ('several trajectories', len(want) > 1),
        ('single point', any(len(t['pos']) == 1 for t in film['trajs'])),
        ('open at the end', any(t['goes_on'] for t in film['trajs'])),
        ('empty frame', any(not o for o in film['order'])),
        ('rows reordered', any(o != sorted(o) for o in film['order'])),
        ('digits change', len(str(film['first'])) !=
            len(str(ptvis.frame_number(film, film['nframes'] - 1)))),
        ('staggered', overlap)] if v])
    return want


@facet('C01', 'dir', st.fixed_dictionaries(dict(
        film=ptvis.linked_frames(),
        step=st.sampled_from([1, 1, 1, 2, 10]),
        tmpl=st.sampled_from(['ptv_is.%d', 'run.ptv_is.%d', '%d.ptv_is',
            'ptv_is[1].%d', 'ptv_is+%d.x']),
        strays=st.booleans(), min_len=st.sampled_from([None, None, 1, 2]))),
    quick=900,
    rule='films of linked particles written as ptv_is files, with frames '
    'that are empty or have one row, rows in random order, and files that '
    'are not part of the data; non-trivial if at least two trajectories end '
    'in the film, one of them after three points or more')
def read_dir(case, ctx):
    from flowtracks.io import trajectories_ptvis
    film = dict(case['film'], step=case['step'])
    ptvis.write_ptvis_dir(film, ctx.tmp, case['tmpl'])
    if case['strays']:
        # Not frames of this template, although their names resemble them.
        for name in [case['tmpl'] % film['first'] + '.bak', 'x' + case['tmpl']
                % ptvis.frame_number(film, 1), case['tmpl'].replace('%d', ''),
                'ptv_isX%d' % film['first'], 'targets.%d' % film['first']]:
            with open(ctx.path(name), 'w') as f:
                f.write('1\n-1 -2 5 5 5\n')
    want = classes(film, ctx)
    ctx.nontrivial(len(want) > 1 and max(len(w[1]) for w in want) > 2)
    # The default is a minimum of two.
    min_len = case['min_len']
    eff = 2 if min_len is None else min_len
    with ctx.sut('reading'):
        got = trajectories_ptvis(ctx.path(case['tmpl']), traj_min_len=min_len)
    ptvis.match_trajects(got, [ptvis.expected_arrays(e, 1.)
        for e in ptvis.expected(film, min_len=eff)], False)


@facet('C01', 'long', st.fixed_dictionaries(dict(
        film=ptvis.linked_frames(max_traj=25, max_frames=40))), quick=60,
    rule='as dir, with longer films of more particles; non-trivial if at '
    'least two trajectories end in the film, one of them after three points '
    'or more')
def read_long(case, ctx):
    read_dir(dict(film=case['film'], tmpl='ptv_is.%d', strays=False,
        min_len=1, step=1), ctx)


@facet('C01', 'crowded', st.fixed_dictionaries(dict(
        seed=st.integers(0, 2**32 - 1), n=st.sampled_from([300, 33000, 40000,
            66000]), ends=st.lists(st.integers(0, 299), min_size=1, max_size=6,
            unique=True), first=st.sampled_from([0, 99, 10001]))),
    quick=4, thorough=120,
    rule='three frames of up to 66000 particles each, linked in any order, a '
    'few of which end in the second or third, among them those with the '
    'largest link numbers; non-trivial with over 32768 particles')
def crowded(case, ctx):
    from flowtracks.io import trajectories_ptvis
    rng = np.random.default_rng(case['seed'])
    n, frames = case['n'], 3
    pos = np.round(rng.uniform(-200., 200., (frames, n, 3)), 3)
    # where[f][i] is the row of particle i in frame f.
    where = [rng.permutation(n) for f in range(frames)]
    ends = sorted(set(int(w) for e in case['ends'] for w in (n - 1 - e, e)))
    length = dict((i, 2 + k % 2) for k, i in enumerate(ends))
    gone = np.array([i for i in ends if length[i] == 2])
    # Those that end in the second frame leave no hole in the third.
    left = np.setdiff1d(np.arange(n), gone)
    where[2][gone] = -1
    where[2][left] = rng.permutation(len(left))
    for f in range(frames):
        here = np.nonzero(where[f] >= 0)[0]
        rows = where[f][here]
        links = np.empty((len(here), 2), dtype=int)
        links[rows, 0] = where[f - 1][here] if f > 0 else -1
        links[rows, 1] = where[f + 1][here] if f + 1 < frames else 0
        for i in ends:
            if length[i] == f + 1:
                links[where[f][i], 1] = -2
        xyz = np.empty((len(here), 3))
        xyz[rows] = pos[f][here]
        lines = ['%d %d %.3f %.3f %.3f\n' % (a, b, x, y, z)
            for (a, b), (x, y, z) in zip(links.tolist(), xyz.tolist())]
        with open(ctx.path('ptv_is.%d' % (case['first'] + f)), 'w') as out:
            out.write('%d\n' % len(here) + ''.join(lines))
    ctx.nontrivial(n > 32768)
    ctx.note('%d particles' % n)
    with ctx.sut('reading'):
        got = trajectories_ptvis(ctx.path('ptv_is.%d'))
    want = []
    for i in ends:
        p = pos[:length[i], i] / 1000.
        want.append((case['first'] + np.arange(length[i]), p)
            + ptvis.motion(p, 1.))
    ptvis.match_trajects(got, want, False)

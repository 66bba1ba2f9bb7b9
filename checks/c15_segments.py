"""C15: segments are of the particles that continue to the next frame."""
from hypothesis import strategies as st
from harness.core import facet, equal, check
from harness import gen, scenes
from checks.c14_ranges import a_range, shift


@st.composite
def stored(draw):
    return dict(tset=draw(gen.traj_sets(gaps=True, max_n=8, max_len=6,
        span=6)),
        by_frames=draw(st.integers(0, 3)) == 0, rng=draw(a_range(9)))


@facet('C15', 'segments', stored(), quick=900,
    rule='scenes whose trajectories start and end in different frames, with '
    'gaps where no particle exists; non-trivial if some segment has '
    'particles and in some frame a particle ends while another continues')
def segments(case, ctx):
    from flowtracks.scene import Scene
    tset = case['tset']
    kinds = gen.all_kinds(tset)
    fname = ctx.path('scene.h5')
    scenes.write_scene(fname, tset, case['by_frames'])
    rows = gen.model_rows(tset)
    times = scenes.by_time(rows)
    rng = shift(case['rng'], min(times))
    lo, hi = rng or (None, None)
    lo = min(times) if lo is None else lo
    hi = max(times) + 1 if hi is None else hi
    with ctx.sut('iterating segments'):
        scene = Scene(fname, rng)
        got = list(scene.iter_segments())
    equal([f.time() for f, _ in got], list(range(lo, hi - 1)), 'frames')
    mixed = False
    for f, n in got:
        t = f.time()
        a, b = times.get(t, {}), times.get(t + 1, {})
        both = set(a) & set(b)
        mixed |= 0 < len(both) < max(len(a), len(b))
        scenes.cmp_snapshot(f, t, dict((i, a[i]) for i in both), kinds)
        scenes.cmp_snapshot(n, t + 1, dict((i, b[i]) for i in both), kinds,
            'next frame')
        if not case['by_frames']:
            equal([int(i) for i in n.trajid()], [int(i) for i in f.trajid()],
                'particles of frame %s and of the next, in line' % t)
    ctx.note(*[c for c, v in [('mixed', mixed), ('gap', any(t not in times
        for t in range(min(times), max(times)))), ('range',
        rng is not None)] if v])
    ctx.nontrivial(mixed)
    del scene

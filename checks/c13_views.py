"""C13: all the ways to read a Scene agree."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, exact, check
from harness import gen, scenes


@st.composite
def stored(draw):
    return dict(tset=draw(gen.traj_sets(gaps=True, max_n=7, max_len=8,
        max_extra=3, kinds=('f', 'i', 'v3', 'v2', 'b4'))),
        by_frames=draw(st.booleans()))


@facet('C13', 'views', stored(), quick=700,
    rule='scenes saved as trajectories or as frames, read by trajectories, '
    'by id, by frames, by time and by columns; non-trivial if two '
    'trajectories or more share a frame')
def views(case, ctx):
    from flowtracks.scene import Scene
    tset = case['tset']
    kinds = gen.all_kinds(tset)
    fname = ctx.path('scene.h5')
    scenes.write_scene(fname, tset, case['by_frames'])
    rows = gen.model_rows(tset)
    model, times = scenes.by_id(rows), scenes.by_time(rows)
    ctx.note('by_frames' if case['by_frames'] else 'by trajectories')
    ctx.nontrivial(any(len(m) > 1 for m in times.values()))
    with ctx.sut('reading'):
        scene = Scene(fname)
        ids = [int(i) for i in scene.trajectory_ids()]
        trajs = list(scene.iter_trajectories())
        again = list(scene.iter_trajectories())
        single = [scene.trajectory_by_id(i) for i in sorted(model)]
        frames = list(scene.iter_frames())
        by_t = [scene.frame_by_time(t) for t in sorted(times)]
        rng = scene.frame_range()
        keys = list(scene.keys())
        shapes = list(scene.shapes())
    equal(sorted(ids), sorted(model), 'trajectory_ids')
    equal([int(t.trajid()) for t in again], [int(t.trajid()) for t in trajs],
        'order, a second time')
    scenes.unique_match(trajs, model, kinds, 'iter_trajectories')
    for i, tr in zip(sorted(model), single):
        scenes.cmp_traj(tr, i, model[i], kinds, 'by id')
    first, last = min(times), max(times) + 1
    equal((int(rng[0]), int(rng[1])), (first, last), 'frame_range')
    equal([f.time() for f in frames], list(range(first, last)), 'frames')
    for f in frames:
        scenes.cmp_snapshot(f, f.time(), times.get(f.time(), {}), kinds)
    for t, f in zip(sorted(times), by_t):
        scenes.cmp_snapshot(f, t, times[t], kinds, 'frame_by_time')
    equal(sorted(keys), sorted(n for n, _ in kinds), 'keys')
    k = dict(kinds)
    equal(shapes, [(gen.KINDS[k[n]] or (1,))[0] for n in keys], 'shapes')
    cols = ['trajid'] + keys + ['time']
    with ctx.sut('collect'):
        got = scene.collect(cols)
        alone = [scene.collect([n])[0] for n in keys]
    scenes.cmp_collect(got, cols, rows, kinds)
    for n, a in zip(keys, alone):
        exact(a, got[cols.index(n)], 'collect of %s alone' % n)
    del scene

"""C07: HDF files made of frames hold these frames."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, exact, check
from harness import gen, scenes


@st.composite
def frame_lists(draw):
    """Frames with their members, allowing for holes in trajectories."""
    base = draw(gen.first_frames)
    ids = draw(st.lists(gen.traj_ids, min_size=1, max_size=6, unique=True))
    props = draw(gen.extra_props(2))
    frames = []
    gap_ok = draw(st.booleans())
    t = base
    for f in range(draw(st.integers(1, 7))):
        members = draw(st.lists(st.sampled_from(ids), unique=True,
            max_size=len(ids)))
        n = len(members)
        fr = dict(t=t, ids=members, pos=draw(gen.rows(n)),
            velocity=draw(gen.rows(n)))
        for name, kind in props:
            fr[name] = draw(gen.prop_values(kind, n))
        frames.append(fr)
        t += draw(st.integers(1, 3)) if gap_ok else 1
    if not any(fr['ids'] for fr in frames):
        fr = frames[-1]
        fr.update(ids=ids[:1], pos=[[1., 2., 3.]], velocity=[[1., 0., 2.]])
        for name, kind in props:
            fr[name] = draw(gen.prop_values(kind, 1))
    return dict(props=props, frames=frames, as_iter=draw(st.booleans()))


@facet('C07', 'frames', frame_lists(), quick=450,
    rule='lists of frames, some empty, with trajectories that come and go and '
    'vanish for a while; non-trivial if a trajectory has a hole or starts '
    'after the first frame, and there are two frames or more with particles')
def frames(case, ctx):
    from flowtracks import io
    from flowtracks.scene import Scene
    from flowtracks.trajectory import ParticleSnapshot
    props = case['props']
    kinds = [['pos', 'v3'], ['velocity', 'v3']] + props
    snaps, rows, order = [], [], {}
    for fr in case['frames']:
        snaps.append(ParticleSnapshot(time=fr['t'],
            trajid=np.array(fr['ids'], dtype=int),
            **dict((n, gen.prop_array(k, fr[n])) for n, k in kinds)))
        for i, tid in enumerate(fr['ids']):
            rows.append((tid, fr['t'], dict((n, fr[n][i]) for n, _ in kinds)))
        order[fr['t']] = fr['ids']
    fname = ctx.path('frames.h5')
    with ctx.sut('saving'):
        io.save_frames_hdf(fname, iter(snaps) if case['as_iter'] else snaps)
    model, times = scenes.by_id(rows), scenes.by_time(rows)
    hole = any(es[-1][0] - es[0][0] + 1 > len(es) for es in model.values())
    late = any(es[0][0] > min(times) for es in model.values())
    ctx.note(*[c for c, v in [('hole', hole), ('late start', late),
        ('empty frame', any(not f['ids'] for f in case['frames'])),
        ('missing frame', len(case['frames'])
            < case['frames'][-1]['t'] - case['frames'][0]['t'] + 1)] if v])
    ctx.nontrivial(len(times) > 1 and (hole or late))
    with ctx.sut('reading'):
        scene = Scene(fname)
        got = list(scene.iter_frames())
        trajs = list(scene.iter_trajectories())
        tags = scene.trajectory_tags()
        box = scene.bounding_box()
    equal([f.time() for f in got], list(range(min(times), max(times) + 1)),
        'frame times')
    for f in got:
        cur = times.get(f.time(), {})
        scenes.cmp_snapshot(f, f.time(), cur, kinds)
    scenes.unique_match(trajs, model, kinds, 'Scene')
    exact(tags[np.argsort(tags[:, 0])] if tags.ndim == 2 else tags,
        [[i, model[i][0][0], model[i][-1][0]] for i in sorted(model)],
        'bounds (id, first, last)')
    pos = np.array([r[2]['pos'] for r in rows])
    exact(box[0], pos.min(axis=0), 'minimal position')
    exact(box[1], pos.max(axis=0), 'maximal position')
    del scene


@facet('C07', 'copy', gen.traj_sets(max_n=6, max_len=8,
        gaps=True), quick=250,
    rule='a scene saved as trajectories, its frames saved as another file; '
    'both hold the same; non-trivial with two trajectories or more')
def copy(case, ctx):
    from flowtracks import io
    from flowtracks.scene import Scene
    kinds = gen.all_kinds(case)
    a, b = ctx.path('a.h5'), ctx.path('b.h5')
    with ctx.sut('saving and copying'):
        io.save_particles_table(a, gen.make_trajs(case))
        first = Scene(a)
        io.save_frames_hdf(b, first.iter_frames())
        second = Scene(b)
        got = list(second.iter_trajectories())
    ctx.nontrivial(len(case['trajs']) > 1)
    scenes.unique_match(got, scenes.by_id(gen.model_rows(case)), kinds,
        'copied scene')
    del first, second

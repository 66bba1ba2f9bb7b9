"""C17: metadata of a scene: bounding box, trajectory tags, columns."""
import numpy as np
import tables
from hypothesis import strategies as st
from harness.core import facet, equal, exact, check
from harness import gen, scenes


@facet('C17', 'metadata', st.fixed_dictionaries(dict(
        tset=gen.traj_sets(gaps=True, max_n=6, max_len=7, max_extra=3,
            scale=3., kinds=('f', 'i', 'v3', 'v2', 'b4')),
        shift=st.sampled_from([0., 10., -10., 1e4]),
        kind=st.sampled_from(['trajectories', 'frames', 'bare']),
        trim=st.integers(0, 2))), quick=700,
    rule='scenes saved as trajectories (trimmed or not), as frames, or as a '
    'bare table; all positions may be of one sign; non-trivial with two '
    'trajectories or more of different spans')
def metadata(case, ctx):
    from flowtracks import io
    from flowtracks.scene import Scene
    tset = case['tset']
    for tr in tset['trajs']:
        tr['pos'] = [[v + case['shift'] for v in r] for r in tr['pos']]
    kinds = gen.all_kinds(tset)
    fname = ctx.path('scene.h5')
    rows = gen.model_rows(tset)
    trim = case['trim']
    if case['kind'] == 'trajectories' and trim > 0 and any(
            len(tr['pos']) > 2 * trim for tr in tset['trajs']):
        with ctx.sut('saving'):
            io.save_particles_table(fname, gen.make_trajs(tset), trim)
        rows = []
        for tr in tset['trajs']:
            n = len(tr['pos'])
            rows += gen.model_rows(dict(props=tset['props'],
                trajs=[tr]))[trim:max(trim, n - trim)]
        ctx.note('trimmed')
    elif case['kind'] == 'bare':
        # Not made by the library: only the table of particles.
        dt = np.dtype([('trajid', int), ('time', int)] + [(n,
            int if k == 'i' else float, gen.KINDS[k]) for n, k in kinds])
        arr = np.empty(len(rows), dtype=dt)
        arr['trajid'] = [r[0] for r in rows]
        arr['time'] = [r[1] for r in rows]
        for n, k in kinds:
            arr[n] = scenes.col(k, [r[2] for r in rows], n)
        with tables.open_file(fname, 'w') as f:
            f.create_table('/', 'particles', arr)
    else:
        with ctx.sut('saving'):
            scenes.write_scene(fname, tset, case['kind'] == 'frames')
    model = scenes.by_id(rows)
    ctx.note(case['kind'])
    ctx.nontrivial(len(set((es[0][0], es[-1][0])
        for es in model.values())) > 1)
    with ctx.sut('reading'):
        scene = Scene(fname)
        box = scene.bounding_box()
        ids = scene.trajectory_ids()
        keys, shapes = list(scene.keys()), list(scene.shapes())
        rng = scene.frame_range()
    pos = np.array([r[2]['pos'] for r in rows])
    exact(box[0], pos.min(axis=0), 'minimal position')
    exact(box[1], pos.max(axis=0), 'maximal position')
    equal(sorted(int(i) for i in ids), sorted(model), 'trajectory_ids')
    equal(sorted(keys), sorted(n for n, _ in kinds), 'keys')
    equal(shapes, [(gen.KINDS[dict(kinds)[n]] or (1,))[0] for n in keys],
        'shapes, in the order of keys')
    t = [r[1] for r in rows]
    equal((int(rng[0]), int(rng[1])), (min(t), max(t) + 1), 'frame_range')
    if case['kind'] != 'bare':
        with ctx.sut('trajectory_tags'):
            tags = np.asarray(scene.trajectory_tags())
        check(tags.shape == (len(model), 3), 'shape of tags: %s', tags.shape)
        equal(sorted(tuple(int(v) for v in r) for r in tags),
            sorted((i, es[0][0], es[-1][0]) for i, es in model.items()),
            'trajectory tags (id, first, last)')
    del scene

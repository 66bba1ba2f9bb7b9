"""C06: HDF particle tables hold the trajectories saved in them."""
import tables
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, exact, check
from harness import gen, scenes


@st.composite
def saved(draw):
    tset = draw(gen.traj_sets(max_n=6, max_len=9, gaps=True,
        kinds=('f', 'i', 'v3', 'v2', 'b4')))
    longest = max(len(t['pos']) for t in tset['trajs'])
    trim = draw(st.one_of(st.none(), st.integers(0, (longest - 1) // 2)))
    return dict(tset=tset, trim=trim, float_time=draw(st.booleans()),
        over=draw(st.booleans()), lo=draw(st.one_of(st.none(),
            st.integers(-1, 18))), hi=draw(st.one_of(st.none(),
            st.integers(-1, 18))))


def trimmed(tset, trim):
    trim = trim or 0
    rows = []
    for tr in tset['trajs']:
        n = len(tr['pos'])
        sub = gen.model_rows(dict(props=tset['props'], trajs=[tr]))
        if n - 2 * trim > 0:
            rows.extend(sub[trim:n - trim])
    return rows


@facet('C06', 'table', saved(), quick=450,
    rule='sets of trajectories with scalar and vector properties of integers '
    'and floats, saved with several trims and read by each of the readers; '
    'non-trivial with two or more trajectories saved, and either a trim that '
    'shortens them or a range that does when reading')
def table(case, ctx):
    from flowtracks import io
    from flowtracks.scene import Scene
    tset, trim = case['tset'], case['trim']
    kinds = gen.all_kinds(tset)
    trajs = gen.make_trajs(tset, case['float_time'])
    before = [dict((k, v.copy()) for k, v in t.as_dict().items())
        for t in trajs]
    fname = ctx.path('scene.h5')
    if case['over']:
        # Replaced by the next.
        with ctx.sut('saving the first time'):
            io.save_particles_table(fname, trajs[::-1])
    with ctx.sut('saving'):
        if trim is None:
            io.save_particles_table(fname, trajs)
        else:
            io.save_particles_table(fname, trajs, trim)
    for t, old in zip(trajs, before):
        for k, v in old.items():
            exact(t.as_dict()[k], v, 'saved trajectory changed: ' + k)
    rows = trimmed(tset, trim)
    model = scenes.by_id(rows)
    times = [r[1] for r in rows]
    ctx.note(*[c for c, v in [
        ('trimmed away', len(model) < len(tset['trajs'])),
        ('trim', bool(trim)), ('extra properties', bool(tset['props'])),
        ('range', case['lo'] is not None or case['hi'] is not None)] if v])
    ctx.nontrivial(len(model) > 1 and (bool(trim)
        or case['lo'] is not None or case['hi'] is not None))

    with ctx.sut('trajectories_table'):
        got = io.trajectories_table(fname)
    scenes.unique_match(got, model, kinds, 'trajectories_table')
    for t in got:
        for n, k in kinds:
            check((getattr(t, n)().dtype.kind == 'i') == (k == 'i'),
                'property %s has type %s', n, getattr(t, n)().dtype)

    base = min(times)
    lo = None if case['lo'] is None else base + case['lo']
    hi = None if case['hi'] is None else base + case['hi']
    part = scenes.by_id(scenes.in_range(rows, lo, hi))
    with ctx.sut('trajectories_table in range'):
        got = io.trajectories_table(fname, lo, hi)
    for t in got:
        check(len(t) > 0 or int(t.trajid()) in model, 'unknown trajectory %s',
            t.trajid())
    scenes.unique_match([t for t in got if len(t) > 0], part, kinds,
        'trajectories_table(%s, %s)' % (lo, hi))

    with ctx.sut('Scene'):
        scene = Scene(fname)
        got = list(scene.iter_trajectories())
        tags = scene.trajectory_tags()
    scenes.unique_match(got, model, kinds, 'Scene')
    exact(tags[np.argsort(tags[:, 0])] if tags.ndim == 2 else tags,
        [[i, model[i][0][0], model[i][-1][0]] for i in sorted(model)],
        'bounds (id, first, last)')
    del scene

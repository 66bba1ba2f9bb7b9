"""C21: snapshots of trajectories."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, exact, check
from harness import gen, scenes


@st.composite
def snap_cases(draw):
    tset = draw(gen.traj_sets(max_n=8, max_len=6, span=5, max_extra=3))
    if draw(st.booleans()):
        tset = draw(gen.shared_positions(tset, 4))
    return dict(tset=tset, frame=draw(gen.frames_of(tset)),
        segs=draw(st.booleans()), times=draw(st.booleans()),
        float_time=draw(st.booleans()), drop=draw(st.booleans()),
        far=draw(st.booleans()))


@facet('C21', 'frame', snap_cases(), quick=1800,
    rule='trajectories of which some are active in a frame, and some of '
    'those share a position; non-trivial if at least two are active, and one '
    'is not or shares its position')
def frame(case, ctx):
    from flowtracks.trajectory import trajectories_in_frame, take_snapshot
    tset, t, segs = case['tset'], case['frame'], case['segs']
    kinds = gen.all_kinds(tset)
    trajs = gen.make_trajs(tset, case['float_time'])
    act = []
    for i, tr in enumerate(tset['trajs']):
        k = t - tr['t0']
        if 0 <= k and k + (1 if segs else 0) < len(tr['pos']):
            act.append((i, k))
    where = dict((i, tuple(tset['trajs'][i]['pos'][k])) for i, k in act)
    kw = {}
    if case['times']:
        kw = dict(start_times=np.array([tr['t0'] for tr in tset['trajs']]),
            end_times=np.array([tr['t0'] + len(tr['pos']) - 1
                for tr in tset['trajs']]))
    if segs:
        kw['segs'] = True
    with ctx.sut('trajectories_in_frame'):
        ixs = trajectories_in_frame(trajs, t, **kw)
        ixs = [int(i) for i in np.asarray(ixs)]
    shared = len(set(where.values())) < len(where)
    ctx.note(*[c for c, v in [('shared', shared), ('none', not act),
        ('segs', segs), ('given times', case['times'])] if v])
    ctx.nontrivial(len(act) > 1 and (shared or len(act) < len(trajs)))
    check(set(ixs) <= set(where), 'in frame %s: %s, active are %s', t, ixs,
        sorted(where))
    equal(len(set(ixs)), len(ixs), 'number of different trajectories')
    equal(sorted(where[i] for i in ixs), sorted(set(where.values())),
        'positions of trajectories in frame')

    schema = trajs[0].schema()
    if case['drop']:
        schema = dict((k, v) for k, v in schema.items() if k in ('pos',
            'velocity', 'time'))
        kinds = [k for k in kinds if k[0] in ('pos', 'velocity')]
    chosen = [trajs[i] for i in ixs]
    with ctx.sut('take_snapshot'):
        snap = take_snapshot(chosen, t, schema)
    members = {}
    for i in ixs:
        tr = tset['trajs'][i]
        members[tr['id']] = dict((n, tr[n][t - tr['t0']]) for n, _ in kinds)
    scenes.cmp_snapshot(snap, t, members, kinds, 'snapshot',
        [tset['trajs'][i]['id'] for i in ixs])
    if ixs:
        for n, k in kinds:
            equal(getattr(snap, n)().dtype.kind, 'i' if k == 'i' else 'f',
                'type of %s' % n)


@facet('C21', 'empty', st.tuples(gen.extra_props(3), st.integers(0, 500)),
    quick=150, rule='no trajectories at all; non-trivial with properties')
def empty(case, ctx):
    from flowtracks.trajectory import trajectories_in_frame, take_snapshot
    props, t = case
    kinds = [['pos', 'v3'], ['velocity', 'v3']] + props
    with ctx.sut('empty snapshot'):
        ixs = trajectories_in_frame([], t)
        snap = take_snapshot([], t, dict((n, gen.KINDS[k])
            for n, k in kinds))
    ctx.nontrivial(len(props) > 0)
    equal(len(ixs), 0, 'trajectories in frame')
    scenes.cmp_snapshot(snap, t, {}, kinds, 'empty snapshot')


@facet('C21', 'unique', st.integers(0, 8).flatmap(lambda n: st.tuples(
        gen.rows(n, 2), st.lists(st.integers(0, 7), max_size=6),
        st.integers(0, 3), st.integers(0, 2), st.booleans())), quick=800,
    rule='tables of rows some of which repeat a position; non-trivial if '
    'some repeat and some do not')
def unique(case, ctx):
    from flowtracks.trajectory import mark_unique_rows
    xy, repeats, extra, const, near = case
    rows = [r[:const] + [0.25] + r[const:] for r in xy]
    rows += [list(rows[i % len(rows)]) for i in repeats if rows]
    if near and rows: # and one close to another, but not a repeat.
        rows.append([v + 1e-10 for v in rows[0]])
    table = np.hstack((gen.arr(rows, 3),
        np.arange(len(rows) * extra, dtype=float).reshape(len(rows), extra)))
    with ctx.sut('mark_unique_rows'):
        got = [int(i) for i in mark_unique_rows(table.copy())]
    pos = [tuple(r) for r in rows]
    ctx.nontrivial(1 < len(set(pos)) < len(pos))
    check(all(0 <= i < len(pos) for i in got), 'indices: %s', got)
    equal(sorted(pos[i] for i in got), sorted(set(pos)), 'positions marked')

"""C08: directories of NPZ files hold the trajectories saved in them."""
import os
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, exact, check
from harness import gen, scenes

ADD_NAMES = ['recon', 'pos', 'time', 'trajid', 'accel', 'traj', 'x:y']


@st.composite
def saved(draw):
    tset = draw(gen.traj_sets(min_n=1, max_n=6, max_len=7, gaps=True))
    adds = {}
    for name in draw(st.lists(st.sampled_from(ADD_NAMES), max_size=3,
            unique=True)):
        adds[name] = [draw(gen.rows(draw(st.integers(0, 4))))
            for _ in tset['trajs']]
    free = dict((n, draw(gen.reals(draw(st.integers(0, 5)))))
        for n in draw(st.lists(st.sampled_from(['times', 'corr', 'traj_x']),
            max_size=2, unique=True)))
    lim = st.one_of(st.none(), st.integers(-1, 16))
    return dict(tset=tset, adds=adds, free=free, lo=draw(lim), hi=draw(lim),
        depth=draw(st.integers(0, 2)), float_time=draw(st.booleans()),
        twice=draw(st.booleans()))


@facet('C08', 'npz', saved(), quick=900,
    rule='sets of trajectories saved with additional arrays, some having the '
    'names of properties, then read whole and over an inclusive range; '
    'non-trivial with two trajectories and an added array or a range')
def npz(case, ctx):
    from flowtracks import io
    tset = case['tset']
    kinds = gen.all_kinds(tset)
    trajs = gen.make_trajs(tset, case['float_time'])
    out = ctx.path(*['out%d' % i for i in range(case['depth'])]) \
        if case['depth'] else ctx.tmp
    adds = dict((name, dict((tr['id'], gen.arr(v, 3))
        for tr, v in zip(tset['trajs'], vals)))
        for name, vals in case['adds'].items())
    free = dict((n, np.array(v)) for n, v in case['free'].items())
    with ctx.sut('saving'):
        if case['twice']:
            io.save_trajectories(out, trajs, {})
        io.save_trajectories(out, trajs, adds, **free)
    rows = gen.model_rows(tset)
    for n, v in free.items():
        check(os.path.exists(os.path.join(out, n + '.npy')),
            'array %s not saved', n)
        exact(np.load(os.path.join(out, n + '.npy')), v, 'array ' + n)
    base = min(r[1] for r in rows)
    lo = None if case['lo'] is None else base + case['lo']
    hi = None if case['hi'] is None else base + case['hi']
    ranged = lo is not None or hi is not None
    ctx.note(*[c for c, v in [('range', ranged), ('adds', bool(adds))] if v])
    ctx.nontrivial(len(trajs) > 1 and (ranged or bool(adds)))
    for a, b in [(None, None), (lo, hi)]:
        with ctx.sut('loading'):
            if a is None and b is None:
                got, got_adds = io.load_trajectories(out)
            else:
                got, got_adds = io.load_trajectories(out, a, b)
        want = scenes.by_id(scenes.in_range(rows, a, b))
        scenes.unique_match(got, want, kinds, 'load(%s, %s)' % (a, b))
        equal(set(got_adds), set(adds), 'names of added arrays')
        for name in adds:
            for tid in want:
                check(tid in got_adds[name], 'added %s missing for %s', name,
                    tid)
                exact(got_adds[name][tid], adds[name][tid],
                    'added %s of %s' % (name, tid))
            check(set(got_adds[name]) <= set(adds[name]),
                'added %s for unknown trajectories: %s', name,
                list(got_adds[name]))

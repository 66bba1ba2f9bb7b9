"""C16: conditional collection from a Scene."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, exact, check
from harness import gen, scenes
from checks.c14_ranges import a_range, shift


def holds(v, cond):
    lo, hi, inv = cond
    return (v < lo or v >= hi) if inv else (lo <= v < hi)


@st.composite
def queries(draw):
    names = draw(st.lists(st.sampled_from(gen.EXTRA_NAMES), min_size=1,
        max_size=3, unique=True))
    props = [[n, draw(st.sampled_from(['f', 'i', 'v3', 'f']))]
        for n in names]
    tset = draw(gen.traj_sets(gaps=True, min_n=2, max_n=6, min_len=2,
        max_len=7, span=5, props=props))
    # Fine values, so that precision of the limits matters.
    if draw(st.booleans()):
        eps = draw(st.sampled_from([1e-9, 1e-7, 1e-12]))
        for tr in tset['trajs']:
            for n, k in props:
                if k == 'f':
                    tr[n] = [v * eps + 1.5 for v in tr[n]]
    rows = gen.model_rows(tset)
    scalars = [n for n, k in props if k in 'fi'] + ['time', 'trajid']
    where = {}
    for n in draw(st.lists(st.sampled_from(scalars), max_size=3,
            min_size=draw(st.sampled_from([0, 1, 1, 1, 1])), unique=True)):
        vals = [r[1] if n == 'time' else r[0] if n == 'trajid' else r[2][n]
            for r in rows]
        lim = st.one_of(st.sampled_from(vals), st.sampled_from(vals),
            st.sampled_from([0, -1, 1, -0.5, 1e-5, 12345.678, 1e6]),
            st.sampled_from([-np.inf, np.inf]))
        lo, hi = draw(lim), draw(lim)
        if lo == hi and draw(st.booleans()):
            hi = max(vals)
            lo = min(vals)
        if lo > hi and (draw(st.integers(0, 5)) > 0 or np.isinf([lo,
                hi]).any()):
            lo, hi = hi, lo
        if np.isinf(lo) and lo == hi: # is no range.
            lo = -hi
            lo, hi = min(lo, hi), max(lo, hi)
        where[n] = [lo, hi, draw(st.booleans())]
    keys = draw(st.lists(st.sampled_from([n for n, _ in props]
        + ['pos', 'velocity', 'time', 'trajid']), min_size=1, max_size=4,
        unique=True))
    if draw(st.integers(0, 5)) == 0: # a column twice.
        keys.append(keys[0])
    return dict(tset=tset, where=where, keys=keys,
        rng=draw(st.one_of(st.none(), a_range(9))),
        all_keys=draw(st.booleans()), by_frames=draw(st.booleans()))


@facet('C16', 'collect', queries(), quick=900,
    rule='up to three conditions on scalar columns, with limits that are '
    'values in the data or not, inverted or not, on scenes with or without a '
    'frame range; non-trivial if conditions leave some rows in and some out')
def collect(case, ctx):
    from flowtracks.scene import Scene
    tset = case['tset']
    kinds = gen.all_kinds(tset)
    fname = ctx.path('scene.h5')
    scenes.write_scene(fname, tset, case['by_frames'])
    rows = gen.model_rows(tset)
    rng = shift(case['rng'], min(r[1] for r in rows))
    lo, hi = rng or (None, None)
    rows = [r for r in rows if (lo is None or r[1] >= lo)
        and (hi is None or r[1] < hi)]
    want = [r for r in rows if all(holds(r[1] if n == 'time' else r[0]
        if n == 'trajid' else r[2][n], c) for n, c in case['where'].items())]
    keys = case['keys']
    if case['all_keys']:
        keys = keys + [k for k in ('trajid', 'time') if k not in keys]
    ctx.note(*[c for c, v in [('%d conditions' % len(case['where']), True),
        ('range', rng is not None), ('inverted', any(c[2]
        for c in case['where'].values())), ('single key', len(keys) == 1)]
        if v])
    ctx.nontrivial(0 < len(want) < len(rows))
    where = dict((k, tuple(v)) for k, v in case['where'].items())
    with ctx.sut('collect(%s, %s)' % (keys, where)):
        scene = Scene(fname, rng)
        if where:
            got = scene.collect(list(keys), where)
        else:
            got = scene.collect(list(keys))
    scenes.cmp_collect(got, keys, want, kinds,
        'collect where %s in %s' % (where, rng))
    del scene


@facet('C16', 'query', st.tuples(st.sampled_from(['x', 'temp']),
        st.one_of(st.integers(-10**6, 10**6), st.floats(-1e6, 1e6),
            st.floats(-1e-3, 1e-3), st.just(-np.inf)),
        st.one_of(st.integers(-10**6, 10**6), st.floats(-1e6, 1e6),
            st.floats(-1e-3, 1e-3), st.just(np.inf)),
        st.booleans()), quick=1500,
    rule='query strings of two limits, evaluated on the limits, their '
    'neighbouring floats and midpoint; non-trivial if the limits differ')
def query(case, ctx):
    from flowtracks.scene import gen_query_string
    key, lo, hi, inv = case
    ctx.nontrivial(lo != hi)
    with ctx.sut('gen_query_string'):
        s = gen_query_string(key, (lo, hi, inv))
    vals = [v for lim in (float(lo), float(hi)) for v in
        (lim, np.nextafter(lim, -np.inf), np.nextafter(lim, np.inf))]
    vals += [(lo + hi) / 2., lo - 1., hi + 1., 0., -1e300, 1e300]
    vals = [v for v in vals if np.isfinite(v)]
    for v in vals:
        got = eval(s, {'__builtins__': {}}, {key: np.array([v])})
        equal(bool(got[0]), bool(holds(v, (lo, hi, inv))),
            '%s for %r' % (s, v))

"""C35: analysed scenes: particles together with their analysis."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact
from harness import duals, gen, scenes
from checks.c16_where import holds


@st.composite
def cases(draw):
    case = draw(duals.duals(companions=False, gaps=True))
    # Possibly analysed over a range different from the scene's.
    case['arng'] = None
    if draw(st.integers(0, 3)) == 0:
        lo, hi = case['rng']
        a = draw(st.integers(lo - 1, hi))
        case['arng'] = [a, draw(st.integers(a, hi + 2))]
    segs = analysed_segments(case)
    rows = [(i, s[0], dict(s[1][i], trajid=i, time=s[0], **vals))
        for s in segs for i, vals in duals.analysed(s).items()]
    kinds = dict(case['parts']['props'])
    scal = [n for n, k in kinds.items() if k in 'fi'] + ['code', 'crowd',
        'time', 'trajid']
    queries = []
    for _ in range(draw(st.integers(1, 3))):
        keys = draw(st.lists(st.sampled_from(['pos', 'velocity', 'disp',
            'code', 'crowd', 'pair', 'code', 'disp'] + list(kinds)),
            min_size=1, max_size=4, unique=True))
        if draw(st.integers(0, 5)) == 0: # a column twice.
            keys.append(keys[0])
        where = {}
        for n in draw(st.lists(st.sampled_from(scal), max_size=3,
                unique=True)):
            vals = [r[2][n] for r in rows] or [0]
            lim = st.sampled_from(vals + [0, 1, -0.5, 10**6])
            lo, hi = draw(lim), draw(lim)
            # No limit on a side.
            lo, hi = draw(st.sampled_from([[lo, hi]] * 6 + [[-np.inf, hi],
                [lo, np.inf], [-np.inf, np.inf]]))
            if lo > hi and draw(st.integers(0, 5)):
                lo, hi = hi, lo
            where[n] = [lo, hi, draw(st.booleans())]
        queries.append([keys, where])
    return dict(case, queries=queries)


def analysed_segments(case):
    """Segments that were analysed, and start in the range of the scene."""
    return [s for s in duals.segments(case, case['arng'] or case['rng'])
        if case['rng'][0] <= s[0] < case['rng'][1]]


def analyse(case, ctx):
    from flowtracks.scene import read_dual_scene
    from flowtracks.analysis import analysis
    from flowtracks.an_scene import AnalysedScene
    conf = duals.write(case, ctx)
    scene = read_dual_scene(conf)
    analysis(scene, ctx.path('a.h5'), conf, duals.analysers(),
        *[] if case['arng'] is None else [tuple(case['arng'])])
    del scene
    return AnalysedScene(ctx.path('a.h5'))


@facet('C35', 'collect', cases(), quick=300,
    rule='columns of particles and of their analysis, collected together '
    'with up to three conditions of any of them; non-trivial if the '
    'conditions leave some rows in and some out')
def collect(case, ctx):
    segs = analysed_segments(case)
    kinds = gen.all_kinds(case['parts']) + duals.AN_KINDS
    with ctx.sut('opening an analysed scene'):
        sc = analyse(case, ctx)
        keys, shapes = list(sc.keys()), list(sc.shapes())
    shapes = dict(zip(keys, [int(s) for s in shapes]))
    equal(sorted(keys), sorted(k for k, _ in kinds), 'keys')
    equal(shapes, dict((k, (gen.KINDS[kd] + (1,))[0]) for k, kd in kinds),
        'shapes')
    rows = []
    for s in segs:
        an = duals.analysed(s)
        for i, v in s[1].items():
            rows.append((i, s[0], dict(v, **an[i])))
    for keys, where in case['queries']:
        cond = dict((k, tuple(c)) for k, c in where.items())
        want = [r for r in rows if all(holds(r[1] if n == 'time' else r[0]
            if n == 'trajid' else r[2][n], c) for n, c in where.items())]
        ctx.nontrivial(0 < len(want) < len(rows))
        ctx.note('%d conditions' % len(where))
        with ctx.sut('collect(%s, %s)' % (keys, cond)):
            got = sc.collect(list(keys), cond) if cond \
                else sc.collect(list(keys))
            ident = sc.collect(['trajid', 'time'] + list(keys), cond or None)
        what = 'collect(%s)' % cond
        equal(len(got), len(keys), what + ': number of arrays')
        loose_collect(ident, ['trajid', 'time'] + keys, want, kinds, what)
        for k, a, b in zip(keys, got, ident[2:]):
            exact(a, b, '%s: %s with and without ids' % (what, k))
    del sc


def loose_collect(got, keys, rows, kinds, what):
    """As scenes.cmp_collect, for values that are subject to rounding."""
    cols = dict(zip(keys, [np.asarray(g) for g in got]))
    have = [(int(i), int(t)) for i, t in zip(cols['trajid'], cols['time'])]
    model = dict(((r[0], r[1]), r[2]) for r in rows)
    equal(sorted(have), sorted(model), what + ': rows')
    for k in keys[2:]:
        same(cols[k], gen.prop_array(dict(kinds)[k], [model[h][k]
            for h in have]), '%s: %s' % (what, k), 1e-12)


@facet('C35', 'trajectories', cases(), quick=300,
    rule='trajectories of the particles with their analysis, one by one and '
    'by iteration; non-trivial with two trajectories in range')
def trajectories(case, ctx):
    segs = analysed_segments(case)
    an = dict(((i, s[0]), v) for s in segs
        for i, v in duals.analysed(s).items())
    lo, hi = case['rng']
    rows = [r for r in gen.model_rows(case['parts']) if lo <= r[1] < hi]
    trajs = scenes.by_id(rows)
    ctx.nontrivial(len(trajs) > 1)
    with ctx.sut('iterating an analysed scene'):
        sc = analyse(case, ctx)
        got = list(sc.iter_trajectories())
        single = [sc.trajectory_by_id(i) for i in trajs]
    in_file = set(int(t.trajid()) for t in got)
    equal(len(in_file), len(got), 'number of trajectories')
    check(set(trajs) <= in_file <= set(t['id'] for t in
        case['parts']['trajs']), 'trajectories %s, should be %s', in_file,
        sorted(trajs))
    names = set(n for n, _ in gen.all_kinds(case['parts'])
        + duals.AN_KINDS) | set(['time'])
    for tr in got + single:
        i = int(tr.trajid())
        if i not in trajs:
            equal(len(tr), 0, 'length of trajectory %d' % i)
            continue
        # The last has no next, there may be others without one.
        entries = [e for e in trajs[i] if (i, e[0]) in an]
        if len(entries) != len(trajs[i]) - 1:
            ctx.note('gaps' if case['arng'] is None else 'own range')
        what = 'trajectory %d ' % i
        equal(len(tr), len(entries), what + 'length')
        exact(tr.time(), [t for t, _ in entries], what + 'time')
        equal(set(tr.as_dict()), names, what + 'properties')
        for n, k in gen.all_kinds(case['parts']):
            exact(getattr(tr, n)(), scenes.col(k, [v for _, v in entries],
                n), what + n)
        for n, k in duals.AN_KINDS:
            same(getattr(tr, n)(), scenes.col(k, [an[i, t]
                for t, _ in entries], n), what + n, 1e-12)
    del sc

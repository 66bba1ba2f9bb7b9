"""
Large cases for the properties themselves. C46 has more of them, of several
properties together.
"""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet
from harness import gen, large, oldfmt
from checks import c46_many_rows as many
from checks import (c03_range, c08_npz, c09_mat, c10_acc, c12_collect,
    c21_snapshots, c25_neighbours, c27_jacobian, c29_rbf, c30_corrfun,
    c37_savgol, c39_graphics)


def of(pid, strategy, func, rule, quick=4, **kw):
    facet(pid, 'large', strategy.map(lambda c: dict(c, **dict((k,
        v[c['p']['seed'] % len(v)]) for k, v in kw.items()))), quick=quick,
        thorough=40 * quick, rule='as in C46: ' + rule)(func)


SCENES = 'scenes of up to 250 trajectories; non-trivial with over 1000 rows'
of('C06', many.scene_cases(), many.read_scenes, SCENES, which=['table'])
of('C07', many.scene_cases(), many.read_scenes, SCENES, which=['copy',
    'frames'])
of('C13', many.scene_cases(), many.read_scenes, SCENES, which=['views'])
of('C15', many.scene_cases(), many.read_scenes, SCENES, which=['segments'])
of('C16', many.query_cases(), many.collect, 'conditions on columns of such '
    'scenes; non-trivial with over 1000 rows and a condition', 6)
of('C14', many.history_cases(), many.ranges, SCENES)
DUALS = 'pairs of such scenes; non-trivial with over 1000 rows of tracers'
of('C18', many.dual_cases(), many.dual, DUALS, which=['dual'])
of('C33', many.dual_cases(), many.dual, DUALS, which=['table'])
of('C34', many.dual_cases(), many.dual, DUALS, which=['fluid'])
of('C35', many.dual_cases(), many.dual, DUALS, which=['collect',
    'trajectories'])
FILMS = 'films of up to 300 trajectories; non-trivial with over 1000 rows'
of('C01', many.film_cases(), many.films, FILMS, which=['dir'])
of('C02', many.film_cases(), many.films, FILMS, which=['single'])
of('C04', many.film_cases(), many.films, FILMS, which=['xuap'])
of('C05', many.film_cases(), many.films, FILMS, which=['single'])
SEQS = 'sequences of such databases; non-trivial with over 1000 rows'
of('C22', many.seq_cases(), many.sequences, SEQS, map=[False])
of('C23', many.seq_cases(), many.sequences, SEQS, map=[True])
FIELDS = 'up to 400 tracers; non-trivial with over 100'
of('C25', many.field_cases(), many.field, FIELDS, 6, which=['select',
    'scene'])
of('C26', many.field_cases(), many.field, FIELDS, 6, which=['values'])
of('C27', many.field_cases(), many.field, FIELDS, 6, which=['analytic'])
of('C38', many.pair_cases(), many.pairs, 'pairs of up to 150 trajectories; '
    'non-trivial with over 1000 rows')


def outcome(ctx, rows, least=1000):
    ctx.classes.clear()
    ctx.is_nontrivial = rows > least


@st.composite
def ranges(draw):
    p = draw(large.params(lo=20, hi=200, lens=(10, 50), spans=(10, 80)))
    lo = draw(st.one_of(st.none(), st.integers(-2, 60)))
    hi = draw(st.one_of(st.none(), st.integers(max(lo or 0, 0), 90)))
    return dict(p=p, lo=lo, hi=hi, xuap=draw(st.booleans()),
        min_len=draw(st.sampled_from([None, 1, 3, 10, 20])))


@facet('C03', 'large', ranges(), quick=4, thorough=160, rule='films of up to '
    '200 trajectories over up to 80 frames; non-trivial with over 1000 rows')
def range_of_film(case, ctx):
    film = large.film(case['p'], case['xuap'])
    c03_range.select(dict(case, film=film, frate=100.), ctx)
    outcome(ctx, many.num_rows(film))


@st.composite
def sets(draw, **kw):
    return dict(p=draw(large.params(**kw)), lo=draw(st.one_of(st.none(),
        st.integers(-1, 80))), hi=draw(st.one_of(st.none(), st.integers(-1,
        80))), frame=draw(st.integers(0, 80)), flag=draw(st.booleans()),
        other=draw(st.booleans()))


def a_set(case, gaps=None, **kw):
    rng = np.random.default_rng(case['p']['seed'])
    return large.traj_set(dict(case['p'], **kw), rng, gaps=gaps)


@facet('C08', 'large', sets(hi=120), quick=4, thorough=160, rule='up to 120 '
    'trajectories; non-trivial with over 1000 rows')
def npz(case, ctx):
    tset = a_set(case)
    c08_npz.npz(dict(tset=tset, adds={}, free={}, lo=case['lo'],
        hi=case['hi'], depth=1, float_time=case['flag'], twice=False), ctx)
    outcome(ctx, many.num_rows(tset))


@facet('C09', 'large', sets(), quick=4, thorough=160, rule='up to 250 '
    'trajectories; non-trivial with over 1000 rows')
def mat(case, ctx):
    tset = a_set(case, props=[['accel', 'v3']])
    c09_mat.mat(dict(tset=tset, name='traj', directory=case['flag'],
        front=case['other']), ctx)
    outcome(ctx, many.num_rows(tset))


@facet('C10', 'large', sets(hi=100, lens=(5, 30), spans=(2, 30)), quick=4,
    thorough=160, rule='directories of up to 31 files and 100 trajectories; '
    'non-trivial with over 300 rows')
def acc(case, ctx):
    tset = a_set(case, gaps=False, props=[['accel', 'v3']], big_ids=False,
        first=max(case['p']['first'], 1))
    t0 = [tr['t0'] for tr in tset['trajs']]
    frames = list(range(min(t0), max(t0) + 1))
    base = dict(tset=tset, frames=frames, tmpl='trajAcc.%d')
    if case['other']:
        c10_acc.trajects(dict(base, lo=case['lo'], hi=case['hi'],
            front=case['flag']), ctx)
    else:
        c10_acc.collect(dict(base, frame=case['frame'] % len(frames),
            seg=case['flag'], where='abs'), ctx)
    outcome(ctx, many.num_rows(tset), 300)


@facet('C12', 'large', sets(), quick=6, thorough=240, rule='up to 250 '
    'trajectories; non-trivial with over 1000 rows')
def collect(case, ctx):
    tset = a_set(case, props=[['accel', 'v3']])
    c12_collect.collect(dict(tset=tset, frame=case['p']['first']
        + case['frame'], seg=case['flag'], mat=case['other'],
        float_time=False), ctx)
    outcome(ctx, many.num_rows(tset))


@facet('C21', 'large', sets(), quick=6, thorough=240, rule='up to 250 '
    'trajectories, some in the same place; non-trivial with over 1000 rows')
def snapshot(case, ctx):
    tset = a_set(case, gaps=False)
    rng = np.random.default_rng(case['p']['seed'] + 1)
    t = case['p']['first'] + case['frame'] % (case['p']['span'] + 5)
    here = [tr for tr in tset['trajs'] if 0 <= t - tr['t0'] < len(tr['pos'])]
    for a in here[1:]:
        if rng.random() < 0.2:
            b = here[int(rng.integers(0, len(here)))]
            a['pos'][t - a['t0']] = list(b['pos'][t - b['t0']])
    c21_snapshots.frame(dict(tset=tset, frame=t, segs=case['flag'],
        times=case['other'], float_time=False, drop=False, far=False), ctx)
    outcome(ctx, many.num_rows(tset))


@facet('C37', 'large', sets(lo=1, hi=8, lens=(100, 700)), quick=4,
    thorough=160, rule='trajectories of up to 700 points, windows of up to '
    '31; non-trivial with over 500 points')
def smoothing(case, ctx):
    tset = a_set(case, gaps=False)
    half = 1 + case['frame'] % 15
    order = min(case['frame'] // 15, 2 * half - 1)
    for tr in tset['trajs']:
        tr['kind'] = 'noise'
    c37_savgol.smooth(dict(tset, window=2 * half + 1, order=order,
        fps=[1., 500.][case['flag']]), ctx)
    outcome(ctx, many.num_rows(tset), 500)


@facet('C30', 'large', many.field_cases(), quick=4, thorough=160,
    rule='up to 400 tracers and 67 points; non-trivial with over 100 tracers')
def correlation(case, ctx):
    f = large.field(case['p'])
    rng = np.random.default_rng(case['p']['seed'] + 1)
    bins = [0.] + np.sort(rng.uniform(0., 3., 25)).tolist()
    c30_corrfun.corrfun(dict(f, radius=case['radius'], grid=False, bins=bins,
        corrs=(1. + rng.uniform(-.5, .5, (26, 3))).tolist()), ctx)
    outcome(ctx, len(f['tracers']), 100)


@facet('C37', 'many', sets(lo=10, hi=60, lens=(3, 40)), quick=4,
    thorough=160, rule='up to 60 trajectories; non-trivial with over 300 '
    'points')
def smooth_many(case, ctx):
    tset = a_set(case, gaps=False)
    for tr in tset['trajs']:
        tr['kind'] = 'noise'
    c37_savgol.smooth(dict(tset, window=2 * (1 + case['frame'] % 5) + 1,
        order=1, fps=[1., 500.][case['flag']]), ctx)
    outcome(ctx, many.num_rows(tset), 300)


def apart(case, n_max=216):
    """Up to 216 tracers, each in a cell of a grid, as in C29."""
    rng = np.random.default_rng(case['p']['seed'] + 2)
    n = 20 + case['p']['n'] % (n_max - 20)
    cells = rng.permutation(n_max)[:n]
    at = np.array([cells // 36, cells // 6 % 6, cells % 6]).T
    T = (at * 0.3 + rng.uniform(-.05, .05, (n, 3))).round(7)
    P = rng.uniform(-.1, 1.7, (1 + n // 3, 3)).round(7)
    for i in range(len(P)):
        if rng.random() < 0.2:
            P[i] = T[rng.integers(0, n)]
    comp = None
    if case['p']['seed'] % 2:
        near = np.argsort(np.linalg.norm(P[:, None] - T[None], axis=2), 1)
        comp = [int(near[i, rng.integers(0, 4)]) if rng.random() < 0.7 else
            -1 for i in range(len(P))]
    return dict(tracers=T.tolist(), points=P.tolist(), comp=comp,
        data=rng.normal(size=(n, 3)).round(6).tolist(),
        k=int(rng.integers(1, 30)),
        radius=[None, None, 0.45, 0.8][case['p']['seed'] // 2 % 4])


@facet('C29', 'large', many.field_cases(), quick=6, thorough=240,
    rule='up to 216 tracers and 72 points, up to 29 neighbours; non-trivial '
    'with over 100 tracers')
def radial(case, ctx):
    f = apart(case)
    c29_rbf.rbf(dict(f, unit=1., eps=[20., 60., 150.][case['p']['seed'] % 3]),
        ctx)
    outcome(ctx, len(f['tracers']), 100)


@facet('C27', 'large-numerical', many.field_cases(), quick=6, thorough=240,
    rule='as C29; non-trivial with over 100 tracers')
def derivatives(case, ctx):
    f = apart(case)
    seed = case['p']['seed']
    c27_jacobian.numerical(dict(f, method=['rbf', 'corrfun'][seed % 2],
        eps=[None, 1e-3][seed // 2 % 2], given=case['p']['n'] % 2 == 0), ctx)
    outcome(ctx, len(f['tracers']), 100)


@facet('C25', 'large-dists', many.field_cases(), quick=4, thorough=160,
    rule='up to 400 tracers; non-trivial with over 100')
def distances(case, ctx):
    f = large.field(case['p'])
    c25_neighbours.neighb_dists(f, ctx)
    outcome(ctx, len(f['tracers']), 100)


@facet('C39', 'large', st.tuples(st.integers(0, 2**32 - 1), st.integers(200,
    5000), st.integers(1, 60), st.booleans()), quick=30, thorough=1200,
    rule='200-5000 samples in up to 60 bins; non-trivial all')
def pdf(case, ctx):
    seed, n, bins, log = case
    vals = np.random.default_rng(seed).normal(size=n).round(6).tolist()
    c39_graphics.pdf([vals, bins, log], ctx)

"""C54: how arrays are laid out in memory makes no difference."""
import os
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact
from harness import gen, scenes, duals
from harness.fields import npos, comp_array
from checks.c26_idw import data_of
from checks.c51_locality import cases as scene_cases, Points

HOWS = ['fortran', 'strided', 'reversed', 'columns', 'readonly', 'field',
    'map', 'swapped', 'subclass']


class Sub(np.ndarray):
    """As arrays of units or of frames of data are."""


def lay(a, how, ctx=None):
    """The same values in another way."""
    a = np.array(a)
    if how == 'fortran':
        return np.asfortranarray(a)
    if how == 'strided':
        big = np.full((2 * len(a),) + a.shape[1:], 77, dtype=a.dtype)
        big[::2] = a
        return big[::2]
    if how == 'reversed':
        return a[::-1].copy()[::-1]
    if how == 'columns' and a.ndim > 1:
        big = np.full(a.shape[:-1] + (a.shape[-1] + 2,), 77, dtype=a.dtype)
        big[..., 1:-1] = a
        return big[..., 1:-1]
    if how == 'readonly':
        a.flags.writeable = False
    if how == 'field':
        rec = np.zeros(len(a), dtype=[('x', 'i2'), ('v', a.dtype,
            a.shape[1:])])
        rec['v'] = a
        return rec['v']
    if how == 'map' and a.size and ctx is not None:
        n = len(os.listdir(ctx.tmp))
        np.save(ctx.path('map%d.npy' % n), a)
        return np.load(ctx.path('map%d.npy' % n), mmap_mode='r')
    if how == 'swapped':
        return a.astype(a.dtype.newbyteorder())
    if how == 'subclass':
        return a.view(Sub)
    return a


hows = st.sampled_from(HOWS + ['plain'])


@st.composite
def fields_cases(draw):
    case = draw(scene_cases())
    case['whole'] = draw(st.sampled_from(['', '', '', 'both', 'tracers',
        'points']))
    if case['whole']:
        # Values that can be given as integers; the others as they are.
        for name in ('tracers', 'points'):
            whole = case['whole'] in ('both', name)
            case[name] = [[float(round(4 * v)) if whole else 4 * v for v in r]
                for r in case[name]]
        if case['method'] == 'rbf':
            case['method'], case['par'] = 'inv', 1
        if case['radius'] is not None:
            case['radius'] = 2.7
    case['lay'] = [draw(hows) for _ in range(4)]
    case['types'] = [draw(st.sampled_from(['f8', 'i8', 'i4', 'i2']))
        if case['whole'] in ('both', name) else 'f8' for name in ('tracers',
        'points')] + [draw(st.sampled_from(['i8', 'i4', 'i2']))]
    case['mask'] = [draw(st.booleans()) for _ in case['points']]
    return case


def everything(case, ctx, args, T, P, D, comp):
    """What an interpolant says of a scene."""
    from flowtracks.interpolation import interpolant
    it = interpolant(case['method'], case['k'], case['radius'], args)
    it.set_scene(T, P, D, comp)
    out = dict(rec=it.interpolate())
    jac = D.shape[1] == 3 and case['method'] == 'inv'
    if jac:
        out['jac'] = it.eulerian_jacobian()
    out['neighbours'] = it.current_active_neighbs()
    out['call'] = interpolant(case['method'], case['k'], case['radius'],
        args)(T, P, D, comp)
    if case['radius'] is None:
        out['dists'] = it.neighb_dists(T, P, comp)
    it.set_data_on_current_field(D[:, :1])
    out['data'] = it.interpolate()
    it.trim_points(lay(np.array(case['mask']), case['lay'][3], ctx))
    out['trimmed'] = it.interpolate()
    out = dict((k, np.array(v)) for k, v in out.items())
    # Neighbours are in no special order.
    for name in ('neighbours', 'dists'):
        if name in out and out[name].dtype != bool:
            out[name] = np.sort(out[name], axis=1)
    return out


@facet('C54', 'interpolation', fields_cases(), quick=300, rule='scenes as in '
    'C51, of which tracers, points, data and companions are arrays of ten '
    'layouts: by columns, strided, reversed, part of a larger array, '
    'read-only, field of a table, mapped from a file, of the other byte '
    'order, a subclass; or of integers; non-trivial with two points of '
    'well-defined values')
def interpolation(case, ctx):
    T, P, D = npos(case['tracers']), npos(case['points']), data_of(case)
    comp = comp_array(case)
    ctx.note(case['method'], *[h for h in case['lay']])
    if case['method'] == 'corrfun':
        args = ctx.path('corrs.npz')
        np.savez(args, corrs=np.array(case['corrs']),
            bins=np.array(case['bins']))
    else:
        args = case['par']
    pts = Points(case)
    good = pts.get('rec')
    call = pts.get('call')
    ctx.nontrivial(good.sum() > 1)
    l = case['lay']
    with ctx.sut('interpolating'):
        base = everything(case, ctx, args, T, P, D, comp)
    t = case['types']
    if case['whole']:
        ctx.note('integers')
    with ctx.sut('interpolating from arrays laid out as %s, of types %s'
            % (l, t)):
        got = everything(case, ctx, args, lay(T.astype(t[0]), l[0], ctx),
            lay(P.astype(t[1]), l[1], ctx), lay(D, l[2], ctx), None if comp
            is None else lay(comp.astype(t[2]), l[3], ctx))
    equal(sorted(got), sorted(base), 'results')
    keep = ~np.array(case['mask'])
    for name in base:
        equal(got[name].shape, base[name].shape, 'shape of ' + name)
        ok = call if name == 'call' else good
        if name == 'trimmed':
            ok = ok[keep]
        tol = 1e-6 if case['method'] == 'rbf' else 1e-8
        check(got[name].dtype.kind == base[name].dtype.kind,
            '%s is of type %s, from others %s', name, got[name].dtype,
            base[name].dtype)
        for i in np.nonzero(ok)[0]:
            a, b = got[name][i], base[name][i]
            same(a, b, '%s of point %d' % (name, i), tol, tol * (1 + np.abs(
                b[np.isfinite(b)]).max() if np.isfinite(b).any() else 1.))


@st.composite
def traj_cases(draw):
    tset = draw(gen.traj_sets(min_n=1, max_n=5, min_len=1, max_len=9,
        max_extra=2, unique_pos=True))
    return dict(tset=tset, lay=[draw(hows) for _ in range(len(
        tset['props']) + 3)], window=draw(st.sampled_from([3, 5])),
        pick=draw(st.integers(0, 1000)), whole=draw(st.integers(0, 3)) == 0)


def laid(case, ctx, tset, types):
    """The trajectories, with all of their arrays laid out as asked for."""
    from flowtracks.trajectory import Trajectory
    out = []
    for tr in tset['trajs']:
        kw = dict((n, gen.prop_array(k, tr[n])) for n, k in
            gen.all_kinds(tset))
        kw['time'] = np.arange(tr['t0'], tr['t0'] + len(tr['pos']))
        for (n, v), h in zip(sorted(kw.items()), case['lay']):
            if types and n in ('pos', 'velocity'):
                v = v.astype('i4')
            kw[n] = lay(v, h, ctx) if ctx is not None else v
        out.append(Trajectory(trajid=tr['id'], **kw))
    return out


@facet('C54', 'trajectories', traj_cases(), quick=250, rule='trajectories of '
    'arrays of such layouts, saved in three ways, smoothed, put in '
    'snapshots, paired and selected from; non-trivial with two trajectories, '
    'one of three points')
def trajectories(case, ctx):
    from flowtracks import io, smoothing, pairs
    from flowtracks.scene import Scene
    from flowtracks.trajectory import (take_snapshot, trajectories_in_frame)
    tset = case['tset']
    if case['whole']:
        for tr in tset['trajs']:
            for n in ('pos', 'velocity'):
                tr[n] = [[float(round(10 * v)) for v in r] for r in tr[n]]
    kinds = gen.all_kinds(tset)
    lens = [len(tr['pos']) for tr in tset['trajs']]
    ctx.note(*case['lay'])
    ctx.nontrivial(len(lens) > 1 and max(lens) > 2)
    pick = np.random.default_rng(case['pick'])
    t = int(pick.integers(min(tr['t0'] for tr in tset['trajs']),
        max(tr['t0'] + n for tr, n in zip(tset['trajs'], lens))))
    ids, points = [], []
    for i in range(3):
        j = int(pick.integers(0, len(lens)))
        ids.append(tset['trajs'][j]['id'])
        points.append(int(pick.integers(0, lens[j])))
    sel = [pick.random(n) < 0.6 for n in lens]

    def run(trajs, where, how):
        os.mkdir(where)
        out = {}
        io.save_particles_table(os.path.join(where, 'a.h5'), trajs)
        io.save_trajectories(os.path.join(where, 'npz'), trajs, {})
        here = trajectories_in_frame(trajs, t)
        snap = take_snapshot([trajs[i] for i in here], t, trajs[0].schema())
        out['here'] = list(here)
        for n, _ in kinds:
            out['snap ' + n] = getattr(snap, n)()
        out['snap ids'] = snap.trajid()
        if len(snap):
            io.save_frames_hdf(os.path.join(where, 'b.h5'), [snap])
            out['from frames'] = Scene(os.path.join(where, 'b.h5')).collect(
                ['pos'])[0]
        # Of floats in any case: there are no derivatives of whole numbers.
        for i, tr in enumerate(smoothing.savitzky_golay(trajs, 500.,
                case['window'], 1)):
            for n in ('pos', 'velocity', 'accel'):
                out['smooth %s %d' % (n, i)] = getattr(tr, n)()
        out['paired'], out['at'] = pairs.particle_pairs(trajs, trajs,
            lay(np.array(ids), how), lay(np.array(points), how))
        out['paired'] = np.where(out['at'] < 0, 0, out['paired'])
        for i, (tr, m) in enumerate(zip(trajs, sel)):
            out['rows %d' % i] = tr.pos(lay(m, how))
            out['table %d' % i] = tr[lay(np.nonzero(m)[0], how)]
            out['times %d' % i] = tr.time()
        sc = Scene(os.path.join(where, 'a.h5'))
        for n, v in zip(['trajid', 'time'] + [n for n, _ in kinds],
                sc.collect(['trajid', 'time'] + [n for n, _ in kinds])):
            out['stored ' + n] = v
        for tr in io.load_trajectories(os.path.join(where, 'npz'))[0]:
            for n, _ in kinds:
                out['npz %s %d' % (n, tr.trajid())] = getattr(tr, n)()
        return dict((k, np.array(v)) for k, v in out.items())

    with ctx.sut('using trajectories'):
        base = run(laid(case, None, tset, False), ctx.path('plain'), 'plain')
    with ctx.sut('using trajectories of arrays laid out as %s'
            % case['lay']):
        got = run(laid(case, ctx, tset, case['whole']), ctx.path('laid'),
            case['lay'][0])
    equal(sorted(got), sorted(base), 'results')
    for k, v in base.items():
        if k.startswith('smooth'):
            same(got[k], v, k, 1e-9, 1e-9 * (1 + (np.abs(v).max()
                if v.size else 0.)))
        else:
            exact(got[k], v, k)


@st.composite
def analysis_cases(draw):
    return dict(draw(duals.duals(companions=False)), lay=[draw(hows)
        for _ in range(5)])


@facet('C54', 'analysis', analysis_cases(), quick=60, rule='dual scenes as '
    'in C33, with analysers that give arrays of such layouts; '
    'non-trivial with two rows')
def analyses(case, ctx):
    from flowtracks.scene import read_dual_scene
    from flowtracks.analysis import analysis
    from flowtracks.an_scene import AnalysedScene
    conf = duals.write(case, ctx)

    class Wrapped(object):
        def __init__(self, of, how):
            self.of, self.how = of, how

        def descr(self):
            return self.of.descr()

        def analyse(self, frame, next_frame):
            return [lay(v, h) for v, h in zip(self.of.analyse(frame,
                next_frame), self.how)]

    l = case['lay']
    ctx.note(*l)
    keys = ['trajid', 'time', 'pos', 'disp', 'code', 'crowd', 'pair']
    res = []
    for name, how in (('a.h5', [['plain'] * 2] * 2), ('b.h5', [l[:2],
            l[2:4]])):
        with ctx.sut('analysing, with results laid out as %s' % how):
            analysis(read_dual_scene(conf), ctx.path(name), conf, [
                Wrapped(a, h) for a, h in zip(duals.analysers(), how)])
            res.append(dict(zip(keys, AnalysedScene(ctx.path(name)).collect(
                keys))))
    ctx.nontrivial(len(res[0]['time']) > 1)
    for k in keys:
        exact(res[1][k], res[0][k], 'column ' + k)


@facet('C54', 'rows', st.integers(1, 9).flatmap(lambda n: st.tuples(
        st.lists(st.integers(0, n - 1), min_size=1, max_size=12),
        gen.rows(n, 3), st.integers(0, 3), hows, st.sampled_from(['f8', 'f4',
        'f8', 'i4', 'u2']))), quick=400, rule='tables of repeating positions, of '
    'layouts and types as above; histograms of their values; non-trivial if '
    'some positions repeat')
def rows(case, ctx):
    from flowtracks.trajectory import mark_unique_rows
    from flowtracks.graphics import pdf_bins
    picks, pos, extra, how, dtype = case
    ctx.note(how, dtype)
    table = np.array([pos[i] for i in picks])
    if dtype[0] in 'iu':
        table = np.abs(np.round(table * 4))
    table = np.hstack((table, np.arange(len(table) * extra, dtype=float)
        .reshape(len(table), extra))).astype(dtype)
    laid_out = lay(table, how, ctx)
    with ctx.sut('marking rows of table laid out as %s' % how):
        got = [int(i) for i in mark_unique_rows(laid_out)]
    keys = [tuple(r[:3].tolist()) for r in table]
    ctx.nontrivial(1 < len(set(keys)) < len(keys))
    equal(sorted(keys[i] for i in got), sorted(set(keys)),
        'positions marked')
    with ctx.sut('histogram'):
        base = pdf_bins(table[:, 0].copy(), 4)
        hist = pdf_bins(lay(table[:, 0], how, ctx), 4)
    for a, b in zip(hist, base):
        same(a, b, 'histogram of values laid out as %s' % how, 1e-9, 1e-9)

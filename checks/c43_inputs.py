"""C43: arguments and files that are read stay as they are."""
import hashlib, os, warnings
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, fail, equal
from harness import gen, scenes, ptvis, oldfmt, duals, fields, seqs


def apart(points, least):
    x = fields.npos(points)
    d = np.linalg.norm(x[:,None] - x[None], axis=2) + 9 * np.eye(len(x))
    return d.min() > least


def freeze(x):
    """A value that can be compared of what x holds."""
    from flowtracks.trajectory import ParticleSet
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('objects', x.shape, [freeze(v) for v in x.ravel()])
        return ('array', x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, ParticleSet):
        ret = [type(x).__name__, freeze(x.as_dict())]
        for name in ('time', 'trajid'):
            if hasattr(x, name):
                ret.append(freeze(getattr(x, name)()))
        return ret
    if isinstance(x, dict):
        return [(k, freeze(x[k])) for k in sorted(x)]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [freeze(v) for v in x]
    if hasattr(x, 'tracers') and hasattr(x, 'particles'):
        return [freeze(x.tracers), freeze(x.particles)]
    if isinstance(x, (float, np.floating)):
        return ('number', np.float64(x).tobytes())
    return x


def arrays(x):
    """All the arrays of data in x."""
    from flowtracks.trajectory import ParticleSet
    if isinstance(x, np.ndarray):
        return [x] if x.dtype != object else []
    if isinstance(x, ParticleSet):
        x = list(x.as_dict().values()) + [x.time(), x.trajid()]
    if hasattr(x, 'tracers') and hasattr(x, 'particles'):
        x = [x.tracers, x.particles]
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in arrays(v)]
    return []


def spoil(x):
    for a in arrays(x):
        if a.flags.writeable:
            a[...] = 77


def digest(dirname):
    ret = {}
    for d, _, files in os.walk(dirname):
        for name in files:
            path = os.path.join(d, name)
            with open(path, 'rb') as f:
                ret[os.path.relpath(path, dirname)] = hashlib.blake2b(
                    f.read()).hexdigest()
    return ret


def keeps(ctx, what, func, **args):
    """
    Runs func twice on the arguments: they must not change, and neither the
    result.
    """
    before = dict((k, freeze(v)) for k, v in args.items())
    res = []
    for _ in range(2):
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            with ctx.sut(what):
                res.append(freeze(func(**args)))
        for k in args:
            check(freeze(args[k]) == before[k], '%s changed its argument %s, '
                'now %s', what, k, args[k])
    check(res[0] == res[1], '%s: the same call gave another result', what)


# ---- files ----
@st.composite
def stored(draw):
    what = draw(st.sampled_from(['hdf', 'npz', 'mat', 'ptvis', 'xuap',
        'dual', 'sequence']))
    case = dict(what=what)
    if what in ('hdf', 'npz', 'mat'):
        case['tset'] = draw(gen.traj_sets(max_n=5, min_len=2, max_len=6,
            props=[['accel', 'v3']]))
    elif what in ('ptvis', 'xuap'):
        case['film'] = draw(ptvis.linked_frames(xuap=what == 'xuap'))
    elif what == 'dual':
        case['dual'] = draw(duals.duals())
    else:
        case['db'] = draw(seqs.databases())
    return case


def readers(case, ctx):
    """{name: function that reads}, of what is stored in the directory."""
    from flowtracks import io, scene, sequence, particle, analysis, an_scene
    from flowtracks import interpolation
    what = case['what']
    p = ctx.path
    os.mkdir(p('in'))
    if what == 'hdf':
        f = p('in', 's.h5')
        io.save_particles_table(f, gen.make_trajs(case['tset']))
        t = case['tset']['trajs'][0]

        def sc(func):
            def run():
                s = scene.Scene(f)
                ret = func(s)
                del s
                return ret
            return run
        return dict([('Scene.' + n, sc(g)) for n, g in [
            ('iter_frames', lambda s: list(s.iter_frames())),
            ('iter_segments', lambda s: list(s.iter_segments())),
            ('iter_trajectories', lambda s: list(s.iter_trajectories())),
            ('trajectory_by_id', lambda s: s.trajectory_by_id(t['id'])),
            ('frame_by_time', lambda s: s.frame_by_time(t['t0'])),
            ('collect', lambda s: s.collect(['pos', 'time'])),
            ('collect with conditions', lambda s: s.collect(['pos',
                'trajid'], {'time': (t['t0'], t['t0'] + 3, False)})),
            ('bounding_box', lambda s: s.bounding_box()),
            ('trajectory_tags', lambda s: s.trajectory_tags())]],
            trajectories=lambda: list(io.trajectories(f, None, None, 1.)),
            table=lambda: io.trajectories_table(f))
    if what == 'npz':
        io.save_trajectories(p('in', 'd'), gen.make_trajs(case['tset']), {})
        return {'load_trajectories': lambda: io.load_trajectories(p('in',
            'd')), 'trajectories': lambda: list(io.trajectories(p('in', 'd')
            + '/', None, None, 1.))}
    if what == 'mat':
        f = p('in', 'a.mat')
        oldfmt.write_mat(f, case['tset'])
        return {'trajectories_mat': lambda: io.trajectories_mat(f),
            'trajectories': lambda: io.trajectories(f, None, None, 1.)}
    if what == 'ptvis':
        ptvis.write_ptvis_dir(case['film'], p('in'))
        f = p('in', 'ptv_is.%d')
        return {'trajectories_ptvis': lambda: io.trajectories_ptvis(f,
            traj_min_len=1), 'trajectories': lambda: list(io.trajectories(f,
            None, None, 500.)), 'iter_trajectories_ptvis':
            lambda: list(io.iter_trajectories_ptvis(f, traj_min_len=2))}
    if what == 'xuap':
        ptvis.write_xuap_dir(case['film'], p('in'))
        f = p('in', 'xuap.%d')
        return {'trajectories_ptvis': lambda: io.trajectories_ptvis(f,
            xuap=True, traj_min_len=1), 'trajectories': lambda: list(
            io.trajectories(f, None, None, 500.))}
    if what == 'dual':
        for n in ('tracers', 'parts'):
            scenes.write_scene(p('in', n + '.h5'), case['dual'][n])
        conf = p('in', 'scene.cfg')
        rng = case['dual']['rng']
        with open(conf, 'w') as f:
            f.write('[Particle]\ndiameter: 0.0005\ndensity: 1450\n\n[Scene]\n'
                'frame rate: 500\ntracers file: %s\nparticles file: %s\n'
                'first frame: %d\nlast frame: %d\n' % (p('in', 'tracers.h5'),
                p('in', 'parts.h5'), rng[0], rng[1] - 1))
            f.write('[Interpolant]\nmethod: inv\nnum_neighbs: 3\nparam: 1\n')

        def analyse():
            # Of the same name each time.
            analysis.analysis(scene.read_dual_scene(conf), p('an.h5'), conf,
                [analysis.FluidVelocitiesAnalyser(
                interpolation.read_interpolant(conf))] + duals.analysers())
            s = an_scene.AnalysedScene(p('an.h5'))
            return list(s.iter_trajectories()), s.collect(['trajid', 'time',
                'pos', 'disp'])
        return {'DualScene.iter_frames': lambda: list(
            scene.read_dual_scene(conf).iter_frames()),
            'DualScene.iter_segments': lambda: list(
            scene.read_dual_scene(conf).iter_segments()),
            'analysis': analyse}
    names = dict((w, seqs.write_db(case['db'][w], p('in', w)))
        for w in ('parts', 'tracers'))

    def seq():
        return sequence.Sequence((case['db']['lo'], case['db']['hi']), 500.,
            particle.Particle(1e-3, 1450.), names['parts'],
            names['tracers'], traj_min_len=case['db']['min_len'] or 0)
    return {'Sequence': lambda: list(seq()),
        'Sequence.particle_trajectories':
            lambda: seq().particle_trajectories(),
        'Sequence.map_trajectories': lambda: list(seq().tracer_trajectories())}


@facet('C43', 'files', stored(), quick=100,
    rule='databases of seven kinds, each way of reading them used twice; '
    'between, the arrays returned first are overwritten; non-trivial if some '
    'array of data is returned')
def files(case, ctx):
    with ctx.sut('writing'):
        fs = readers(case, ctx)
    ctx.note(case['what'])
    before = digest(ctx.path('in'))
    for name in sorted(fs):
        with ctx.sut(name):
            got = fs[name]()
            first = freeze(got)
            ctx.nontrivial(any(a.size for a in arrays(got)))
            spoil(got)
            del got
            again = freeze(fs[name]())
        check(first == again, '%s: reading again gave something else', name)
        after = digest(ctx.path('in'))
        check(after == before, '%s changed files: %s', name,
            sorted(set(after.items()) ^ set(before.items())))


# ---- arguments ----
@facet('C43', 'analysed', st.tuples(duals.duals(companions=False), st.booleans(),
        st.integers(0, 3)), quick=60,
    rule='lists of columns and conditions given to collections from analysed '
    'scenes, and analysers given to an analysis; non-trivial if particles '
    'were analysed')
def analysed(case, ctx):
    from flowtracks.scene import read_dual_scene
    from flowtracks.analysis import analysis
    from flowtracks.an_scene import AnalysedScene
    dual, inv, n = case
    conf = duals.write(dual, ctx)
    anl = duals.analysers()
    with ctx.sut('analysis'):
        analysis(read_dual_scene(conf), ctx.path('an.h5'), conf, anl)
        sc = AnalysedScene(ctx.path('an.h5'))
    check([type(a).__name__ for a in anl] == ['Displacement', 'Crowd'],
        'analysis changed the list of analysers')
    segs = duals.segments(dual, dual['rng'])
    ctx.nontrivial(any(len(s[1]) for s in segs))
    if not segs:
        return
    keys = [['pos'], ['disp', 'pos'], ['code', 'time', 'trajid', 'crowd'],
        ['pair']][n]
    if not set(keys) <= set(['trajid', 'time']):
        keys = [k for k in keys if k not in ('trajid', 'time')]
    for where in (None, {}, {'crowd': (0., 9., inv)}, {'code': (0, 99, inv),
            'crowd': (-2., 3., not inv), 'trajid': (0, 50, inv)},
            {'time': (segs[0][0], segs[-1][0], False)}):
        with ctx.sut('collect'):
            keeps(ctx, 'AnalysedScene.collect', sc.collect, keys=keys,
                where=where)
    del sc


@st.composite
def fields_cases(draw):
    case = draw(fields.fields(min_n=4, dims=(1, 3, 3), coincide=False))
    case['method'] = draw(st.sampled_from(['inv', 'rbf', 'corrfun']))
    case['radius'] = draw(fields.radii(case))
    case['other'] = draw(gen.rows(len(case['tracers']), 3))
    case['p'] = draw(st.sampled_from([0.5, 1, 2]))
    return case


@facet('C43', 'interpolation', fields_cases(), quick=150,
    rule='scenes for interpolation given to functions and interpolants; '
    'non-trivial if the interpolation has several neighbours')
def interpolation(case, ctx):
    from flowtracks import interpolation as ip
    tr, pts = fields.npos(case['tracers']), fields.npos(case['points'])
    data = gen.arr(case['data'], len(case['data'][0]))
    comp = fields.comp_array(case)
    ctx.note(case['method'])
    if not apart(case['tracers'], 0.05):
        case['method'] = 'inv'
    keeps(ctx, 'select_neighbs', lambda tracers, points, comp:
        ip.select_neighbs(tracers, points, case['radius'], case['k'], comp),
        tracers=tr, points=pts, comp=comp)
    with ctx.sut('select_neighbs'):
        dists, use = ip.select_neighbs(tr, pts, None, case['k'], comp)
    ctx.nontrivial(use.sum(axis=1).min() > 1)
    hist, bins = np.array([1., 0.8, 0.5, 0.2]), np.array([0., 0.3, 1., 2.])
    keeps(ctx, 'corrfun_interp', ip.corrfun_interp, dists=dists,
        use_parts=use, data=data, corrs_hist=hist, corrs_bins=bins)
    if case['method'] == 'rbf':
        keeps(ctx, 'rbf_interp', ip.rbf_interp, tracer_dists=np.linalg.norm(
            tr[:,None] - tr[None], axis=2), dists=dists, use_parts=use,
            data=data, epsilon=2.)
    param = {'inv': case['p'], 'rbf': 2.}.get(case['method'])
    if case['method'] == 'corrfun':
        np.savez(ctx.path('corr.npz'), corrs=hist, bins=bins)
        param = ctx.path('corr.npz')

    def new():
        return ip.interpolant(case['method'], case['k'], case['radius'],
            param)
    keeps(ctx, 'call of an interpolant', lambda tracers, points, data, comp:
        new()(tracers, points, data, comp), tracers=tr, points=pts,
        data=data, comp=comp)
    keep = np.arange(len(pts)) % 2 == 0

    def scene(tracers, points, data, comp, other, trim):
        it = new()
        it.set_scene(tracers, points, data, comp)
        ret = [it.interpolate(), it.current_relative_positions(),
            it.current_dists(), it.current_active_neighbs()]
        ret.append(it.eulerian_jacobian(ret[0], 1e-3))
        it.set_field_positions(other)
        ret.append(it.interpolate())
        it.trim_points(trim)
        ret.append(it.interpolate())
        return ret
    keeps(ctx, 'an interpolant with a scene', scene, tracers=tr, points=pts,
        data=data, comp=comp, other=tr * 1.01,
        trim=keep)


@facet('C43', 'trajectories', st.tuples(gen.traj_sets(min_n=2, max_n=5,
        min_len=4, max_len=9, span=3), st.integers(0, 9)), quick=150,
    rule='lists of trajectories given to functions that save, smooth, pair '
    'or select them; non-trivial always')
def trajectories(case, ctx):
    from flowtracks import io, smoothing, pairs, trajectory
    import shutil
    tset, n = case
    trajs = gen.make_trajs(tset)
    half = max(1, len(trajs) // 2)
    ctx.nontrivial()
    t = sorted(r[1] for r in gen.model_rows(tset))
    t = t[n % len(t)]

    def save_npz(trajs, adds):
        shutil.rmtree(ctx.path('d'), ignore_errors=True)
        io.save_trajectories(ctx.path('d'), trajs, adds, frate=500.)
    keeps(ctx, 'save_trajectories', save_npz, trajs=trajs, adds={'w2':
        dict((int(tr.trajid()), np.arange(len(tr)) * 1.) for tr in trajs)})
    keeps(ctx, 'save_particles_table', lambda trajs, n:
        io.save_particles_table(ctx.path('a.h5'), trajs, n), trajs=trajs,
        n=n % 2 or None)
    here = [tr for tr in trajs if t in tr.time()]
    with ctx.sut('take_snapshot'):
        snaps = [trajectory.take_snapshot(here, t, trajs[0].schema())]
    keeps(ctx, 'save_frames_hdf', lambda snaps: io.save_frames_hdf(
        ctx.path('f.h5'), snaps), snaps=snaps)
    keeps(ctx, 'take_snapshot', lambda trajs, schema:
        trajectory.take_snapshot(trajs, t, schema), trajs=here,
        schema=trajs[0].schema())
    keeps(ctx, 'trajectories_in_frame', lambda trajs:
        trajectory.trajectories_in_frame(trajs, t, segs=bool(n % 2)),
        trajs=trajs)
    keeps(ctx, 'collect_particles_generic', lambda trajs:
        io.collect_particles_generic(trajs, t, bool(n % 2)), trajs=trajs)
    keeps(ctx, 'savitzky_golay', lambda trajs: smoothing.savitzky_golay(
        trajs, 500., 5 if n % 2 else 3, 2 if n % 2 else 1), trajs=trajs)
    ids = np.array([int(tr.trajid()) for tr in trajs[:half]] * 2)
    times = np.array([0] * half + [len(tr) - 2 for tr in trajs[:half]])
    keeps(ctx, 'particle_pairs', pairs.particle_pairs,
        primary_trajects=trajs[:half], secondary_trajects=trajs[half:],
        trajids=ids, time_points=times)
    rows = np.array([p for tr in tset['trajs'] for p in tr['pos']])
    keeps(ctx, 'mark_unique_rows', trajectory.mark_unique_rows,
        all_rows=np.vstack((rows, rows[:2])))
    with ctx.sut('indexing'):
        before = freeze(trajs[0])
        part = trajs[0][np.arange(2)]
        spoil(part)
    check(freeze(trajs[0]) == before, 'a part of the trajectory, overwritten, '
        'overwrites the trajectory')


@facet('C43', 'scenes', st.tuples(gen.traj_sets(min_n=2, max_n=5, max_len=6,
        span=3), st.integers(0, 9), st.booleans()), quick=60,
    rule='lists of columns and conditions given to collections from scenes; '
    'non-trivial always')
def scenes_args(case, ctx):
    from flowtracks.scene import Scene
    tset, n, inv = case
    scenes.write_scene(ctx.path('s.h5'), tset)
    ctx.nontrivial()
    t = tset['trajs'][n % len(tset['trajs'])]['t0']
    with ctx.sut('opening'):
        sc = Scene(ctx.path('s.h5'), (t - 1, t + 3))
    for keys in (['pos'], ['time', 'velocity', 'trajid']):
        keeps(ctx, 'collect', sc.collect, keys=keys)
        keeps(ctx, 'collect', sc.collect, keys=keys, where={'time': (t, t + 1,
            inv), 'trajid': (0, 5, not inv)})
    rng = [t, None]
    with ctx.sut('set_frame_range'):
        sc.set_frame_range(rng)
    equal(rng, [t, None], 'the range given')
    del sc


@facet('C43', 'graphs', st.tuples(gen.reals(12), st.integers(1, 6),
        st.booleans()), quick=30,
    rule='samples and vectors given to functions that draw; non-trivial '
    'always')
def graphs(case, ctx):
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as pl
    from flowtracks import graphics
    vals, bins, log = case
    data = np.array(vals)
    if log:
        data = np.abs(data) + 0.01
    data[0] = 2.5
    ctx.nontrivial()
    keeps(ctx, 'pdf_bins', lambda data: graphics.pdf_bins(data, bins, log),
        data=data)

    def drawn(func):
        def run(**args):
            pl.figure()
            try:
                func(**args)
            finally:
                pl.close('all')
        return run
    keeps(ctx, 'pdf_graph', drawn(lambda data: graphics.pdf_graph(data, bins,
        log, log)), data=data)
    keeps(ctx, 'generalized_histogram_disp', drawn(lambda hist, edges:
        graphics.generalized_histogram_disp(hist, edges, log)), hist=np.abs(
        data[:bins]), edges=np.linspace(1., 5., bins))
    keeps(ctx, 'plot_vectors', drawn(lambda vecs, indep:
        graphics.plot_vectors(vecs, indep, 'x')), vecs=data.reshape(4, 3),
        indep=np.arange(4.))

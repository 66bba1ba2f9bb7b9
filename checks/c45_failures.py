"""C45: after a failure on the way, the same call with good input succeeds."""
import sys
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, fail, same, equal, exact
from harness import gen, scenes, duals, seqs


# What fails on purpose, of types that code may treat in different manners.
BOOMS = dict((t.__name__, type('Boom' + t.__name__, (t,), {})) for t in (
    Exception, KeyError, IndexError, ValueError, TypeError, AttributeError,
    OSError, RuntimeError, NotImplementedError, KeyboardInterrupt))
booms = st.sampled_from(sorted(BOOMS))


def expect(exc, what, func, *args, **kwds):
    """Runs func, which has to fail by that type of exception."""
    try:
        func(*args, **kwds)
    except exc:
        return
    fail('%s: the failure is not passed on to the caller', what)


def attempt(func, *args):
    """Runs func, which may well fail."""
    # Destructors of objects not yet complete are noisy.
    hook, sys.unraisablehook = sys.unraisablehook, lambda x: None
    try:
        func(*args)
    except Exception:
        return False
    finally:
        sys.unraisablehook = hook
    return True


def failing(items, k, exc):
    """The first k items, then a failure."""
    for i, item in enumerate(items):
        if i == k:
            raise exc()
        yield item
    raise exc()


def read_hdf(fname, tset, what):
    from flowtracks.scene import Scene
    sc = Scene(fname)
    scenes.unique_match(list(sc.iter_trajectories()), scenes.by_id(
        gen.model_rows(tset)), gen.all_kinds(tset), what)


# ---- saving ----
@st.composite
def saves(draw):
    tset = draw(gen.traj_sets(min_n=2, max_n=5, min_len=1, max_len=5, span=4))
    return dict(tset=tset, exc=draw(booms), other=draw(gen.traj_sets(min_n=1, max_n=3,
        min_len=3, max_len=5, span=2)), k=draw(st.integers(0, 5)),
        way=draw(st.sampled_from(['table', 'table', 'frames', 'frames',
            'npz'])), fault=draw(st.sampled_from(['source', 'source', 'odd',
            'empty'])), step=draw(st.integers(0, 2)),
        twice=draw(st.booleans()))


@facet('C45', 'saving', saves(), quick=120,
    rule='trajectories or frames saved from an iterator that fails after '
    'some, or with an odd or no item, then again to the same path, while '
    'another scene is in use; non-trivial if some were saved before the '
    'failure')
def saving(case, ctx):
    from flowtracks import io
    from flowtracks.scene import Scene
    from flowtracks.trajectory import Trajectory, ParticleSnapshot, \
        take_snapshot
    tset, way = case['tset'], case['way']
    other = ctx.path('other.h5')
    scenes.write_scene(other, case['other'])
    with ctx.sut('another scene'):
        sc = Scene(other)
        going = sc.iter_frames()
        first = next(going)
    trajs = gen.make_trajs(tset)
    if way == 'frames':
        times = sorted(set(r[1] for r in gen.model_rows(tset)))
        items = [take_snapshot([tr for tr in trajs if t in tr.time()], t,
            trajs[0].schema()) for t in times]
        path, save = ctx.path('s.h5'), io.save_frames_hdf
    elif way == 'table':
        items, path, save = trajs, ctx.path('s.h5'), io.save_particles_table
    else:
        items, path = trajs, ctx.path('d')

        def save(path, trajs):
            io.save_trajectories(path, trajs, {})
    k = min(case['k'], len(items))
    ctx.note(way, case['fault'])
    ctx.nontrivial(k > 0)
    what = 'saving (%s)' % way
    for _ in range(2 if case['twice'] else 1):
        if case['fault'] == 'source':
            exc = BOOMS[case['exc']]
            expect(exc, what, save, path, failing(items, k, exc))
        elif case['fault'] == 'empty':
            attempt(save, path, [])
        elif way == 'npz':
            # Additional arrays for some of the trajectories only.
            adds = dict((t.trajid(), np.arange(len(t))) for t in trajs[:k])
            attempt(io.save_trajectories, path, trajs, {'more': adds})
        else:
            kinds = dict(pos=np.zeros((2, 3)), velocity=np.zeros((2, 3)),
                nowhere_else=np.arange(2.))
            if way == 'table':
                odd = Trajectory(trajid=10 ** 7, time=np.arange(2), **kinds)
            else:
                odd = ParticleSnapshot(time=10 ** 7, trajid=np.arange(2),
                    **kinds)
            attempt(save, path, items[:k] + [odd] + items[k:])
    with ctx.sut(what + ' after a failure'):
        save(path, items)
    with ctx.sut('reading what was saved after a failure'):
        if way == 'npz':
            got = io.load_trajectories(path)
            got = got[0] if isinstance(got, tuple) else got
            scenes.unique_match(got, scenes.by_id(gen.model_rows(tset)),
                gen.all_kinds(tset), what)
        else:
            read_hdf(path, tset, what)
    with ctx.sut('going on with another scene'):
        rest = [first] + list(going)
    rows = scenes.by_time(gen.model_rows(case['other']))
    equal([int(f.time()) for f in rest], list(range(min(rows),
        max(rows) + 1)), 'frames of the other scene')
    for f in rest:
        scenes.cmp_snapshot(f, int(f.time()), rows.get(int(f.time()), {}),
            gen.all_kinds(case['other']), 'frame of the other scene')


# ---- reading ----
@st.composite
def bad_files(draw):
    return dict(tset=draw(gen.traj_sets(min_n=1, max_n=4, max_len=5, span=4)),
        bad=draw(st.sampled_from(['missing', 'text', 'empty', 'hdf', 'columns',
            'config'])), readers=draw(st.lists(st.sampled_from(['Scene',
            'table', 'trajectories', 'AnalysedScene', 'dual']), min_size=1,
            max_size=4)))


@facet('C45', 'reading', bad_files(), quick=80,
    rule='paths with no file, or a file that is not of stored particles, '
    'given to readers; then the right file is written there and read; '
    'non-trivial if the bad one can be opened as HDF')
def reading(case, ctx):
    import tables
    from flowtracks import io
    from flowtracks.scene import Scene, read_dual_scene
    from flowtracks.an_scene import AnalysedScene
    path, conf = ctx.path('s.h5'), ctx.path('scene.cfg')
    good = ctx.path('good.h5')
    bad = case['bad']
    scenes.write_scene(good, case['tset'])
    with open(conf, 'w') as f:
        f.write('[Particle]\ndiameter: 0.0005\ndensity: 1450\n\n[Scene]\n'
            'frame rate: 500\ntracers file: %s\nparticles file: %s\n'
            'first frame: 1\nlast frame: 5\n' % (good, path))
    if bad == 'text':
        with open(path, 'w') as f:
            f.write('1 2 3\n')
    elif bad == 'empty':
        open(path, 'w').close()
    elif bad != 'missing':
        f = tables.open_file(path, 'w')
        if bad == 'columns':
            f.create_table('/', 'particles', np.dtype([('pos', float, 3)]))
        elif bad == 'config':
            t = f.create_table('/', 'analysis', np.dtype([('trajid', int),
                ('time', int)]))
            t.attrs['config'] = ctx.path('not there.cfg')
        f.close()
    ctx.nontrivial(bad in ('hdf', 'columns', 'config'))
    ctx.note(bad)
    funcs = {
        'Scene': lambda: list(Scene(path).iter_frames()),
        'table': lambda: io.trajectories_table(path),
        'trajectories': lambda: list(io.trajectories(path, None, None, 1.)),
        'AnalysedScene': lambda: AnalysedScene(path).collect(['pos']),
        'dual': lambda: list(read_dual_scene(conf).iter_segments())}
    for name in case['readers']:
        check(not attempt(funcs[name]) , '%s reads a file that is %s', name,
            bad)
    with ctx.sut('writing after bad files were read'):
        scenes.write_scene(path, case['tset'])
    with ctx.sut('reading after bad files were read'):
        read_hdf(path, case['tset'], 'the good file')
        got = io.trajectories_table(path)
    scenes.unique_match(got, scenes.by_id(gen.model_rows(case['tset'])),
        gen.all_kinds(case['tset']), 'the good file, as a table')


# ---- analysis ----
@st.composite
def analyses(draw):
    case = draw(duals.duals(companions=False))
    case['fault'] = draw(st.sampled_from(['raise', 'raise', 'shape', 'descr',
        'range', 'target']))
    case['at'] = draw(st.integers(0, 5))
    case['twice'] = draw(st.booleans())
    case['exc'] = draw(booms)
    case['fresh'] = draw(st.booleans())
    return case


@facet('C45', 'analysis', analyses(), quick=120,
    rule='analyses that fail on some segment, on the description or the '
    'range, or that should overwrite their own source, then run to the same '
    'file; non-trivial if some segments were analysed before the failure')
def analysis(case, ctx):
    import tables
    from flowtracks.scene import read_dual_scene
    from flowtracks.analysis import analysis, GeneralAnalyser
    from flowtracks.an_scene import AnalysedScene
    conf = duals.write(case, ctx)
    out = ctx.path('analysis.h5')
    segs = duals.segments(case, case['rng'])
    fault, at = case['fault'], case['at']
    Boom = BOOMS[case['exc']]
    if len(segs) == 0 and fault in ('raise', 'shape'):
        fault = 'descr'
    ctx.note(fault)
    at = at % max(1, len(segs))
    full = [i for i, s in enumerate(segs) if len(s[1]) > 0]
    if fault == 'shape' and not full:
        fault = 'raise'

    class Failing(GeneralAnalyser):
        def __init__(self):
            self.n = -1

        def descr(self):
            if fault == 'descr':
                raise Boom()
            return [('wrong', float, 3)]

        def analyse(self, frame, next_frame):
            self.n += 1
            if fault == 'raise' and self.n == at:
                raise Boom()
            n = len(frame.particles)
            if fault == 'shape' and n > 0 and self.n >= full[at % len(full)]:
                return [np.zeros((n + 1, 2))]
            return [np.zeros((n, 3))]

    with ctx.sut('opening'):
        scene = read_dual_scene(conf)
    for _ in range(2 if case['twice'] else 1):
        anl = duals.analysers()[:1] + [Failing()]
        if fault in ('raise', 'descr'):
            expect(Boom, 'analysis', analysis, scene, out, conf, anl)
        elif fault == 'shape':
            attempt(analysis, scene, out, conf, anl)
        elif fault == 'range':
            attempt(analysis, scene, out, conf, anl, 'nonsense')
        else:
            check(not attempt(analysis, scene, ctx.path('particles.h5'), conf,
                anl), 'analysis overwrites the particles that it reads')
    ctx.nontrivial(fault == 'target' or at > 0 and fault in ('raise',
        'shape'))
    if case['fresh']:
        del scene
        with ctx.sut('opening after a failure'):
            scene = read_dual_scene(conf)
    with ctx.sut('analysis after a failure'):
        analysis(scene, out, conf, duals.analysers())
        del scene
        f = tables.open_file(out, 'r')
        data = f.get_node('/analysis').read()
        f.close()
    want = dict(((i, s[0]), v) for s in segs
        for i, v in duals.analysed(s).items())
    have = [(int(r['trajid']), int(r['time'])) for r in data]
    equal(sorted(have), sorted(want), 'particles and times')
    for name, kind in duals.AN_KINDS:
        same(data[name], gen.prop_array(kind, [want[h][name] for h in have]),
            name, 1e-12)
    with ctx.sut('the sources after a failure'):
        read_hdf(ctx.path('particles.h5'), case['parts'], 'particles')
        read_hdf(ctx.path('tracers.h5'), case['tracers'], 'tracers')


# ---- objects ----
@st.composite
def maps(draw):
    db = draw(seqs.databases(fmts=('hdf', 'npz')))
    db['at'] = draw(st.lists(st.integers(0, 12), min_size=1, max_size=3))
    db['history'] = draw(st.booleans())
    db['exc'] = draw(booms)
    db['select'] = draw(st.sampled_from([None, None, 'particle', 'tracer']))
    return db


@facet('C45', 'mapping', maps(), quick=100,
    rule='functions mapped over a sequence that fail at some frame, and '
    'selectors that fail, then ones that do not; non-trivial if the failure was after the first frame')
def mapping(case, ctx):
    from flowtracks.sequence import Sequence
    from flowtracks.particle import Particle
    names = dict((w, seqs.write_db(case[w], ctx.path(w)))
        for w in ('parts', 'tracers'))
    lo, hi = case['lo'], case['hi']
    model = seqs.selected(case['parts'], lo, hi, case['min_len'])
    with ctx.sut('construction'):
        seq = Sequence((lo, hi), 500., Particle(1e-3, 1450.), names['parts'],
            names['tracers'], traj_min_len=case['min_len'] or 0)

    Boom = BOOMS[case['exc']]

    def func(fail_at):
        count = [-1]

        def run(*args):
            count[0] += 1
            if count[0] == fail_at:
                raise Boom()
            snap, nxt = args[1].particles, args[2].particles
            return dict((int(i), nxt.pos()[k] - snap.pos()[k]) for k, i in
                enumerate(snap.trajid()))
        return run
    if case['select'] is not None:
        def failing_selector(trajs):
            raise Boom()
        with ctx.sut('setting a selector'):
            getattr(seq, 'set_%s_selector' % case['select'])(failing_selector)
        expect(Boom, 'map_trajectories', seq.map_trajectories, func(-2))
        with ctx.sut('setting a selector'):
            getattr(seq, 'set_%s_selector' % case['select'])(lambda x: x)
    for at in case['at']:
        at = at % (hi - lo)
        ctx.nontrivial(at > 0)
        expect(Boom, 'map_trajectories', seq.map_trajectories, func(at),
            history=case['history'])
    for _ in range(2):
        with ctx.sut('map_trajectories after a failure'):
            got = seq.map_trajectories(func(-2), history=case['history'])
        want = {}
        for i, es in model.items():
            d = dict(es)
            vals = [np.array(d[t + 1]['pos']) - np.array(d[t]['pos'])
                for t in sorted(d) if t + 1 in d and lo <= t < hi]
            if vals:
                want[i] = vals
        equal(sorted(int(i) for i in got), sorted(want), 'trajectories')
        for i in want:
            same(got[i], want[i], 'results of %s' % i, 1e-12, 1e-15)

"""C57: properties of particles may have any name."""
import keyword
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, equal, exact, same
from harness import duals, gen, scenes
from checks.c16_where import holds

USUAL = ['t', 'id', 'trid', 'first', 'last', 'frame', 'n', 'i', 'x', 'f',
    'key', 'k', 'v', 'arr', 'traj', 'field', 'name', 'cond', 'query', 'table',
    'index', 'length', 'size', 'schema_', 'number', 'mass', 'frame_num',
    'time_', 'pos_x', 'vel', 'acc', 'bounds', 'particles', 'tracers', 'data',
    'diameter', 'trajids', 'times', 'position', 'Temp', 'X', 'T', 'posx',
    'pos2', 'velocity_', 'query_string', 'file', 'title', 'keys', 'shape',
    'residence_time', 'times_seen', 'old_trajid', 'trajid_2', 'pos_error',
    'fluid_velocity', 'fluid_velocity_x', 'fluid_velocity_y', 'timer', 'tim',
    'velocity0', 'positions', 'po', 'traj_id', 'timestamp', 'lifetime',
    'Pos', 'TIME', 'Velocity', 'x1', 'x2', 'x_']

# Those have meanings in the classes, Python, or conditions of PyTables.
RESERVED = set(keyword.kwlist + ['pos', 'velocity', 'time', 'trajid', 'self',
    'companion', 'schema', 'smoothed', 'where', 'abs', 'sin', 'cos', 'tan',
    'exp', 'log', 'real', 'imag', 'sum', 'prod', 'min', 'max', 'ceil',
    'floor', 'sqrt', 'sinh', 'cosh', 'tanh', 'conj', 'contains', 'sign',
    'round', 'trunc', 'hypot', 'div', 'pow', 'mod', 'isnan', 'isinf', 'inf',
    'disp', 'code', 'crowd', 'pair', 'fluid_vel', 'rel_vel', 'fmod', 'log1p',
    'log10', 'expm1', 'recon', 'corr'])
names = st.one_of(st.sampled_from(USUAL), st.sampled_from(USUAL),
    st.from_regex(r'[a-zA-Z][a-zA-Z0-9_]{0,5}', fullmatch=True)).filter(
    lambda n: allowed(n))


def allowed(name):
    return (name.isidentifier() and name not in RESERVED
        and not name.startswith(('_', 'set_')))


@st.composite
def cases(draw):
    tset = draw(gen.traj_sets(max_n=5, max_len=6, span=4, max_extra=4))
    kinds = rename(gen.all_kinds(tset), draw(new_names()))
    scal = [n for n, k in kinds if k in 'fi']
    where = {}
    rows = gen.model_rows(tset)
    for n in draw(st.lists(st.sampled_from(scal), max_size=2,
            unique=True)) if scal else []:
        lim = st.sampled_from([-1, 0, 0.5, 1, 2])
        where[n] = [draw(lim), draw(lim), draw(st.booleans())]
    return dict(tset=tset, kinds=kinds, where=where,
        fmt=draw(st.sampled_from(['table', 'frames', 'npz'])),
        rng=draw(st.one_of(st.none(), st.tuples(st.integers(0, 4),
            st.integers(3, 9)))), pick=draw(st.integers(0, 99)))


@st.composite
def new_names(draw):
    """Names for the properties, some of them like each other."""
    res = []
    for _ in gen.EXTRA_NAMES:
        res.append(draw(another(res, ['time', 'trajid', 'pos', 'velocity'])))
    return dict(zip(gen.EXTRA_NAMES, res))


@st.composite
def another(draw, used, like=()):
    """A name not in use, possibly close to one that is."""
    n = draw(names)
    near = sorted(set(used) | set(like))
    if near and draw(st.booleans()):
        n = draw(st.sampled_from(near))
        cut = draw(st.integers(1, max(1, len(n) - 1)))
        n = draw(st.sampled_from([n[:cut], n[cut:], n.upper(), n.lower(),
            n + '2', n + '_x', 'a' + n, 'a_' + n, n + n, n[::-1]]))
    if n in used or not allowed(n):
        n = draw(names.filter(lambda n: n not in used))
    return n


def rename(kinds, new):
    return [[new.get(n, n), k] for n, k in kinds]


def model(tset, kinds):
    """Rows as by gen.model_rows, with these names."""
    old = [n for n, _ in gen.all_kinds(tset)]
    return [(i, t, dict((n, vals[o]) for o, (n, _) in zip(old, kinds)))
        for i, t, vals in gen.model_rows(tset)]


def columns(entries, kinds):
    return dict((n, gen.prop_array(k, [v[n] for v in entries]))
        for n, k in kinds)


def objects(rows, kinds):
    from flowtracks.trajectory import Trajectory
    return [Trajectory(trajid=i, time=np.array([t for t, _ in es]),
        **columns([v for _, v in es], kinds))
        for i, es in scenes.by_id(rows).items()]


def note(case, ctx):
    new = [n for n, _ in case['kinds'][2:]]
    ctx.note(*[n for n in new if n in USUAL[:12]])
    ctx.nontrivial(len(new) > 0)


RULE = ('with up to four properties of any names, these of usual '
    'variables and attributes among them; non-trivial if there are any')


@facet('C57', 'sets', cases(), quick=500, rule='trajectories and snapshots '
    + RULE)
def sets(case, ctx):
    from flowtracks.trajectory import ParticleSnapshot, take_snapshot
    kinds = case['kinds']
    rows = model(case['tset'], kinds)
    note(case, ctx)
    with ctx.sut('construction'):
        trajs = objects(rows, kinds)
    by_id, by_time = scenes.by_id(rows), scenes.by_time(rows)
    for t in trajs:
        i = int(t.trajid())
        scenes.cmp_traj(t, i, by_id[i], kinds)
        for n, k in kinds:
            check(t.has_property(n), 'no property %s', n)
            equal(tuple(t.schema()[n]), gen.KINDS[k], 'schema of ' + n)
        want = columns([v for _, v in by_id[i]], kinds)
        table = np.hstack((want['pos'], want['velocity'],
            np.array([[tm, i] for tm, _ in by_id[i]], dtype=float)))
        exact(t[:], table, 'table of %d' % i)
        # One property at a time is changed, others stay.
        for n, _ in kinds:
            with ctx.sut('setting ' + n):
                getattr(t, 'set_' + n)(want[n] + 1)
            check((getattr(t, n)() == want[n] + 1).all(), '%s is not as set',
                n)
            with ctx.sut('setting ' + n):
                getattr(t, 'set_' + n)(want[n].copy())
            scenes.cmp_traj(t, i, by_id[i], kinds, 'after setting ' + n)
    times = sorted(by_time)
    tm = times[case['pick'] % len(times)]
    here = by_time[tm]
    active = [t for t in trajs if int(t.trajid()) in here]
    with ctx.sut('take_snapshot'):
        snap = take_snapshot(active, tm, active[0].schema())
        own = ParticleSnapshot(time=tm, trajid=np.array(list(here)),
            **columns(list(here.values()), kinds))
    scenes.cmp_snapshot(snap, tm, here, kinds, 'snapshot', [int(t.trajid())
        for t in active])
    scenes.cmp_snapshot(own, tm, here, kinds, 'frame', list(here))


@facet('C57', 'databases', cases(), quick=400, rule='HDF and NPZ files '
    + RULE)
def databases(case, ctx):
    from flowtracks import io
    from flowtracks.scene import Scene
    from flowtracks.trajectory import ParticleSnapshot
    kinds, fmt = case['kinds'], case['fmt']
    rows = model(case['tset'], kinds)
    note(case, ctx)
    ctx.note(fmt)
    trajs = objects(rows, kinds)
    base = min(r[1] for r in rows)
    rng = None if case['rng'] is None else [base + v for v in case['rng']]
    lo, hi = rng or (None, None)
    name = ctx.path('d' if fmt == 'npz' else 'd.h5')
    if fmt == 'npz':
        with ctx.sut('saving and reading'):
            io.save_trajectories(name, trajs, {})
            got, adds = io.load_trajectories(name, lo, hi)
        check(not adds, 'unexpected arrays %s', list(adds))
        scenes.unique_match(got, scenes.by_id(scenes.in_range(rows, lo, hi)),
            kinds, 'npz')
        return
    with ctx.sut('saving'):
        if fmt == 'table':
            io.save_particles_table(name, trajs)
        else:
            by_time = scenes.by_time(rows)
            io.save_frames_hdf(name, [ParticleSnapshot(time=t,
                trajid=np.array(list(by_time[t])), **columns(list(
                by_time[t].values()), kinds)) for t in sorted(by_time)])
    with ctx.sut('reading a table'):
        got = io.trajectories_table(name)
    scenes.unique_match(got, scenes.by_id(rows), kinds, 'table')
    rows = [r for r in rows if rng is None or lo <= r[1] < hi]
    by_id, by_time = scenes.by_id(rows), scenes.by_time(rows)
    with ctx.sut('reading a scene'):
        scene = Scene(name, rng)
        got = [t for t in scene.iter_trajectories() if len(t)]
        single = [scene.trajectory_by_id(i) for i in by_id]
        frames = list(scene.iter_frames())
        ones = [scene.frame_by_time(t) for t in by_time]
        segs = list(scene.iter_segments())
        keys = list(scene.keys())
        where = dict((k, tuple(c)) for k, c in case['where'].items())
        cols = scene.collect(['trajid', 'time'] + keys, where or None)
    equal(sorted(keys), sorted(n for n, _ in kinds), 'keys')
    scenes.unique_match(got, by_id, kinds, 'scene')
    for t in single:
        scenes.cmp_traj(t, int(t.trajid()), by_id[int(t.trajid())], kinds)
    for f in frames + ones:
        t = int(f.time())
        scenes.cmp_snapshot(f, t, by_time.get(t, {}), kinds)
    for f, nxt in segs:
        t = int(f.time())
        both = [i for i in by_time.get(t, {}) if i in by_time.get(t + 1, {})]
        for s, tm in [(f, t), (nxt, t + 1)]:
            scenes.cmp_snapshot(s, tm, dict((i, by_time[tm][i])
                for i in both), kinds, 'segment')
    scenes.cmp_collect(cols, ['trajid', 'time'] + keys, [r for r in rows
        if all(holds(r[2][n], c) for n, c in where.items())], kinds,
        'collect where %s' % where)
    del scene


@st.composite
def analysed(draw):
    case = draw(duals.duals(companions=False))
    new = draw(new_names())
    case['kinds'] = rename(gen.all_kinds(case['parts']), new)
    used = set(n for n, _ in case['kinds'])
    case['results'] = []
    for _ in range(draw(st.integers(1, 3))):
        n = draw(another(used, ['time', 'trajid']))
        used.add(n)
        case['results'].append([n, draw(st.sampled_from(['f', 'i', 'v3']))])
    scal = [n for n, k in case['kinds'] + case['results'] if k in 'fi']
    case['where'] = dict((n, [draw(st.integers(-2, 1)), draw(st.integers(0,
        4)), draw(st.booleans())]) for n in (draw(st.lists(
        st.sampled_from(scal), max_size=2, unique=True)) if scal else []))
    case['seq'] = draw(st.booleans())
    return case


@facet('C57', 'analyses', analysed(), quick=130, rule='dual scenes and '
    'sequences, and their analysis with results of any names, ' + RULE)
def analyses(case, ctx):
    from flowtracks import io
    from flowtracks.scene import DualScene
    from flowtracks.sequence import Sequence
    from flowtracks.particle import Particle
    from flowtracks.analysis import analysis, GeneralAnalyser
    from flowtracks.an_scene import AnalysedScene
    kinds, res = case['kinds'], case['results']
    rows = model(case['parts'], kinds)
    note(case, ctx)
    conf = duals.write(case, ctx)
    names = [ctx.path('tracers.h5'), ctx.path('particles.h5')]
    with ctx.sut('saving'):
        io.save_particles_table(names[1], objects(rows, kinds))
    segs = duals.segments(case, case['rng'])

    def value(i, t, k, n):
        v = (i % 7) - t % 3 + k + 0.5
        return int(v) if n == 'i' else [v, -v, 2. * v] if n == 'v3' else v

    class Results(GeneralAnalyser):
        def descr(self):
            return [(n, int if k == 'i' else float, 3 if k == 'v3' else 1)
                for n, k in res]

        def analyse(self, frame, next_frame):
            ids = [int(i) for i in frame.particles.trajid()]
            t = int(frame.particles.time())
            return [np.array([value(i, t, j, k) for i in ids],
                dtype=int if k == 'i' else float).reshape(len(ids),
                3 if k == 'v3' else 1)
                for j, (n, k) in enumerate(res)]
    with ctx.sut('analysis'):
        scene = DualScene(*names, 500., Particle(1e-3, 1450.), tuple(
            case['rng']))
        got = [(int(f.particles.time()), len(f.particles)) for f, _ in
            scene.iter_segments()]
        analysis(scene, ctx.path('a.h5'), conf, [Results()])
        sc = AnalysedScene(ctx.path('a.h5'))
        where = dict((k, tuple(c)) for k, c in case['where'].items())
        both = [n for n, _ in kinds + res]
        cols = sc.collect(['trajid', 'time'] + both, where or None)
        keys = list(sc.keys())
    equal(got, [(s[0], len(s[1])) for s in segs], 'segments')
    equal(sorted(keys), sorted(both), 'keys')
    full = dict(((i, t), v) for i, t, v in rows)
    want = []
    for s in segs:
        for i in s[1]:
            vals = dict(full[i, s[0]], **dict((n, value(i, s[0], j, k))
                for j, (n, k) in enumerate(res)))
            if all(holds(vals[n], c) for n, c in where.items()):
                want.append((i, s[0], vals))
    scenes.cmp_collect(cols, ['trajid', 'time'] + both, want, kinds + res,
        'collect where %s' % where)
    for i in sorted(set(i for s in segs for i in s[1])):
        with ctx.sut('a trajectory'):
            tr = sc.trajectory_by_id(i)
        es = [(s[0], dict(full[i, s[0]], **dict((n, value(i, s[0], j, k))
            for j, (n, k) in enumerate(res)))) for s in segs if i in s[1]]
        scenes.cmp_traj(tr, i, es, kinds + res, 'analysed')
    del sc, scene
    if not case['seq'] or not any(s[1] for s in segs):
        return
    lo, hi = case['rng']
    with ctx.sut('a sequence'):
        seq = Sequence((lo, hi - 1), 500., Particle(1e-3, 1450.), names[1],
            names[0])
        try:
            seq.tracer_trajectories()
        except ValueError: # there are none.
            return
        snaps = [f for f, _ in seq]
    for f, s in zip(snaps, segs):
        if len(f.particles) == len(s[1]): # none dropped for its position.
            scenes.cmp_snapshot(f.particles, s[0], dict((i, full[i, s[0]])
                for i in s[1]), kinds, 'sequence')

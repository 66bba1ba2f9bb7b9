"""C47: properties of any numeric type are stored as they are."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, equal, exact, short
from harness import gen

DTYPES = ['f8', 'f4', 'f2', 'i8', 'i4', 'i2', 'i1', 'u8', 'u4', 'u2', 'u1',
    '?', 'c16', 'c8', '>f8', '>i4', '>u2']
TIMES = ['i8', 'i8', 'i4', 'i2', 'u2', 'f8', 'f4']


def decode(dtype, width, text):
    """An array of values out of a string of hexadecimal digits."""
    raw = bytes.fromhex(text)
    if dtype == '?':
        vals = np.frombuffer(raw, 'u1') % 2 == 1
    else:
        vals = np.frombuffer(raw, dtype)
    return vals.reshape((-1, width) if width > 1 else (-1,)).copy()


SPECIAL = ['nan', 'inf', '-inf', '-0.', '0', '1', '-1']


@st.composite
def encoded(draw, dtype, width, n):
    dt = np.dtype(dtype)
    size = dt.itemsize
    num = n * max(width, 1)
    raw = bytearray(draw(st.binary(min_size=size * num,
        max_size=size * num)))
    if dt.kind in 'fc':
        one = dt.itemsize // (2 if dt.kind == 'c' else 1)
        fdt = np.dtype(dt.str[0] + 'f%d' % one)
        for _ in range(draw(st.integers(0, 3)) if num else 0):
            i = draw(st.integers(0, len(raw) // one - 1))
            raw[i * one:(i + 1) * one] = np.array(float(draw(
                st.sampled_from(SPECIAL))), dtype=fdt).tobytes()
    return bytes(raw).hex()


NAMES = ['temp', 'state', 'w', 'orient', 'accel']


@st.composite
def sets(draw, most=5):
    props = [[n, draw(st.sampled_from(DTYPES)), draw(st.sampled_from([0, 0,
        2, 3, 5]))] for n in draw(st.lists(st.sampled_from(NAMES),
        min_size=1, max_size=3, unique=True))]
    base = draw(st.sampled_from([0, 1, 97, 998, 10001]))
    trajs = []
    for i in draw(st.lists(st.integers(0, 1000), min_size=1, max_size=most,
            unique=True)):
        n = draw(st.integers(1, 6))
        tr = dict(id=i, t0=base + draw(st.integers(0, 3)), pos=draw(
            gen.rows(n)), velocity=draw(gen.rows(n)))
        for name, dt, w in props:
            tr[name] = draw(encoded(dt, w, n))
        trajs.append(tr)
    return dict(props=props, trajs=trajs, pos=draw(st.sampled_from(['f8',
        'f8', 'f4'])), time=draw(st.sampled_from(TIMES)))


def arrays(case):
    """[(id, t0, {name: array})]"""
    out = []
    for tr in case['trajs']:
        d = dict((n, gen.arr(tr[n], 3).astype(case['pos']))
            for n in ('pos', 'velocity'))
        d.update((n, decode(dt, w, tr[n])) for n, dt, w in case['props'])
        out.append((tr['id'], tr['t0'], d))
    return out


def objects(case, data):
    from flowtracks.trajectory import Trajectory
    return [Trajectory(time=np.arange(t0, t0 + len(d['pos'])).astype(
        case['time']), trajid=i, **d) for i, t0, d in data]


def alike(got, want, what):
    """Same values bit by bit, NaNs aside, and the same type."""
    got = np.asarray(got)
    check(got.shape == want.shape, '%s: shape %s, should be %s', what,
        got.shape, want.shape)
    check((got.dtype.kind, got.dtype.itemsize) == (want.dtype.kind,
        want.dtype.itemsize), '%s: type %s, should be %s', what, got.dtype,
        want.dtype)
    if want.dtype.kind == 'c':
        alike(got.real, want.real, what + ', real part')
        alike(got.imag, want.imag, what + ', imaginary part')
        return
    if want.dtype.kind == 'f':
        nan = np.isnan(want)
        ok = np.array_equal(np.isnan(got), nan) and np.array_equal(got[~nan],
            want[~nan]) and np.array_equal(np.signbit(got[~nan]),
            np.signbit(want[~nan]))
    else:
        ok = np.array_equal(got, want)
    check(ok, '%s: got %s, should be %s', what, short(got), short(want))


def cmp_trajects(trajs, data, what):
    trajs = dict((int(t.trajid()), t) for t in trajs)
    equal(sorted(trajs), sorted(i for i, _, _ in data), what)
    for i, t0, d in data:
        t = trajs[i]
        exact(t.time(), np.arange(t0, t0 + len(d['pos'])), '%s: time of %d'
            % (what, i))
        equal(set(t.as_dict()), set(d) | set(['time']), what + ': names')
        for n, v in d.items():
            alike(getattr(t, n)(), v, '%s: %s of %d' % (what, n, i))


def cmp_frames(frames, data, what):
    """{time: frame}"""
    for t, fr in frames.items():
        here = dict((i, (d, t - t0)) for i, t0, d in data
            if 0 <= t - t0 < len(d['pos']))
        ids = [int(i) for i in fr.trajid()]
        equal(sorted(ids), sorted(here), '%s %d' % (what, t))
        if not here:
            continue
        for n in data[0][2]:
            alike(getattr(fr, n)(), np.array([here[i][0][n][here[i][1]]
                for i in ids]), '%s %d: %s' % (what, t, n))


def read_all(path, data, what):
    from flowtracks.scene import Scene
    scene = Scene(path)
    got = list(scene.iter_trajectories())
    single = [scene.trajectory_by_id(i) for i, _, _ in data]
    frames = dict((int(f.time()), f) for f in scene.iter_frames())
    segs = list(scene.iter_segments())
    names = list(data[0][2])
    cols = scene.collect(['trajid', 'time'] + names)
    alone = [scene.collect([n])[0] for n in names]
    lo, hi = scene.frame_range()
    scene.set_frame_range((lo, hi))
    cut = scene.collect(names)
    del scene
    cmp_trajects(got, data, what + ', trajectories')
    cmp_trajects(single, data, what + ', by id')
    cmp_frames(frames, data, what + ', frame')
    equal(sorted(frames), list(range(min(t0 for _, t0, _ in data),
        max(t0 + len(d['pos']) for _, t0, d in data))), what + ': times')
    by_id = dict((i, (t0, d)) for i, t0, d in data)
    for f, n in segs:
        for s in (f, n):
            for name in names:
                if len(s) == 0:
                    continue
                alike(getattr(s, name)(), np.array([by_id[int(i)][1][name][
                    int(s.time()) - by_id[int(i)][0]] for i in s.trajid()]),
                    '%s, segment at %d: %s' % (what, f.time(), name))
    for name, col, a, c in zip(names, cols[2:], alone, cut):
        want = np.array([by_id[int(i)][1][name][int(t) - by_id[int(i)][0]]
            for i, t in zip(cols[0], cols[1])])
        for v in (col, a, c):
            equal(len(v), sum(len(d['pos']) for _, _, d in data), what
                + ': rows')
        alike(col, want, '%s, collect: %s' % (what, name))
        alike(a, want, '%s, collect of %s alone' % (what, name))


RULE = ('properties of 17 numeric types, scalars or vectors of 2, 3, 5, of '
    'any value, among them infinite, NaN and negative zero; ')


@facet('C47', 'tables', sets(), quick=200, rule=RULE + 'saved by '
    'trajectories, and what is read saved by frames; non-trivial with a '
    'property that is not a float of 8 bytes')
def in_tables(case, ctx):
    from flowtracks import io
    from flowtracks.scene import Scene
    data = arrays(case)
    note(case, ctx)
    a, b = ctx.path('a.h5'), ctx.path('b.h5')
    with ctx.sut('saving'):
        io.save_particles_table(a, objects(case, data))
    with ctx.sut('reading'):
        got = io.trajectories_table(a)
        cmp_trajects(got, data, 'trajectories_table')
        read_all(a, data, 'by trajectories')
    with ctx.sut('saving frames'):
        scene = Scene(a)
        io.save_frames_hdf(b, scene.iter_frames())
        del scene
    with ctx.sut('reading frames'):
        read_all(b, data, 'by frames')


def note(case, ctx):
    ctx.note(*[dt for _, dt, _ in case['props']])
    ctx.nontrivial(any(dt != 'f8' for _, dt, _ in case['props']))


@facet('C47', 'npz', sets(), quick=250, rule=RULE + 'saved as NPZ; '
    'non-trivial with a property that is not a float of 8 bytes')
def in_npz(case, ctx):
    from flowtracks import io
    data = arrays(case)
    note(case, ctx)
    add = dict((i, d[case['props'][0][0]]) for i, _, d in data)
    with ctx.sut('saving'):
        io.save_trajectories(ctx.path('npz'), objects(case, data),
            {'added': add})
    with ctx.sut('loading'):
        got, adds = io.load_trajectories(ctx.path('npz'))
    cmp_trajects(got, data, 'loaded')
    equal(sorted(adds), ['added'], 'added names')
    for i, v in add.items():
        alike(adds['added'][i], v, 'added to %d' % i)


@facet('C47', 'snapshots', sets(), quick=300, rule=RULE + 'as snapshots of '
    'trajectories and some of the points; non-trivial with a property '
    'that is not a float of 8 bytes')
def in_snapshots(case, ctx):
    from flowtracks.trajectory import take_snapshot
    data = arrays(case)
    note(case, ctx)
    trajs = objects(case, data)
    frames = {}
    lo = min(t0 for _, t0, _ in data)
    for t in range(lo, max(t0 + len(d['pos']) for _, t0, d in data)):
        here = [tr for tr, (_, t0, d) in zip(trajs, data)
            if 0 <= t - t0 < len(d['pos'])]
        if here:
            with ctx.sut('take_snapshot'):
                frames[t] = take_snapshot(here, t, here[0].schema())
    cmp_frames(frames, data, 'snapshot')
    for tr, (i, t0, d) in zip(trajs, data):
        with ctx.sut('parts'):
            part = dict((n, getattr(tr, n)(slice(1, None))) for n in d)
            mask = dict((n, getattr(tr, n)(np.arange(len(tr)) % 2 == 0))
                for n in d)
            schema = tr.ext_schema()
        for n, v in d.items():
            alike(part[n], v[1:], 'part: ' + n)
            alike(mask[n], v[::2], 'every second: ' + n)
            equal((np.dtype(schema[n][0]).kind,
                np.dtype(schema[n][0]).itemsize, schema[n][1]),
                (v.dtype.kind, v.dtype.itemsize, v.shape[1] if v.ndim > 1
                else 1), 'schema of ' + n)


@facet('C47', 'analysis', sets(), quick=120, rule=RULE + 'as results of an '
    'analysis, and collected with the particles; non-trivial with a property '
    'that is not a float of 8 bytes')
def in_analysis(case, ctx):
    from flowtracks import io
    from flowtracks.scene import DualScene
    from flowtracks.particle import Particle
    from flowtracks.an_scene import AnalysedScene
    from flowtracks.analysis import analysis, GeneralAnalyser
    data = arrays(case)
    note(case, ctx)
    by_id = dict((i, (t0, d)) for i, t0, d in data)
    props = case['props']

    class Again(GeneralAnalyser):
        """Gives the properties again, by other names."""
        def descr(self):
            return [('an_' + n, np.dtype(dt).type, max(w, 1))
                for n, dt, w in props]

        def analyse(self, frame, next_frame):
            out = []
            for n, dt, w in props:
                v = np.array([by_id[int(i)][1][n][int(frame.particles.time())
                    - by_id[int(i)][0]] for i in frame.particles.trajid()],
                    dtype=np.dtype(dt).newbyteorder('='))
                out.append(v.reshape(len(frame.particles), max(w, 1)))
            return out

    lo = min(t0 for _, t0, _ in data)
    hi = max(t0 + len(d['pos']) for _, t0, d in data)
    paths = [ctx.path('tracers.h5'), ctx.path('particles.h5')]
    conf = ctx.path('scene.cfg')
    with open(conf, 'w') as f:
        f.write('[Particle]\ndiameter: 0.0005\ndensity: 1450\n\n[Scene]\n'
            'frame rate: 500\ntracers file: %s\nparticles file: %s\n'
            'first frame: %d\nlast frame: %d\n' % (paths[0], paths[1], lo,
            hi - 1))
    with ctx.sut('saving and analysing'):
        for p in paths:
            io.save_particles_table(p, objects(case, data))
        dual = DualScene(paths[0], paths[1], 500., Particle(5e-4, 1450.),
            (lo, hi))
        analysis(dual, ctx.path('a.h5'), conf, [Again()])
        del dual
        sc = AnalysedScene(ctx.path('a.h5'))
        names = [n for n, _, _ in props]
        cols = sc.collect(['trajid', 'time'] + names + ['an_' + n
            for n in names])
        trajs = list(sc.iter_trajectories())
        del sc
    equal(sorted((int(i), int(t)) for i, t in zip(*cols[:2])), sorted((i, t)
        for i, t0, d in data for t in range(t0, t0 + len(d['pos']) - 1)),
        'rows')
    for k, (n, dt, w) in enumerate(props):
        full = np.array([by_id[int(i)][1][n][int(t) - by_id[int(i)][0]]
            for i, t in zip(*cols[:2])], dtype=dt).reshape((-1,) + ((w,)
            if w else ()))
        alike(cols[2 + k], full, 'collect: ' + n)
        alike(cols[2 + len(props) + k], full, 'collect of analysis: ' + n)
    for tr in trajs:
        t0, d = by_id[int(tr.trajid())]
        for n in names:
            if len(tr):
                alike(getattr(tr, n)(), d[n][:-1], 'trajectory: ' + n)
                alike(getattr(tr, 'an_' + n)(), d[n][:-1],
                    'trajectory: analysis: ' + n)


@st.composite
def mixes(draw):
    """The values of a property at a time, in several types that it has."""
    n = draw(st.integers(2, 6))
    width = draw(st.sampled_from([0, 0, 2, 3]))
    dts = draw(st.lists(st.sampled_from(['?', 'i1', 'u1', 'i2', 'u2', 'i4',
        'f4', 'f8', 'f8']), min_size=n, max_size=n))
    vals = [draw(st.lists(st.integers(0, 1) if dt == '?' else
        st.integers(0, 100) if dt in ('i1', 'u1') else st.integers(0, 30000)
        if dt[0] in 'iu' else st.floats(-100, 100, width=16),
        min_size=max(width, 1), max_size=max(width, 1))) for dt in dts]
    return dict(width=width, dts=dts, vals=vals, pos=draw(gen.rows(n)),
        int_pos=draw(st.lists(st.booleans(), min_size=n, max_size=n)))


@facet('C47', 'mixed', mixes(), quick=300, rule='snapshots of trajectories '
    'that have the same property, or positions, in different types, of '
    'values that all these can have together; non-trivial if types differ')
def mixed(case, ctx):
    from flowtracks.trajectory import Trajectory, take_snapshot
    w = case['width']
    vals = [np.array(v, dtype=dt) if w else np.array(v, dtype=dt)[0]
        for v, dt in zip(case['vals'], case['dts'])]
    pos = [np.array([int(x * 10) for x in p]) if whole else np.array(p)
        for p, whole in zip(case['pos'], case['int_pos'])]
    ctx.nontrivial(len(set(case['dts'])) > 1
        or len(set(case['int_pos'])) > 1)
    with ctx.sut('a snapshot'):
        trajs = [Trajectory(np.array([p, p]), np.zeros((2, 3)), np.arange(2),
            i, amp=np.array([v, v])) for i, (p, v) in enumerate(zip(pos,
            vals))]
        snap = take_snapshot(trajs, 1, trajs[0].schema())
    equal([int(i) for i in snap.trajid()], list(range(len(vals))), 'ids')
    for i, (p, v) in enumerate(zip(pos, vals)):
        for name, got, want in [('amp', snap.amp()[i], v), ('pos',
                snap.pos()[i], p)]:
            check(np.array_equal(np.asarray(got, float), np.asarray(want,
                float)), '%s of %d: got %s, should be %s', name, i, got,
                want)


@facet('C47', 'mixed-files', mixes(), quick=200, rule='such trajectories in '
    'a table, and frames of such particles; non-trivial if types differ')
def mixed_files(case, ctx):
    from flowtracks import io
    from flowtracks.scene import Scene
    from flowtracks.trajectory import Trajectory, ParticleSnapshot
    w = case['width']
    vals = [np.array([v], dtype=dt) if w else np.array(v, dtype=dt)
        for v, dt in zip(case['vals'], case['dts'])]
    pos = [np.array([[int(x * 10) for x in p]]) if whole else np.array([p])
        for p, whole in zip(case['pos'], case['int_pos'])]
    ctx.nontrivial(len(set(case['dts'])) > 1
        or len(set(case['int_pos'])) > 1)
    zero = np.zeros((1, 3))
    for how in ('trajectories', 'frames'):
        path = ctx.path(how + '.h5')
        with ctx.sut('saving ' + how):
            if how == 'frames':
                io.save_frames_hdf(path, [ParticleSnapshot(p, zero, i,
                    np.array([i]), amp=v) for i, (p, v) in
                    enumerate(zip(pos, vals))])
            else:
                io.save_particles_table(path, [Trajectory(p, zero,
                    np.array([i]), i, amp=v) for i, (p, v) in
                    enumerate(zip(pos, vals))])
        with ctx.sut('reading ' + how):
            sc = Scene(path)
            got = [sc.trajectory_by_id(i) for i in range(len(vals))]
            del sc
        for i, tr in enumerate(got):
            for name, all_vals in [('amp', vals), ('pos', pos)]:
                have = np.asarray(getattr(tr, name)())
                want = all_vals[i]
                equal(have.shape, want.shape, 'shape of ' + name)
                if np.array_equal(have.astype(float), want.astype(float)):
                    continue
                first = all_vals[0].dtype
                if not np.array_equal(want.astype(first).astype(float),
                        want.astype(float)):
                    # The column has not the type for it.
                    ctx.known('mixed-file', 'values that the type of the '
                        'first trajectory or frame does not have are '
                        'changed')
                    continue
                check(False, '%s of %d in %s: got %s, should be %s', name, i,
                    how, have, want)

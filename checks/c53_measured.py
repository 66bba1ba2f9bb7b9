"""C53: the measured data that comes with flowtracks."""
import functools, os, shutil
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact
from harness import ptvis, fields
from harness.fields import Eligible

FIRST, LAST = 10001, 10200
DATA = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'data')
FILMS = dict(particles=('particles', 'xuap.%d', True),
    tracers=('tracers', 'ptv_is.%d', False))


def source(which, frame):
    d, tmpl, _ = FILMS[which]
    return os.path.join(DATA, d, tmpl % frame)


@functools.lru_cache(None)
def frame(which, f):
    """Rows (previous, next, pos in m, velocity or None), links from 0."""
    xuap = FILMS[which][2]
    with open(source(which, f)) as i:
        lines = [l.split() for l in i.read().splitlines()]
    if not xuap:
        lines = lines[1:]
    out = []
    for l in lines:
        v = [float(x) for x in l]
        if xuap:
            out.append((int(v[0]) - 1, int(v[1]) - 1, v[2:5], v[8:11]))
        else:
            out.append((int(v[0]), int(v[1]), [x / 1000. for x in v[2:5]],
                None))
    return out


def chains(which, first, last):
    """Trajectories over the frames first..last, that end there, as arrays."""
    done, at = [], {}
    for f in range(max(first, FIRST), min(last, LAST) + 1):
        now = {}
        for i, (prev, nxt, pos, vel) in enumerate(frame(which, f)):
            tr = at[prev] if prev >= 0 and f > max(first, FIRST) else []
            tr.append((f, pos, vel))
            now[i] = tr
            if nxt == -2:
                done.append(tr)
        at = now
    return done


def arrays(tr, frate):
    t = np.array([r[0] for r in tr])
    pos = np.array([r[1] for r in tr])
    if tr[0][2] is None:
        return (t, pos) + ptvis.motion(pos, frate)
    vel = np.array([r[2] for r in tr])
    return t, pos, vel, ptvis.accel_of(vel, frate)


@st.composite
def windows(draw, most):
    n = draw(st.integers(2, most))
    first = draw(st.integers(FIRST, LAST - n + 1))
    return [first, first + n - 1]


def match(got, want):
    """
    As ptvis.match_trajects, for many trajectories. The order and ids are
    not specified.
    """
    def key(t, pos):
        return (int(t[0]), len(t)) + tuple(np.round(pos[0], 7) + 0.) \
            + tuple(np.round(pos[-1], 7) + 0.)
    left = {}
    for w in want:
        left.setdefault(key(w[0], w[1]), []).append(w)
    for tr in got:
        t, pos = np.asarray(tr.time()), np.asarray(tr.pos())
        equal(pos.shape, (len(t), 3), 'shape of positions')
        k = key(t, pos)
        check(left.get(k), 'a trajectory at %s from %s that is not in the '
            'data', t, pos[0])
        fits = [w for w in left[k] if np.array_equal(w[0], t)
            and np.allclose(w[1], pos, 1e-9, 1e-12)]
        check(fits, 'a trajectory at %s from %s is not as recorded', t, pos[0])
        w = fits[0]
        if len(fits) > 1:
            close = [np.abs(f[2] - tr.velocity()).max() for f in fits]
            w = fits[int(np.argmin(close))]
        what = 'of the trajectory at %s from %s' % (t, pos[0])
        same(tr.velocity(), w[2], 'velocity ' + what, 1e-7, 1e-7)
        same(tr.accel(), w[3], 'acceleration ' + what, 1e-7, 1e-4)
        left[k] = [x for x in left[k] if x is not w]
    left = [w for ws in left.values() for w in ws]
    check(not left, '%d trajectories missing, such as %s', len(left),
        [w[:2] for w in left[:1]])
    ids = [int(tr.trajid()) for tr in got]
    equal(len(set(ids)), len(ids), 'different ids')


@facet('C53', 'films', st.fixed_dictionaries(dict(
        which=st.sampled_from(['particles', 'tracers']), rng=windows(16),
        beyond=st.sampled_from([0, 0, 3]), copied=st.booleans(),
        min_len=st.sampled_from([None, 1, 2, 3, 6]),
        frate=st.sampled_from([1., 500.]),
        how=st.sampled_from(['direct', 'front', 'iter']))), quick=100,
    rule='2-16 of the 200 frames of particles or of tracers in the data '
    'directory, chosen by range or by copying their files; non-trivial if '
    'five trajectories end in them, one after three points')
def films(case, ctx):
    from flowtracks import io
    which, (first, last) = case['which'], case['rng']
    d, tmpl, xuap = FILMS[which]
    place, rng = os.path.join(DATA, d), [first, last]
    if case['copied']:
        place = ctx.tmp
        for f in range(first, last + 1):
            shutil.copy(source(which, f), place)
        rng = [None, None] if not case['beyond'] else [first - 3, last + 3]
    frate, min_len = case['frate'], case['min_len']
    path = os.path.join(place, tmpl)
    with ctx.sut('reading'):
        if case['how'] == 'direct':
            got = io.trajectories_ptvis(path, rng[0], rng[1], frate, xuap,
                min_len)
        elif case['how'] == 'front':
            got = io.trajectories(path, rng[0], rng[1], frate,
                traj_min_len=min_len)
        else:
            got = list(io.trajectories(path, rng[0], rng[1], frate,
                traj_min_len=min_len, iter_allowed=True))
    want = [tr for tr in chains(which, first, last)
        if len(tr) >= (2 if min_len is None else min_len)]
    ctx.note(which)
    ctx.nontrivial(len(want) > 4 and max(map(len, want)) > 2)
    match(got, [arrays(tr, frate) for tr in want])


@functools.lru_cache(None)
def shipped():
    """The rows of particles.h5, from the text they were made of."""
    out = []
    for n, tr in enumerate(chains('particles', FIRST, LAST)):
        if len(tr) < 2:
            continue
        t, pos, vel, acc = arrays(tr, 500.)
        for i in range(len(t)):
            out.append((n, t[i], pos[i], vel[i], acc[i]))
    return out


def table_like(rows):
    """{field: array} of rows of shipped(), in some order."""
    return dict((k, np.array([r[i] for r in rows]).reshape(
        (len(rows), 3) if i > 1 else len(rows))) for i, k in
        enumerate(['n', 'time', 'pos', 'velocity', 'accel']))


def as_set(t, pos, *more):
    """To compare rows in any order."""
    m = np.hstack([np.asarray(t, dtype=float).reshape(-1, 1)] + [
        np.asarray(p, dtype=float).reshape(-1, 3) for p in (pos,) + more])
    return m[np.lexsort(np.round(m[:, :4].T[::-1], 7) + 0.)]


conds = st.one_of(st.none(), st.tuples(st.sampled_from(['time', 'trajid']),
    st.floats(0, 1), st.floats(0, 1), st.booleans()).map(list))


@facet('C53', 'table', st.fixed_dictionaries(dict(
        ranges=st.lists(windows(40), min_size=1, max_size=3), cond=conds)),
    quick=50,
    rule='the table of particles in the data directory as a scene, with 1-3 '
    'ranges of frames one after another and a condition; non-trivial if a '
    'range has ten rows')
def table(case, ctx):
    from flowtracks.scene import Scene
    name = ctx.path('particles.h5')
    shutil.copy(os.path.join(DATA, 'particles.h5'), name)
    fields3 = ['time', 'pos', 'velocity', 'accel']
    with ctx.sut('opening the scene'):
        scene = Scene(name)
        whole = scene.collect(['trajid'] + fields3)
    same(as_set(*whole[1:]), as_set(*[table_like(shipped())[k]
        for k in fields3]), 'all rows', 1e-9, 1e-9)
    # The ids are those of the table.
    ids = dict(((int(t), tuple(p)), int(i)) for i, t, p in zip(whole[0],
        whole[1], whole[2]))
    byid = {}
    for i, t in zip(whole[0], whole[1]):
        byid.setdefault(int(i), []).append(int(t))
    runs = sorted((min(t), len(t)) for t in byid.values())
    mine = {}
    for r in shipped():
        mine.setdefault(r[0], []).append(int(r[1]))
    equal(runs, sorted((min(t), len(t)) for t in mine.values()),
        'first frames and lengths')

    for first, last in case['ranges']:
        rows = [(int(i), int(t), p, v, a) for i, t, p, v, a in zip(*whole)
            if first <= t <= last]
        want = table_like(rows)
        ctx.nontrivial(len(rows) > 9)
        with ctx.sut('range and collection'):
            scene.set_frame_range((first, last + 1))
            got = scene.collect(fields3)
            frames = list(scene.iter_frames())
            segs = list(scene.iter_segments())
            trajs = [t for t in scene.iter_trajectories() if len(t)]
        same(as_set(*got), as_set(*[want[k] for k in fields3]), 'rows', 0, 0)
        equal([int(f.time()) for f in frames], list(range(first, last + 1)),
            'frames')
        for f in frames:
            here = want['time'] == f.time()
            o = np.argsort(f.trajid())
            w = np.argsort(want['n'][here])
            exact(f.trajid()[o], want['n'][here][w], 'ids of the frame')
            for k in fields3[1:]:
                exact(getattr(f, k)()[o], want[k][here][w], k + ' of frame')
        equal(len(segs), last - first, 'number of segments')
        for n, (a, b) in enumerate(segs):
            both = sorted(set(want['n'][want['time'] == first + n])
                & set(want['n'][want['time'] == first + n + 1]))
            for f, t in ((a, first + n), (b, first + n + 1)):
                exact(np.sort(f.trajid()), both, 'ids of the segment')
                o = np.argsort(f.trajid())
                w = [rows[i] for i in np.nonzero(want['time'] == t)[0]]
                w = dict((r[0], r) for r in w)
                exact(f.pos()[o].reshape(-1, 3), np.array([w[i][2]
                    for i in both]).reshape(-1, 3), 'pos of the segment')
        exact(sorted(int(t.trajid()) for t in trajs), sorted(set(want['n'])),
            'ids of trajectories')
        for t in trajs:
            here = want['n'] == t.trajid()
            o = np.argsort(want['time'][here])
            exact(t.time(), want['time'][here][o], 'times of a trajectory')
            for k in fields3[1:]:
                exact(getattr(t, k)(), want[k][here][o], k + ' of trajectory')
        if case['cond'] is not None:
            field, a, b, neg = case['cond']
            v = want['n' if field == 'trajid' else field]
            if len(v) == 0:
                continue
            # Between values: what is at the limits is for C16 to say.
            a, b = [float(np.floor(np.quantile(v, q))) + 0.5 for q in
                sorted([a, b])]
            inside = (v >= a) & (v < b)
            with ctx.sut('collection under condition'):
                got = scene.collect(fields3, {field: (a, b, neg)})
            rest = ~inside if neg else inside
            same(as_set(*got), as_set(*[want[k][rest] for k in fields3]),
                'rows with %s in %s..%s, inverted: %s' % (field, a, b, neg),
                0, 0)


@facet('C53', 'dual', st.fixed_dictionaries(dict(
        rng=windows(8), k=st.integers(1, 6), way=st.sampled_from(['table',
        'frames']), p=st.sampled_from([1, 2]), radius=st.sampled_from([None,
        None, 0.005, 0.01]))), quick=30,
    rule='2-8 frames of the measured tracers, of trajectories or frames, and '
    'the table of particles, analysed together; non-trivial if the velocity '
    'at five particles can be predicted')
def dual(case, ctx):
    from flowtracks import io
    from flowtracks.scene import DualScene
    from flowtracks.particle import Particle
    from flowtracks.interpolation import Interpolant
    from flowtracks.trajectory import take_snapshot
    from flowtracks.analysis import analysis, FluidVelocitiesAnalyser
    from flowtracks.an_scene import AnalysedScene
    first, last = case['rng']
    # A longer film, so that more trajectories end in it.
    lo, hi = max(first - 2, FIRST), min(last + 8, LAST)
    want = [arrays(tr, 500.) for tr in chains('tracers', lo, hi)
        if len(tr) > 1]
    if not want:
        return
    d, tmpl, _ = FILMS['tracers']
    parts, out = ctx.path('particles.h5'), ctx.path('tracers.h5')
    shutil.copy(os.path.join(DATA, 'particles.h5'), parts)
    with ctx.sut('storing tracers'):
        trajs = io.trajectories_ptvis(os.path.join(DATA, d, tmpl), lo, hi,
            500.)
        if case['way'] == 'table':
            io.save_particles_table(out, trajs)
        else:
            # Not by trajectories_in_frame(), which would drop some of the
            # tracers, as a few are in the same place as others.
            io.save_frames_hdf(out, [take_snapshot([tr for tr in trajs
                if tr.time()[0] <= t <= tr.time()[-1]], t, trajs[0].schema())
                for t in range(lo, hi + 1)])
    conf = ctx.path('c.cfg')
    with open(conf, 'w') as f:
        f.write('[Particle]\ndensity = 1450\ndiameter = 500e-6\n\n[Scene]\n'
            'particles file = %s\ntracers file = %s\nfirst frame = %d\n'
            'last frame = %d\nframe rate = 500\n' % (parts, out, first, last))
    with ctx.sut('analysis'):
        scene = DualScene(out, parts, 500., Particle(0.0005, 1450.),
            (first, last + 1))
        analysis(scene, ctx.path('a.h5'), conf, [FluidVelocitiesAnalyser(
            Interpolant('inv', case['k'], case['radius'], case['p']))])
        an = AnalysedScene(ctx.path('a.h5'))
        keys = ['time', 'pos', 'velocity', 'fluid_vel', 'rel_vel']
        got = dict(zip(keys, an.collect(keys)))
    rows, known = {}, 0
    by = {}
    for r in shipped():
        if first <= r[1] <= last:
            by.setdefault((r[0], int(r[1])), r)
    at = {}
    for ts, pos, vel, _ in want:
        for i, t in enumerate(ts[:-1]):
            at.setdefault(int(t), []).append((pos[i], vel[i]))
    n = 0
    for (i, t), r in by.items():
        if (i, t + 1) in by:
            rows.setdefault(t, []).append(r)
            n += 1
    equal(len(got['time']), n, 'rows of the analysis')
    for t, here in rows.items():
        sel = np.nonzero(got['time'] == t)[0]
        left = dict((tuple(np.round(r[2], 7) + 0.), r) for r in here)
        equal(len(sel), len(here), 'rows in frame %d' % t)
        tp, tv = zip(*at[t]) if t in at else ((), ())
        for j in sel:
            k = tuple(np.round(got['pos'][j], 7) + 0.)
            check(k in left, 'a row at %s in %d, which is not in the data',
                k, t)
            same(got['velocity'][j], left[k][3], 'velocity', 1e-9, 1e-9)
            if not tp:
                continue
            el = Eligible(tp, got['pos'][j], radius=case['radius'])
            if not el.idx or el.ambiguous(case['k']) or el.dists[0] < 1e-7:
                continue
            known += 1
            v = fields.ref_inv(tp, np.array(tv), *el.nearest(case['k']),
                p=case['p'])
            what = 'at %s in %d' % (k, t)
            same(got['fluid_vel'][j], v, 'fluid velocity ' + what, 1e-6, 1e-8)
            same(got['rel_vel'][j], left[k][3] - v, 'relative velocity '
                + what, 1e-6, 1e-8)
    ctx.note(case['way'])
    ctx.nontrivial(known > 4)

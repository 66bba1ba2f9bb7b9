"""C44: the way from linked frames to an analysis, as a whole."""
import os
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact
from harness import gen, ptvis, fields
from harness.fields import Eligible
from checks.c37_savgol import fits


@st.composite
def films(draw, base, nframes, most, xuap):
    """As ptvis.linked_frames, with longer trajectories that mostly end."""
    n = draw(st.integers(1, most))
    trajs = []
    for _ in range(n):
        start = draw(st.integers(0, nframes - 2))
        length = draw(st.integers(2, nframes - start))
        tr = dict(start=start, pos=draw(gen.rows(length, 3, 100.)))
        if xuap:
            tr['vel'] = draw(gen.rows(length, 3))
            tr['acc'] = draw(gen.rows(length, 3, 5.))
            tr['pos_int'] = tr['pos']
        tr['goes_on'] = start + length == nframes and \
            draw(st.integers(0, 5)) == 0
        trajs.append(tr)
    order = [list(draw(st.permutations([i for i in range(n)
        if trajs[i]['start'] <= f < trajs[i]['start']
        + len(trajs[i]['pos'])]))) for f in range(nframes)]
    return dict(first=base, nframes=nframes, trajs=trajs, order=order)


@st.composite
def cases(draw):
    base = draw(st.sampled_from([0, 1, 8, 97, 998, 10001]))
    xuap = draw(st.booleans())
    both = dict(tracers=draw(films(base, draw(st.integers(4, 10)), 8, xuap)),
        parts=draw(films(base, draw(st.integers(4, 10)), 4, False)))
    lo = draw(st.sampled_from([0, 0, 0, 1, 2]))
    hi = lo + draw(st.one_of(st.integers(1, 9), st.integers(5, 9)))
    return dict(films=both, xuap=xuap, base=base, rng=[base + lo, base + hi],
        frate=draw(st.sampled_from([1., 500., 30.])),
        min_len=draw(st.sampled_from([1, 2, 3])),
        smooth=draw(st.sampled_from([False, False, True])),
        way=draw(st.sampled_from(['table', 'frames', 'npz', 'mixed'])),
        k=draw(st.integers(1, 4)), p=draw(st.sampled_from([1, 2])))


def model(film, case, xuap):
    """[(times, pos, vel)] of what should go on from reading."""
    out = []
    for e in ptvis.expected(film, min_len=case['min_len']):
        t, pos, vel, _ = ptvis.expected_arrays(e, case['frate'], xuap)
        if case['smooth']:
            if len(t) < 3:
                continue
            d = np.stack([fits(pos[:,c], 3, 1) for c in range(3)], axis=-1)
            pos, vel = d[:,0], d[:,1] * case['frate']
        out.append((t, pos, vel))
    return out


def save(trajs, fname, way, ctx):
    from flowtracks import io
    from flowtracks.trajectory import trajectories_in_frame, take_snapshot
    if way == 'npz':
        d = fname + '.d'
        io.save_trajectories(d, trajs, {})
        trajs = io.trajectories(d + '/', None, None, 1., traj_min_len=1)
    if way == 'frames':
        times = sorted(set(int(t) for tr in trajs for t in tr.time()))
        snaps = []
        for t in times:
            here = trajectories_in_frame(trajs, t)
            snaps.append(take_snapshot([trajs[i] for i in here], t,
                trajs[0].schema()))
        io.save_frames_hdf(fname, snaps)
    else:
        io.save_particles_table(fname, trajs)


@facet('C44', 'whole', cases(), quick=300,
    rule='two films, of tracers and particles, read, possibly smoothed, '
    'stored as HDF by trajectories or frames or by way of NPZ, and analysed '
    'together by the fluid velocity at particles; non-trivial if the '
    'velocities of two rows can be predicted at least')
def whole(case, ctx):
    from flowtracks import io, smoothing
    from flowtracks.scene import read_dual_scene
    from flowtracks.analysis import analysis, FluidVelocitiesAnalyser
    from flowtracks.an_scene import AnalysedScene
    from flowtracks.interpolation import interpolant
    want = dict((w, model(case['films'][w], case, case['xuap'] and w ==
        'tracers')) for w in ('tracers', 'parts'))
    # There must be something to store, and no two in the same place which
    # snapshots take as one.
    if not want['tracers'] or not want['parts']:
        return
    ways = dict(tracers=case['way'], parts=case['way'])
    if case['way'] == 'mixed':
        ways = dict(tracers='frames', parts='table')
    for w, trs in want.items():
        if ways[w] == 'frames':
            cells = [(int(t), tuple(p)) for ts, pos, _ in trs
                for t, p in zip(ts, pos.round(9))]
            if len(set(cells)) < len(cells):
                return
    for w in want:
        os.mkdir(ctx.path(w))
        xuap = case['xuap'] and w == 'tracers'
        write = ptvis.write_xuap_dir if xuap else ptvis.write_ptvis_dir
        write(case['films'][w], ctx.path(w))
        tmpl = ctx.path(w, 'xuap.%d' if xuap else 'ptv_is.%d')
        with ctx.sut('reading and storing ' + w):
            trajs = io.trajectories(tmpl, None, None, case['frate'],
                traj_min_len=case['min_len'])
            if case['smooth']:
                trajs = smoothing.savitzky_golay(trajs, case['frate'], 3, 1)
            save(trajs, ctx.path(w + '.h5'), ways[w], ctx)
    ctx.note(ways['tracers'], *[n for n in ('xuap', 'smooth') if case[n]])
    conf = ctx.path('scene.cfg')
    first, end = case['rng']
    with open(conf, 'w') as f:
        f.write('[Particle]\ndiameter: 0.001\ndensity: 1200\n\n[Scene]\n'
            'frame rate: %r\ntracers file: %s\nparticles file: %s\n'
            'first frame: %d\nlast frame: %d\n' % (case['frate'],
            ctx.path('tracers.h5'), ctx.path('parts.h5'), first, end - 1))
    with ctx.sut('analysis'):
        scene = read_dual_scene(conf)
        analysis(scene, ctx.path('a.h5'), conf, [FluidVelocitiesAnalyser(
            interpolant('inv', case['k'], param=case['p']))])
        del scene
        an = AnalysedScene(ctx.path('a.h5'))
        keys = ['trajid', 'time', 'pos', 'velocity', 'fluid_vel', 'rel_vel']
        got = dict(zip(keys, an.collect(keys)))
        trajs = list(an.iter_trajectories())
        del an

    # Rows by the film, for each segment.
    scale = 1e-9 * max(1., case['frate'])
    rows, known = [], 0
    for ts, pos, vel in want['parts']:
        for n, t in enumerate(ts[:-1]):
            if not first <= t < end - 1:
                continue
            tp, tv = [], []
            for tts, tpos, tvel in want['tracers']:
                i = t - tts[0]
                if 0 <= i < len(tts) - 1:
                    tp.append(tpos[i])
                    tv.append(tvel[i])
            fluid = np.zeros(3)
            if tp:
                el = Eligible(tp, pos[n])
                fluid = None
                if el.idx and not el.ambiguous(case['k']) and (el.dists[0]
                        > 1e-6 and len(el.idx) == len(tp)):
                    fluid = fields.ref_inv(tp, np.array(tv),
                        *el.nearest(case['k']), p=case['p'])
                    known += 1
            rows.append((t, pos[n], vel[n], fluid))
    ctx.nontrivial(known > 1)
    equal(len(got['time']), len(rows), 'rows of the analysis')
    ids = list(zip(map(int, got['trajid']), map(int, got['time'])))
    equal(len(set(ids)), len(ids), 'different rows')
    left = list(range(len(rows)))
    for j in range(len(rows)):
        t = int(got['time'][j])
        here = [i for i in left if rows[i][0] == t
            and np.allclose(rows[i][1], got['pos'][j], 1e-9, 1e-12)
            and np.allclose(rows[i][2], got['velocity'][j], 1e-7, scale)]
        check(here, 'a row at %d, pos. %s, vel. %s, which is not in the film',
            t, got['pos'][j], got['velocity'][j])
        left.remove(here[0])
        fluid = rows[here[0]][3]
        if fluid is not None:
            what = 'at %d, pos. %s' % (t, got['pos'][j])
            same(got['fluid_vel'][j], fluid, 'fluid velocity ' + what, 1e-6,
                scale)
            same(got['rel_vel'][j], rows[here[0]][2] - fluid,
                'relative velocity ' + what, 1e-6, scale)

    # Trajectories of the analysis are these of the film.
    left = [(ts[:-1], pos[:-1]) for ts, pos, vel in want['parts']]
    left = [(ts[(ts >= first) & (ts < end - 1)], pos[(ts >= first)
        & (ts < end - 1)]) for ts, pos in left]
    left = [e for e in left if len(e[0])]
    n = 0
    for tr in trajs:
        if len(tr) == 0:
            continue
        n += 1
        check(any(len(ts) == len(tr) and (ts == tr.time()).all()
            and np.allclose(pos, tr.pos(), 1e-9, 1e-12) for ts, pos in left),
            'trajectory %s at %s is not of the film', tr.trajid(), tr.time())
    equal(n, len(left), 'number of trajectories')

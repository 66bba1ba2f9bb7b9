"""C52: data is the same after conversions between formats."""
import os
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, equal, exact
from harness import gen, oldfmt, ptvis

READS = dict(
    h5=['table', 'front', 'scene', 'scene by id', 'front iter'],
    npz=['load', 'front', 'front iter'])
WRITES = ['table', 'table of iterator', 'frames', 'snapshots', 'npz']


@st.composite
def cases(draw):
    source = draw(st.sampled_from(['memory', 'memory', 'memory', 'mat', 'acc',
        'ptvis', 'xuap']))
    case = dict(source=source)
    gaps = draw(st.integers(0, 2)) == 0
    if source in ('ptvis', 'xuap'):
        case['film'] = draw(ptvis.linked_frames(xuap=True))
    else:
        kw = dict(max_n=6, max_len=7, span=6, unique_pos=True, gaps=gaps)
        if source != 'memory':
            kw['props'] = [['accel', 'v3']]
        if source == 'acc':
            kw['first'] = st.sampled_from([1, 7, 97, 10001])
        if source == 'mat':
            kw['scale'] = 500.
        case['tset'] = draw(gen.traj_sets(**kw))
        if draw(st.integers(0, 3)) == 0:
            case['tset'] = draw(gen.shared_positions(case['tset']))
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        w = draw(st.sampled_from(WRITES))
        r = draw(st.sampled_from(READS['npz' if w == 'npz' else 'h5']))
        rng = None
        if draw(st.integers(0, 4)) == 0:
            rng = [draw(st.sampled_from([None, 0, 1, 2])),
                draw(st.sampled_from([None, None, 3, 5, 9]))]
        steps.append([w, r, rng])
    return dict(case, steps=steps)


def start(case, ctx):
    """The trajectories to begin with, by the proper reader."""
    from flowtracks import io
    source = case['source']
    if source == 'memory':
        return gen.make_trajs(case['tset'])
    d = ctx.path('source')
    os.mkdir(d)
    if source == 'mat':
        name = os.path.join(d, 'data.mat')
        oldfmt.write_mat(name, case['tset'])
    elif source == 'acc':
        t0 = [tr['t0'] for tr in case['tset']['trajs']]
        oldfmt.write_acc(d, 'trajAcc.%d', case['tset'],
            list(range(min(t0), max(t0) + 1)))
        with ctx.sut('reading the source'):
            return io.trajectories_acc(os.path.join(d, 'trajAcc.%d'))
    elif source == 'ptvis':
        name = os.path.join(d, 'ptv_is.%d')
        ptvis.write_ptvis_dir(case['film'], d)
    else:
        name = os.path.join(d, 'xuap.%d')
        ptvis.write_xuap_dir(case['film'], d)
    with ctx.sut('reading the source'):
        return list(io.trajectories(name, None, None, 30., traj_min_len=1))


def model(trajs):
    """{id: {property: array}}, by plain arrays."""
    return dict((int(tr.trajid()), dict((k, np.array(v)) for k, v in
        tr.as_dict().items())) for tr in trajs)


def separate(m):
    """Whether no frame has two particles in the same place, or is missed."""
    seen = set()
    for a in m.values():
        if np.any(np.diff(a['time']) != 1):
            return False
        for t, p in zip(a['time'], a['pos']):
            key = (int(t),) + tuple(p.tolist())
            if key in seen:
                return False
            seen.add(key)
    return True


def write(how, trajs, path, last_h5):
    from flowtracks import io
    from flowtracks.scene import Scene
    from flowtracks.trajectory import trajectories_in_frame, take_snapshot
    if how == 'npz':
        io.save_trajectories(path, trajs, {})
        return path + '/'
    if how == 'table':
        io.save_particles_table(path, trajs)
    elif how == 'table of iterator':
        if last_h5 is None:
            io.save_particles_table(path, iter(trajs))
        else:
            io.save_particles_table(path, Scene(last_h5).iter_trajectories())
    elif how == 'frames':
        if last_h5 is None:
            last_h5 = path + '.1.h5'
            io.save_particles_table(last_h5, trajs)
        io.save_frames_hdf(path, Scene(last_h5).iter_frames())
    else:
        times = range(min(int(tr.time()[0]) for tr in trajs),
            max(int(tr.time()[-1]) for tr in trajs) + 1)
        schema = trajs[0].schema()
        io.save_frames_hdf(path, (take_snapshot([trajs[i] for i in
            trajectories_in_frame(trajs, t)], t, schema) for t in times))
    return path


def read(how, name, lo, hi):
    from flowtracks import io
    from flowtracks.scene import Scene
    if how == 'table':
        # One out of the range is there, empty.
        return [tr for tr in io.trajectories_table(name, lo, hi)
            if len(tr) > 0]
    if how == 'load':
        return [tr for tr in io.load_trajectories(name, lo, hi)[0]]
    if how.startswith('front'):
        return list(io.trajectories(name, lo, hi, 1., traj_min_len=1,
            iter_allowed=how.endswith('iter')))
    # The range of a scene has both ends, the last one outside.
    scene = Scene(name)
    first, last = scene.frame_range()
    scene.set_frame_range((first if lo is None else max(lo, first),
        last if hi is None else min(hi + 1, last)))
    if how == 'scene':
        return [tr for tr in scene.iter_trajectories() if len(tr) > 0]
    return [tr for tr in (scene.trajectory_by_id(i) for i in
        scene.trajectory_ids()) if len(tr) > 0]


@facet('C52', 'chains', cases(), quick=450,
    rule='data in memory or as read from mat, trajAcc, ptv_is and xuap '
    'files, converted 1-4 times through tables saved by trajectory or by '
    'frame and NPZ directories, by any of the writers and readers, whole '
    'or over a range; non-trivial with two conversions of two trajectories')
def chains(case, ctx):
    trajs = start(case, ctx)
    if len(trajs) == 0:
        return
    now = model(trajs)
    equal(len(now), len(trajs), 'number of ids')
    ctx.note(case['source'])
    base = min(a['time'].min() for a in now.values())
    last_h5 = None
    done = 0
    for n, (w, r, rng) in enumerate(case['steps']):
        if w == 'snapshots' and not separate(now):
            w = 'frames'
        lo, hi = (None, None) if rng is None else [None if v is None
            else int(base) + v for v in rng]
        path = ctx.path('step %d' % n) + ('' if w == 'npz' else '.h5')
        what = 'step %d (%s, %s)' % (n + 1, w, r)
        with ctx.sut(what):
            name = write(w, trajs, path, last_h5)
        want = {}
        for i, a in now.items():
            keep = np.ones(len(a['time']), dtype=bool)
            if lo is not None:
                keep &= a['time'] >= lo
            if hi is not None:
                keep &= a['time'] <= hi
            if keep.any():
                want[i] = dict((k, v[keep]) for k, v in a.items())
        if len(want) == 0:
            lo, hi, want = None, None, now
        with ctx.sut(what):
            trajs = list(read(r, name, lo, hi))
        got = model(trajs)
        equal(len(got), len(trajs), '%s: number of ids' % what)
        equal(sorted(got), sorted(want), '%s: ids' % what)
        for i, a in want.items():
            equal(sorted(got[i]), sorted(a), '%s: properties' % what)
            for k, v in a.items():
                exact(got[i][k], v, '%s: %s of %d' % (what, k, i))
        done += 1
        # The file has more than that if a range was read.
        last_h5 = name if w != 'npz' and (lo, hi) == (None, None) else None
        now = want
        ctx.note(w, r)
    ctx.nontrivial(done > 1 and len(now) > 1)

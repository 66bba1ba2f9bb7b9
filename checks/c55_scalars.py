"""C55: numbers may be given as NumPy scalars, as data has them."""
import os
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact
from harness import gen, duals, fields
from harness.fields import npos

INTS = ['int', 'int64', 'int32', 'array']
# Frame rates and sizes.
NUMS = ['int', 'float', 'int64', 'int32', 'float64', 'uint16', 'int16',
    'array']


def as_type(v, name):
    if name == 'int':
        return int(v)
    if name == 'float':
        return float(v)
    if name == 'array':
        return np.array(v) # without dimensions.
    return getattr(np, name)(v)


def flat(out):
    """Everything, as arrays by name."""
    return dict((k, np.array(v)) for k, v in out.items())


def compare(got, base, tol=None):
    equal(sorted(got), sorted(base), 'results')
    for k, v in base.items():
        check(got[k].shape == v.shape, '%s: shape %s, of Python numbers %s',
            k, got[k].shape, v.shape)
        if tol is not None and v.dtype.kind == 'f':
            same(got[k], v, k, tol, tol * (1 + (np.abs(v[np.isfinite(
                v)]).max() if np.isfinite(v).any() else 0.)))
        else:
            equal(got[k].tolist() if v.dtype.kind != 'f' else True,
                v.tolist() if v.dtype.kind != 'f' else True, k)
            if v.dtype.kind == 'f':
                exact(got[k].astype(float), v.astype(float), k)


def add_set(out, name, snap):
    for k, v in snap.as_dict().items():
        out[name + ' ' + k] = v


@st.composite
def scene_cases(draw):
    tset = draw(gen.traj_sets(min_n=1, max_n=5, min_len=2, max_len=8,
        max_extra=2, span=3, unique_pos=True))
    # Types of frame numbers are large enough for ids as well.
    for i, tr in enumerate(tset['trajs']):
        tr['id'] = tr['id'] % 20000 * 8 + i
    base = min(tr['t0'] for tr in tset['trajs'])
    a = base + draw(st.integers(0, 5))
    return dict(tset=tset, a=a, b=a + draw(st.integers(1, 7)),
        pick=draw(st.integers(0, 4)), trim=draw(st.integers(0, 2)),
        ints=[draw(st.sampled_from(INTS)) for _ in range(8)],
        own=draw(st.booleans()))


@facet('C55', 'scenes', scene_cases(), quick=150, rule='ranges, frames, '
    'trajectory ids, lengths and conditions given as Python integers, and as '
    'NumPy scalars of signed types, or as arrays without dimensions; '
    'trajectories of such ids; non-trivial if there are two trajectories, '
    'and a particle in the range')
def scene_numbers(case, ctx):
    from flowtracks import io
    from flowtracks.scene import Scene
    from flowtracks.trajectory import (Trajectory, take_snapshot,
        trajectories_in_frame)
    tset = case['tset']
    tr = tset['trajs'][case['pick'] % len(tset['trajs'])]

    def run(where, kinds):
        os.mkdir(where)
        I = lambda n, v: as_type(v, kinds[n])
        out = {}
        trajs = gen.make_trajs(tset)
        if kinds[0] != 'int':
            trajs = [Trajectory(trajid=as_type(t.trajid(), 'int64' if
                kinds[0] == 'array' else kinds[0]), **t.as_dict())
                for t in trajs]
        a, b, tid = I(1, case['a']), I(2, case['b']), I(3, tr['id'])
        f = os.path.join(where, 'a.h5')
        npz = os.path.join(where, 'npz') + '/'
        io.save_particles_table(f, trajs)
        io.save_trajectories(npz, trajs, dict(more=dict((t.trajid(),
            np.arange(3.) + t.trajid()) for t in trajs)))
        for name in sorted(os.listdir(npz)):
            out['file ' + name] = []
        sc = Scene(f, (a, b))
        out['range'] = sc.frame_range()
        for i, snap in enumerate(sc.iter_frames()):
            add_set(out, 'frame %d' % i, snap)
            out['frame %d time' % i] = snap.time()
        for i, (now, aft) in enumerate(sc.iter_segments()):
            add_set(out, 'segment %d' % i, now)
            add_set(out, 'next %d' % i, aft)
        for i, t in enumerate(sc.iter_trajectories()):
            add_set(out, 'traj %d' % i, t)
            out['traj %d id' % i] = t.trajid()
        add_set(out, 'by id', sc.trajectory_by_id(tid))
        add_set(out, 'by time', sc.frame_by_time(a))
        sc.set_frame_range(None)
        out['where'], = sc.collect(['pos'], {'time': (a, b, False),
            'trajid': (tid, tid + 1, True)})
        sc.set_frame_range((None, b))
        out['until'], = sc.collect(['trajid'])
        for fmt, name in (('hdf', f), ('npz', npz)):
            got = io.trajectories(name, a, b, 500., fmt, I(4, case['trim']))
            for t in got:
                add_set(out, '%s %d' % (fmt, t.trajid()), t)
        for t in io.trajectories_table(f, a, b):
            add_set(out, 'table %d' % t.trajid(), t)
        got, more = io.load_trajectories(npz, a, b)
        out['ids'] = sorted(t.trajid() for t in got)
        out['more'] = [more['more'][i] for i in sorted(more['more'])]
        here = trajectories_in_frame(trajs, a, segs=True)
        out['here'] = list(here)
        add_set(out, 'snapshot', take_snapshot([trajs[i] for i in here], a,
            trajs[0].schema()))
        out['rows'] = np.sort(io.collect_particles_generic(trajs, a), axis=0)
        segs = io.collect_particles_generic(trajs, b, True)
        out['pairs of rows'] = np.sort(segs, axis=1)
        io.save_particles_table(os.path.join(where, 'b.h5'), trajs,
            I(5, case['trim']))
        out['trimmed'], = Scene(os.path.join(where, 'b.h5')).collect(['pos'])
        return flat(out)

    ctx.note(*case['ints'])
    ctx.nontrivial(len(tset['trajs']) > 1 and any(case['a'] <= t['t0'] + i
        < case['b'] for t in tset['trajs'] for i in range(len(t['pos']))))
    if not any(len(t['pos']) > 2 * case['trim'] for t in tset['trajs']):
        case['trim'] = 0 # There is nothing to save.
    with ctx.sut('using Python numbers'):
        base = run(ctx.path('plain'), ['int'] * 8)
    with ctx.sut('using numbers of types %s' % case['ints']):
        got = run(ctx.path('typed'), case['ints'])
    compare(got, base)


@st.composite
def seq_cases(draw):
    case = draw(duals.duals(companions=False))
    return dict(case, frate=draw(st.sampled_from([1, 30, 500, 1000, 25])),
        diam=draw(st.integers(1, 9)), dens=draw(st.integers(900, 2500)),
        sub=[draw(st.integers(0, 6)), draw(st.integers(0, 6))],
        ints=[draw(st.sampled_from(INTS)) for _ in range(5)],
        nums=[draw(st.sampled_from(NUMS)) for _ in range(4)],
        window=draw(st.sampled_from([3, 5, 5])), order=draw(st.integers(0, 3)))


@facet('C55', 'films', seq_cases(), quick=100, rule='ranges, frame rates, '
    'sizes, lengths and windows, for sequences, their configuration, dual '
    'scenes, analyses and smoothing; non-trivial if a segment has tracers '
    'and particles')
def films(case, ctx):
    from configparser import ConfigParser
    from flowtracks.particle import Particle
    from flowtracks.sequence import Sequence, read_sequence
    from flowtracks.scene import DualScene, read_dual_scene
    from flowtracks.smoothing import savitzky_golay
    from flowtracks.analysis import analysis
    from flowtracks.an_scene import AnalysedScene
    duals.write(case, ctx)
    names = [ctx.path(n) for n in ('tracers.h5', 'particles.h5')]
    lo, hi = case['rng']
    first, last = sorted(case['sub'])
    first, last = min(lo + first, hi), min(lo + last, hi)

    def run(where, ints, nums):
        os.mkdir(where)
        I = lambda n, v: as_type(v, ints[n])
        N = lambda n, v: as_type(v, nums[n])
        out = {}
        part = Particle(N(0, case['diam']), N(1, case['dens']))
        dual = DualScene(names[0], names[1], N(2, case['frate']), part,
            (I(0, lo), I(1, hi)))
        out['range'] = dual.get_range()

        def segs(name, it):
            for i, (now, aft) in enumerate(it):
                for s, f in (('now', now), ('next', aft)):
                    for w in ('particles', 'tracers'):
                        add_set(out, '%s %d %s %s' % (name, i, s, w),
                            getattr(f, w))

        segs('dual', dual.iter_segments())
        segs('part of dual', dual.iter_segments((I(2, first), I(3, last))))
        seq = Sequence((I(0, lo), I(1, hi)), N(2, case['frate']), part,
            names[1], names[0], traj_min_len=I(4, 2))
        cfg = ConfigParser()
        seq.save_config(cfg)
        conf = os.path.join(where, 'conf.cfg')
        with open(conf, 'w') as f:
            cfg.write(f)
        back = read_sequence(conf)
        out['read'] = [back.frate, back.part.diam, back.part.density] + list(
            back.range())
        if enough:
            segs('sequence', seq)
            segs('read sequence', back)
            segs('part', seq.iter_subrange(I(2, first), I(3, last)))
            res = seq.map_trajectories(lambda s, now, aft: dict(zip(
                now.particles.trajid(), aft.particles.pos())),
                (I(2, first), I(3, last)))
            for k, v in res.items():
                out['map %d' % k] = v
        for t in savitzky_golay(list(dual.get_particles()
                .iter_trajectories()), N(2, case['frate']), I(4,
                case['window']), I(3, min(case['order'],
                case['window'] - 2))):
            if t.trajid() >= 0:
                add_set(out, 'smooth %d' % t.trajid(), t)
        analysis(read_dual_scene(conf), os.path.join(where, 'an.h5'), conf,
            duals.analysers(), (I(2, first), I(3, last)))
        # The scene has all of the range, so are these of all frames.
        for n, v in zip(('trajid', 'time', 'disp'), AnalysedScene(
                os.path.join(where, 'an.h5')).collect(['trajid', 'time',
                'disp'])):
            out['analysis ' + n] = v
        return flat(out)

    # Sequences need trajectories of both kinds, in range.
    enough = all(any(sum(lo <= t0 <= hi for t0 in range(tr['t0'], tr['t0'] +
        len(tr['pos']))) > 1 for tr in case[w]['trajs']) for w in ('tracers',
        'parts'))
    ctx.note(*(case['ints'] + case['nums']))
    ctx.nontrivial(any(s[1] and s[2] for s in duals.segments(case,
        case['rng'])))
    with ctx.sut('using Python numbers'):
        base = run(ctx.path('plain'), ['int'] * 5, ['float'] * 4)
    with ctx.sut('using numbers of types %s, %s' % (case['ints'],
            case['nums'])):
        got = run(ctx.path('typed'), case['ints'], case['nums'])
    compare(got, base, 1e-9)


@st.composite
def interp_cases(draw):
    case = draw(fields.fields(dims=(3,), max_m=5))
    return dict(case, method=draw(st.sampled_from(['inv', 'inv', 'rbf'])),
        par=draw(st.integers(1, 3)), radius=draw(st.sampled_from([None, 1,
        2, 3])), types=[draw(st.sampled_from(['int', 'int64', 'int32',
        'array'][:3])), draw(st.sampled_from(['float', 'float64', 'int64',
        'float32', 'uint16', 'int'])), draw(st.sampled_from(['int64',
        'float64', 'float', 'float32', 'int32']))])


@facet('C55', 'interpolants', interp_cases(), quick=150, rule='numbers of '
    'neighbours, radii and parameters of interpolants, and these read from a '
    'configuration; non-trivial if a type is not of Python')
def interpolants(case, ctx):
    from configparser import ConfigParser
    from flowtracks.interpolation import interpolant, read_interpolant
    T, P = npos(case['tracers']), npos(case['points'])
    D = np.array(case['data'], dtype=float).reshape(len(T), -1)
    k = min(case['k'], len(T)) if case['method'] == 'rbf' else case['k']
    par = case['par'] * 30 if case['method'] == 'rbf' else case['par']
    # All points have distinct tracers around them, apart from them.
    if len(np.unique(T, axis=0)) < len(T):
        case['method'], par = 'inv', case['par']
    ctx.note(*case['types'])
    ctx.nontrivial(any(t not in ('int', 'float') for t in case['types']))

    def run(types, name):
        args = [case['method'], as_type(k, types[0]), None
            if case['radius'] is None else as_type(case['radius'], types[1]),
            as_type(par, types[2])]
        out = {}
        it = interpolant(*args)
        cfg = ConfigParser()
        it.save_config(cfg)
        with open(ctx.path(name), 'w') as f:
            cfg.write(f)
        back = read_interpolant(ctx.path(name))
        for n, i in (('own', it), ('read', back)):
            out[n + ' k'] = i.num_neighbs()
            out[n + ' radius'] = -1. if i.radius() is None else float(
                i.radius())
            i.set_scene(T, P, D)
            out[n + ' scene'] = i.interpolate()
            out[n + ' neighbours'] = np.sort(i.current_active_neighbs(),
                axis=1)
            out[n + ' call'] = i(T, P, D)
            if case['method'] == 'inv':
                out[n + ' jac'] = i.eulerian_jacobian()
        return flat(out)

    with np.errstate(all='ignore'):
        with ctx.sut('using Python numbers'):
            base = run(['int', 'float', 'float'], 'a.cfg')
        with ctx.sut('using numbers of types %s' % case['types']):
            got = run(case['types'], 'b.cfg')
    compare(got, base, 1e-9 if case['method'] == 'inv' else 1e-6)

"""C49: iterating and writing do not keep what has been passed."""
import gc, weakref
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check
from harness import duals, gen, large, ptvis

LIMIT = 8   # the current items and the next, for two kinds of particles.


class Watch(object):
    """Counts the sets of particles, of those passed, that are still held."""
    def __init__(self):
        self.refs = []
        self.seen = self.most = 0
        gc.collect()
        gc.freeze()     # makes the later collections fast.

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        gc.unfreeze()

    def see(self, *things):
        """Adds things, called when those seen before aren't needed."""
        gc.collect()
        self.refs = [r for r in self.refs if r() is not None]
        alive = dict((id(r()), r()) for r in self.refs)
        arrays = sum(isinstance(a, np.ndarray) for a in alive.values())
        self.most = max(self.most, arrays, len(alive) - arrays)
        del alive
        for thing in things:
            self.add(thing)
        self.seen += len(things)

    def add(self, thing):
        """The particles may be held as such or by the array they're from."""
        if len(thing) == 0:
            return  # empty arrays may be shared.
        data = thing.pos()
        while isinstance(data.base, np.ndarray):
            data = data.base
        self.refs.extend([weakref.ref(thing), weakref.ref(data)])

    def passing(self, items):
        for item in items:
            self.see(item)
            yield item
            del item

    def done(self, what, ctx, atleast=12):
        self.see()
        ctx.nontrivial(self.seen >= atleast)
        check(self.most <= LIMIT, '%s: %d of %d sets of particles passed '
            'are held', what, self.most, self.seen)


def parts(frame):
    return frame.particles, frame.tracers


params = large.params(lo=8, hi=24, lens=(8, 16), spans=(4, 20))


@facet('C49', 'scenes', st.fixed_dictionaries(dict(p=params, how=
    st.sampled_from(['trajectories', 'frames', 'segments', 'front']),
    range=st.sampled_from([None, None, [1, 14]]), frames_made=st.booleans())),
    quick=60, rule='the iterators of a scene, over 8-24 trajectories; '
    'non-trivial if they give 12 sets of particles or more')
def iterate_scene(case, ctx):
    from flowtracks import io
    from flowtracks.scene import Scene
    p, how = case['p'], case['how']
    tset = large.traj_set(p)
    path = ctx.path('s.h5')
    io.save_particles_table(path, gen.make_trajs(tset))
    if case['frames_made']:
        other = ctx.path('f.h5')
        io.save_frames_hdf(other, Scene(path).iter_frames())
        path = other
    rng = case['range'] and [p['first'] + r for r in case['range']]
    ctx.note(how)
    with ctx.sut('iterating'), Watch() as watch:
        scene = Scene(path, rng)
        if how == 'trajectories':
            for tr in scene.iter_trajectories():
                watch.see(tr)
                del tr
        elif how == 'frames':
            for frame in scene.iter_frames():
                watch.see(frame)
                del frame
        elif how == 'segments':
            for frame, nxt in scene.iter_segments():
                watch.see(frame, nxt)
                del frame, nxt
        else:
            first, last = rng or (None, None)
            for tr in io.trajectories(path, first, last, 500.,
                    traj_min_len=1, iter_allowed=True):
                watch.see(tr)
                del tr
    watch.done(how, ctx)


@facet('C49', 'writing', st.fixed_dictionaries(dict(p=params,
    how=st.sampled_from(['table', 'table', 'frames', 'npz']),
    trim=st.sampled_from([None, None, 1]))), quick=60,
    rule='writing of what an iterator gives; non-trivial as in scenes')
def write(case, ctx):
    from flowtracks import io
    from flowtracks.trajectory import ParticleSnapshot
    p, how = case['p'], case['how']
    ctx.note(how)
    path = ctx.path('s.h5' if how != 'npz' else 'res')

    def trajects():
        for tr in large.traj_set(dict(p, gaps=False))['trajs']:
            yield gen.make_trajs(dict(props=p['props'], trajs=[tr]))[0]

    def frames():
        rng = np.random.default_rng(p['seed'])
        for t in range(p['span'] + 6):
            n = 1 + p['n'] // 4
            yield ParticleSnapshot(rng.random((n, 3)), rng.random((n, 3)), t,
                np.arange(n))
    with ctx.sut('writing'), Watch() as watch:
        if how == 'table':
            io.save_particles_table(path, watch.passing(trajects()),
                case['trim'])
        elif how == 'frames':
            io.save_frames_hdf(path, watch.passing(frames()))
        else:
            io.save_trajectories(path, watch.passing(trajects()), {})
    watch.done(how, ctx)


@facet('C49', 'dual', st.fixed_dictionaries(dict(p=params, how=
    st.sampled_from(['frames', 'segments', 'analysis', 'analysed']))),
    quick=45, rule='iterators and analysis of dual scenes; non-trivial as in '
    'scenes')
def iterate_dual(case, ctx):
    from flowtracks.scene import read_dual_scene
    from flowtracks.analysis import analysis, GeneralAnalyser
    from flowtracks.an_scene import AnalysedScene
    how = case['how']
    ctx.note(how)
    d = large.dual(dict(case['p'], n=max(case['p']['n'], 16)))
    conf = duals.write(d, ctx)
    with ctx.sut('iterating'), Watch() as watch:
        scene = read_dual_scene(conf)
        if how == 'frames':
            for frame in scene.iter_frames():
                watch.see(*parts(frame))
                del frame
        elif how == 'segments':
            for frame, nxt in scene.iter_segments():
                watch.see(*parts(frame))
                watch.add(nxt.particles)
                del frame, nxt
        elif how == 'analysis':
            class Watcher(GeneralAnalyser):
                def descr(self):
                    return [('a', float, 1)]

                def analyse(self, frame, next_frame):
                    watch.see(*parts(frame))
                    return [np.zeros((len(frame.particles), 1))]
            analysis(scene, ctx.path('a.h5'), conf, [Watcher()])
        else:
            analysis(scene, ctx.path('a.h5'), conf, duals.analysers())
            for tr in AnalysedScene(ctx.path('a.h5')).iter_trajectories():
                watch.see(tr)
                del tr
        del scene
    watch.done(how, ctx)


@st.composite
def streams(draw):
    how = draw(st.sampled_from(['dir', 'xuap', 'single']))
    return dict(p=draw(large.params(lo=10, hi=40, lens=(4, 12),
        spans=(10, 30))), how=how, front=draw(st.booleans()), bad=draw(st.one_of(st.none(),
        st.floats(0.3, 0.99))))


@facet('C49', 'films', streams(), quick=60, rule='iteration over the '
    'trajectories of films of 10-40 particles, whole, or where a frame '
    'cannot be read; non-trivial as in scenes')
def iterate_film(case, ctx):
    from flowtracks import io
    p, how = case['p'], case['how']
    film = large.film(p, how == 'xuap', 0 if how == 'single' else None)
    ctx.note(how)
    if how == 'single':
        path = ctx.path('all.txt')
        ptvis.write_ptvis_single(film, path)
    elif how == 'xuap':
        ptvis.write_xuap_dir(film, ctx.tmp)
        path = ctx.path('xuap.%d')
    else:
        ptvis.write_ptvis_dir(film, ctx.tmp)
        path = ctx.path('ptv_is.%d')

    def run(damaged):
        count, failed = 0, False
        with Watch() as watch:
            try:
                if case['front'] and how == 'dir':
                    trajs = io.trajectories(path, None, None, 1.,
                        traj_min_len=1, iter_allowed=True)
                else:
                    trajs = io.iter_trajectories_ptvis(path,
                        xuap=how == 'xuap', traj_min_len=1)
                for tr in trajs:
                    watch.see(tr)
                    count += 1
                    del tr
            except Exception:
                if not damaged:
                    raise
                failed = True
        watch.done(how, ctx)
        return count, failed
    with ctx.sut('iterating'):
        whole, _ = run(False)
    if how == 'single' or case['bad'] is None:
        return
    bad = int(case['bad'] * film['nframes'])
    with open(path % ptvis.frame_number(film, bad), 'w') as f:
        f.write('1\n' * (how == 'dir') + 'This is not data\n')
    want = 0 if bad < 3 else len(ptvis.expected(film, hi=bad - 3, min_len=1))
    count, failed = run(True)
    ctx.note('damaged frame')
    check(failed, 'no error for a damaged frame')
    check(want <= count <= whole, '%d trajectories before the failure, at '
        'least %d end before, %d in all', count, want, whole)

"""C14: a Scene follows the frame range set last."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, exact, check
from harness import gen, scenes

OPS = ['trajectories', 'by_id', 'frames', 'collect', 'segments', 'by_time',
    'box', 'abandon']


@st.composite
def a_range(draw, span=12):
    kind = draw(st.integers(0, 5))
    if kind == 0:
        return None
    a = draw(st.integers(-2, span))
    b = draw(st.integers(a, span + 4))
    return [None if kind == 1 else a, None if kind == 2 else b]


@st.composite
def histories(draw):
    tset = draw(gen.traj_sets(gaps=True, max_n=5, min_len=2, max_len=7,
        span=6))
    ops = []
    for _ in range(draw(st.integers(3, 9))):
        if draw(st.integers(0, 2)) == 0:
            ops.append(['range', draw(a_range())])
        else:
            ops.append([draw(st.sampled_from(OPS)), draw(st.integers(0, 50))])
    return dict(tset=tset, by_frames=draw(st.booleans()), ops=ops,
        init=draw(a_range()))


def shift(rng, base):
    return None if rng is None else tuple(None if v is None else base + v
        for v in rng)


@facet('C14', 'history', histories(), quick=700,
    rule='sequences of setting the frame range, complete and abandoned '
    'iterations and collections, compared with the stored rows in the range '
    'at each step; non-trivial if a range that cuts a trajectory is in force '
    'for some reading, and the range was set at least twice')
def history(case, ctx):
    from flowtracks.scene import Scene
    tset = case['tset']
    kinds = gen.all_kinds(tset)
    fname = ctx.path('scene.h5')
    scenes.write_scene(fname, tset, case['by_frames'])
    all_rows = gen.model_rows(tset)
    t_all = [r[1] for r in all_rows]
    base = min(t_all)
    full = scenes.by_id(all_rows)

    def in_force(rng):
        lo, hi = rng if rng is not None else (None, None)
        lo = base if lo is None else lo
        hi = max(t_all) + 1 if hi is None else hi
        rows = [r for r in all_rows if lo <= r[1] < hi]
        return lo, hi, rows

    rng = shift(case['init'], base)
    sets = 1
    cut_read = False
    with ctx.sut('opening'):
        scene = Scene(fname, rng) if rng is not None else Scene(fname)
    for op, arg in case['ops']:
        if op == 'range':
            rng = shift(arg, base)
            sets += 1
            with ctx.sut('set_frame_range(%s)' % (rng,)):
                scene.set_frame_range(rng)
        lo, hi, rows = in_force(rng)
        model, times = scenes.by_id(rows), scenes.by_time(rows)
        what = '%s in range %s' % (op, rng)
        if op != 'range':
            cut_read |= any(0 < len(model.get(i, [])) < len(full[i])
                for i in full)
        with ctx.sut('frame_range'):
            got = scene.frame_range()
        equal((int(got[0]), int(got[1])), (lo, hi), 'frame_range')
        if op == 'trajectories':
            with ctx.sut(what):
                got = list(scene.iter_trajectories())
            scenes.unique_match(got, dict((i, model.get(i, []))
                for i in full), kinds, what)
        elif op == 'by_id':
            tid = sorted(full)[arg % len(full)]
            with ctx.sut(what):
                got = scene.trajectory_by_id(tid)
            scenes.cmp_traj(got, tid, model.get(tid, []), kinds, what)
        elif op == 'frames':
            with ctx.sut(what):
                got = list(scene.iter_frames())
            equal([f.time() for f in got], list(range(lo, hi)), what)
            for f in got:
                scenes.cmp_snapshot(f, f.time(), times.get(f.time(), {}),
                    kinds, what)
        elif op == 'segments':
            with ctx.sut(what):
                got = list(scene.iter_segments())
            equal([f.time() for f, _ in got], list(range(lo, hi - 1)), what)
            for f, n in got:
                a = times.get(f.time(), {})
                b = times.get(f.time() + 1, {})
                both = set(a) & set(b)
                scenes.cmp_snapshot(f, f.time(), dict((i, a[i])
                    for i in both), kinds, what)
                scenes.cmp_snapshot(n, f.time() + 1, dict((i, b[i])
                    for i in both), kinds, what)
        elif op == 'collect':
            keys = ['time', 'pos', 'trajid'] + [n for n, _ in tset['props']]
            if arg % 3 == 0:
                keys = [keys[arg % len(keys)]]
            with ctx.sut(what):
                got = scene.collect(keys)
            scenes.cmp_collect(got, keys, rows, kinds, what)
        elif op == 'by_time':
            t = sorted(set(t_all))[arg % len(set(t_all))]
            with ctx.sut(what):
                got = scene.frame_by_time(t)
            scenes.cmp_snapshot(got, t, scenes.by_time(all_rows)[t], kinds,
                what)
        elif op == 'box':
            if case['by_frames']:
                rows = all_rows  # recorded in the file.
            if rows:
                with ctx.sut(what):
                    got = scene.bounding_box()
                pos = np.array([r[2]['pos'] for r in rows])
                exact(got[0], pos.min(axis=0), what)
                exact(got[1], pos.max(axis=0), what)
        elif op == 'abandon':
            with ctx.sut(what):
                it = [scene.iter_trajectories, scene.iter_frames,
                    scene.iter_segments][arg % 3]()
                for _ in zip(range(1 + arg % 2), it):
                    pass
                if arg % 5 == 0:
                    del it
    ctx.note(*[op for op, _ in case['ops']])
    if cut_read:
        ctx.note('cut')
    ctx.nontrivial(cut_read and sets > 1)
    del scene

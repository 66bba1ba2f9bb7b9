"""C18: coordinated iteration over tracers and particles."""
from hypothesis import strategies as st
from harness.core import facet, equal, check
from harness import gen, scenes
from checks.c14_ranges import shift


@st.composite
def dual_histories(draw):
    base = draw(gen.first_frames)
    kw = dict(gaps=True, max_n=4, max_len=7, span=4, first=st.just(base),
        max_extra=1)
    a, b = draw(gen.traj_sets(**kw)), draw(gen.traj_sets(**kw))
    lo = draw(st.integers(-1, 4))
    init = [lo, draw(st.integers(lo, 12))]
    # Open ended, or no range at all.
    init = draw(st.sampled_from([init, init, init, None, [None, init[1]],
        [lo, None]]))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        rng = None
        if draw(st.booleans()):
            s = draw(st.integers(-1, 8))
            rng = [s, draw(st.integers(s, 12))]
            # Open ended; for both, None or a pair of them.
            rng = draw(st.sampled_from([rng] * 6 + [[None, rng[1]], [s, None],
                [None, None], 'all']))
        ops.append([draw(st.sampled_from(['frames', 'segments'])), rng,
            draw(st.sampled_from([-1, -1, 0, 1, 2]))])
    return dict(tracers=a, parts=b, base=base, init=init, ops=ops,
        frames=draw(st.sampled_from([[0, 0], [0, 0], [1, 0], [2, 2],
        [0, 2]])))


def snaps_match(frame, t, sets, times, segs, ctx):
    for which, snap in [('tracers', frame.tracers),
            ('parts', frame.particles)]:
        want = times[which].get(t, {})
        if segs is not None:
            other = times[which].get(segs, {})
            want = dict((i, v) for i, v in want.items() if i in other)
        scenes.cmp_snapshot(snap, t, want, gen.all_kinds(sets[which]), which)


@facet('C18', 'history', dual_histories(), quick=600,
    rule='sequences of iterations by frames and segments, with a range of '
    'their own or without, complete or abandoned, over two files; '
    'non-trivial if an iteration without a range follows one with a range '
    'that differs from the initial')
def history(case, ctx):
    from flowtracks.scene import DualScene
    from flowtracks.particle import Particle
    paths, times = {}, {}
    for which, how in zip(('tracers', 'parts'), case.get('frames', [0, 0])):
        paths[which] = ctx.path(which + '.h5')
        scenes.write_scene(paths[which], case[which], how)
        times[which] = scenes.by_time(gen.model_rows(case[which]))
    base = case['base']
    init = shift(case['init'], base)
    own = {}
    for w in times:
        lo, hi = init or (None, None)
        own[w] = (min(times[w]) if lo is None else lo,
            max(times[w]) + 1 if hi is None else hi)
    if init is None or None in init:
        ctx.note('open range')
    part = Particle(1e-3, 1450.)
    with ctx.sut('opening'):
        dual = DualScene(paths['tracers'], paths['parts'], 500., part, init)
    check(dual.get_particles_path() == paths['parts'], 'particles path: %s',
        dual.get_particles_path())
    equal((dual.frate, dual.part.diam, dual.part.density), (500., 1e-3,
        1450.), 'frame rate and particle')
    after_other = False
    for op, rng, stop in case['ops']:
        given, op_rng = rng is not None, rng
        rng = (None, None) if rng in (None, 'all') else tuple(
            v if v is None else base + v for v in rng)
        ends = own
        if given:
            ends = dict((w, (min(times[w]) if rng[0] is None else rng[0],
                max(times[w]) + 1 if rng[1] is None else rng[1]))
                for w in times)
        if not given or None in rng:
            if given:
                ctx.note('open range of an iteration')
            lo, hi = ends['tracers'][0], min(ends['tracers'][1],
                ends['parts'][1])
            if ends['parts'][0] != lo: # the pair is not coordinated.
                continue
        else:
            lo, hi = rng
        if not given and after_other:
            ctx.nontrivial()
        after_other |= given and rng != init
        what = '%s(%s)' % (op, rng if given else '')
        args = (rng,) if given else ()
        if op_rng == 'all':
            args = (None,)
        segs = op == 'segments'
        with ctx.sut(what):
            it = (dual.iter_segments if segs else dual.iter_frames)(*args)
            got = []
            for fr in it:
                if stop == 0 and not got:
                    got.append(fr)
                    break
                got.append(fr)
                if len(got) == stop:
                    break
            del it
        want = list(range(lo, hi - 1 if segs else hi))
        if stop >= 0:
            want = want[:max(stop, 1)]
            ctx.note('abandoned')
        equal(len(got), len(want), what + ': number of frames')
        for t, fr in zip(want, got):
            if segs:
                snaps_match(fr[0], t, case, times, t + 1, ctx)
                snaps_match(fr[1], t + 1, case, times, t, ctx)
            else:
                snaps_match(fr, t, case, times, None, ctx)
        ctx.note(op)
        equal(dual.get_range(), init, 'range of the dual scene')
        for w, s in [('parts', dual.get_particles()),
                ('tracers', dual.get_tracers())]:
            equal(tuple(int(v) for v in s.frame_range()), own[w],
                'range of %s, after %s' % (w, what))
            with ctx.sut('collect'):
                got = s.collect(['trajid', 'time'])
            equal(sorted(zip(*[map(int, g) for g in got])), sorted((i, t)
                for t, ps in times[w].items() for i in ps
                if own[w][0] <= t < own[w][1]), 'rows of %s, after %s' % (w,
                what))
    del dual


@facet('C18', 'whole', gen.traj_sets(min_n=1, max_n=4, max_len=6, span=3),
    quick=150,
    rule='a dual scene without a range, of two streams of the same frames; '
    'non-trivial with two trajectories')
def whole(case, ctx):
    from flowtracks.scene import DualScene
    from flowtracks.particle import Particle
    other = dict(props=[], trajs=[dict(tr, id=tr['id'] + 5,
        pos=[[v + 1. for v in r] for r in tr['pos']])
        for tr in case['trajs'][::-1]])
    sets = dict(tracers=case, parts=other)
    times = dict((w, scenes.by_time(gen.model_rows(s)))
        for w, s in sets.items())
    for w in sets:
        scenes.write_scene(ctx.path(w + '.h5'), sets[w])
    ctx.nontrivial(len(case['trajs']) > 1)
    lo, hi = min(times['parts']), max(times['parts']) + 1
    with ctx.sut('iterating'):
        dual = DualScene(ctx.path('tracers.h5'), ctx.path('parts.h5'), 1.,
            Particle(1., 1.))
        frames = list(dual.iter_frames())
        segs = list(dual.iter_segments())
    equal(len(frames), hi - lo, 'number of frames')
    equal(len(segs), hi - lo - 1, 'number of segments')
    for t, fr in zip(range(lo, hi), frames):
        snaps_match(fr, t, sets, times, None, ctx)
    for t, (a, b) in zip(range(lo, hi), segs):
        snaps_match(a, t, sets, times, t + 1, ctx)
        snaps_match(b, t + 1, sets, times, t, ctx)
    del dual

"""C42: readers that are in use at the same time do not disturb each other."""
from hypothesis import strategies as st
from harness.core import facet, equal, check
from harness import gen, scenes, ptvis, duals
from checks.c14_ranges import a_range, shift

KINDS = ['frames', 'segments', 'trajectories']


@st.composite
def scene_cases(draw):
    nfiles = draw(st.sampled_from([1, 1, 2]))
    base = draw(gen.first_frames)
    sets = [draw(gen.traj_sets(gaps=True, max_n=4, max_len=6, span=4,
        first=st.just(base))) for _ in range(nfiles)]
    ops = [['open', 0, draw(a_range(8))], ['open', nfiles - 1,
        draw(a_range(8))]]
    for _ in range(2):
        ops.append(['start', draw(st.integers(0, 3)), draw(
            st.sampled_from(KINDS))])
    for _ in range(draw(st.integers(4, 22))):
        op = draw(st.sampled_from(['start', 'next', 'next', 'next', 'next',
            'next', 'next', 'next', 'drop', 'open', 'close', 'range', 'by_time', 'by_id',
            'collect']))
        if op == 'open':
            ops.append(['open', draw(st.integers(0, nfiles - 1)),
                draw(a_range(8))])
        elif op == 'start':
            ops.append([op, draw(st.integers(0, 3)), draw(
                st.sampled_from(KINDS))])
        elif op == 'next':
            ops.append([op, draw(st.integers(0, 5)), draw(st.integers(1, 3))])
        elif op == 'range':
            ops.append([op, draw(st.integers(0, 3)), draw(a_range(8))])
        else:
            ops.append([op, draw(st.integers(0, 5)), draw(st.integers(0,
                30))])
    return dict(base=base, sets=sets, ops=ops)


class View(object):
    """What an open scene should give."""
    def __init__(self, scene, tset, rng):
        self.scene, self.tset = scene, tset
        self.kinds = gen.all_kinds(tset)
        self.all = gen.model_rows(tset)
        self.times = scenes.by_time(self.all)
        self.live = 0
        self.set(rng)

    def set(self, rng):
        lo, hi = rng or (None, None)
        self.lo = min(self.times) if lo is None else lo
        self.hi = max(self.times) + 1 if hi is None else hi
        self.rows = [r for r in self.all if self.lo <= r[1] < self.hi]

    def expected(self, kind):
        if kind == 'frames':
            return list(range(self.lo, self.hi))
        if kind == 'segments':
            return list(range(self.lo, self.hi - 1))
        return list(scenes.by_id(self.all))

    def start(self, kind):
        return getattr(self.scene, 'iter_' + kind)()

    def compare(self, kind, item, left):
        """left - of those expected, which are yet to come."""
        if kind == 'trajectories':
            i = int(item.trajid())
            check(i in left, 'trajectory %s, should be one of %s', i, left)
            left.remove(i)
            self.traj(item, i)
        elif kind == 'frames':
            t = left.pop(0)
            scenes.cmp_snapshot(item, t, self.times.get(t, {}), self.kinds)
        else:
            t = left.pop(0)
            a, b = self.times.get(t, {}), self.times.get(t + 1, {})
            scenes.cmp_snapshot(item[0], t, dict((i, v) for i, v in a.items()
                if i in b), self.kinds)
            scenes.cmp_snapshot(item[1], t + 1, dict((i, v) for i, v
                in b.items() if i in a), self.kinds)

    def traj(self, item, i):
        entries = scenes.by_id(self.rows).get(i, [])
        if entries:
            scenes.cmp_traj(item, i, entries, self.kinds)
        else:
            equal(len(item), 0, 'length of trajectory %d' % i)


@facet('C42', 'scenes', scene_cases(), quick=250,
    rule='up to 22 operations on several open scenes of one or two files: '
    'starting, advancing and dropping iterators by frames, segments and '
    'trajectories, single queries, opening and closing other scenes and '
    'setting the range of those without iterators in use; non-trivial if two '
    'iterators in turn gave at least two items each')
def interleaved(case, ctx):
    from flowtracks.scene import Scene
    names = []
    for k, s in enumerate(case['sets']):
        names.append(ctx.path('s%d.h5' % k))
        scenes.write_scene(names[-1], s)
    views, its, done = [], [], []
    for op, a, b in case['ops']:
        if op == 'open':
            rng = shift(b, case['base'])
            with ctx.sut('opening'):
                views.append(View(Scene(names[a], rng), case['sets'][a], rng))
            continue
        if op == 'next':
            if not its:
                continue
            it = its[a % len(its)]
            for _ in range(b):
                with ctx.sut('next of iter_' + it['kind']):
                    item = next(it['it'], None)
                if item is None:
                    equal(it['left'], [], 'still to come from iter_%s'
                        % it['kind'])
                    break
                check(it['left'], 'iter_%s goes on', it['kind'])
                it['view'].compare(it['kind'], item, it['left'])
                it['n'] += 1
            continue
        if op == 'drop':
            if its:
                it = its.pop(a % len(its))
                it['view'].live -= 1
                done.append(it['n'])
                if b % 2:
                    it['it'].close()
                del it
            continue
        v = views[a % len(views)]
        if op == 'start':
            its.append(dict(view=v, kind=b, it=v.start(b), n=0,
                left=v.expected(b)))
            v.live += 1
        elif op == 'close':
            if len(views) > 1 and not v.live:
                views.remove(v)
                v.scene = None
                ctx.note('closed')
        elif op == 'range':
            if not v.live:
                rng = shift(b, case['base'])
                with ctx.sut('set_frame_range'):
                    v.scene.set_frame_range(rng)
                v.set(rng)
        elif op == 'by_time':
            t = sorted(v.times)[b % len(v.times)]
            with ctx.sut('frame_by_time'):
                got = v.scene.frame_by_time(t)
            scenes.cmp_snapshot(got, t, v.times[t], v.kinds)
        elif op == 'by_id':
            ids = sorted(scenes.by_id(v.all))
            i = ids[b % len(ids)]
            with ctx.sut('trajectory_by_id'):
                got = v.scene.trajectory_by_id(i)
            v.traj(got, i)
        elif op == 'collect':
            keys = ['trajid', 'time', 'pos']
            with ctx.sut('collect'):
                got = v.scene.collect(keys)
            scenes.cmp_collect(got, keys, v.rows, v.kinds)
    # What is left in each.
    for it in its:
        with ctx.sut('the rest of iter_' + it['kind']):
            rest = list(it['it'])
        equal(len(rest), len(it['left']), 'number of items of iter_%s'
            % it['kind'])
        for item in rest:
            it['view'].compare(it['kind'], item, it['left'])
    ctx.nontrivial(sum(n > 1 for n in done + [it['n']
        for it in its]) > 1)
    ctx.note('%d iterators' % len(its))
    del views, its


@st.composite
def dual_cases(draw):
    base = draw(gen.first_frames)
    kw = dict(gaps=True, max_n=3, max_len=6, span=3, first=st.just(base),
        max_extra=1)
    a, b = draw(gen.traj_sets(**kw)), draw(gen.traj_sets(**kw))
    lo = draw(st.integers(-1, 3))
    init = [lo, draw(st.integers(lo, 9))]
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        if draw(st.booleans()):
            rng = None
            if draw(st.booleans()):
                s = draw(st.integers(-1, 6))
                rng = [s, draw(st.integers(s, 9))]
            ops.append(['start', draw(st.sampled_from(['frames',
                'segments'])), rng])
        else:
            ops.append([draw(st.sampled_from(['next', 'next', 'next',
                'drop'])), draw(st.integers(0, 5)), draw(st.integers(1, 3))])
    return dict(tracers=a, parts=b, base=base, init=init, ops=ops)


@facet('C42', 'dual', dual_cases(), quick=200,
    rule='up to 14 operations on iterators of one dual scene, by frames or '
    'segments, some with a range of their own, advanced in turn; non-trivial '
    'if two iterators in turn gave at least two items each')
def dual(case, ctx):
    from flowtracks.scene import DualScene
    from flowtracks.particle import Particle
    from checks.c18_dual import snaps_match
    paths, times = {}, {}
    for w in ('tracers', 'parts'):
        paths[w] = ctx.path(w + '.h5')
        scenes.write_scene(paths[w], case[w])
        times[w] = scenes.by_time(gen.model_rows(case[w]))
    base = case['base']
    init = tuple(base + v for v in case['init'])
    with ctx.sut('opening'):
        ds = DualScene(paths['tracers'], paths['parts'], 500., Particle(1e-3,
            1450.), init)
    its, done = [], []

    def advance(it):
        with ctx.sut('next of iter_%s(%s)' % (it['kind'], it['rng'] or '')):
            item = next(it['it'], None)
        if item is None:
            equal(it['left'], [], 'still to come from iter_' + it['kind'])
            return False
        check(it['left'], 'iter_%s(%s) goes on', it['kind'], it['rng'] or '')
        t = it['left'].pop(0)
        if it['kind'] == 'frames':
            snaps_match(item, t, case, times, None, ctx)
        else:
            snaps_match(item[0], t, case, times, t + 1, ctx)
            snaps_match(item[1], t + 1, case, times, t, ctx)
        it['n'] += 1
        return True

    for op, a, b in case['ops']:
        if op == 'start':
            rng = None if b is None else tuple(base + v for v in b)
            args = () if b is None else (rng,)
            lo, hi = rng or init
            its.append(dict(kind=a, rng=rng, n=0, it=getattr(ds, 'iter_' + a)(
                *args), left=list(range(lo, hi - (a == 'segments')))))
            ctx.note('own range' if b else 'default range')
        elif its and op == 'next':
            for _ in range(b):
                if not advance(its[a % len(its)]):
                    break
        elif its:
            it = its.pop(a % len(its))
            it['it'].close()
            done.append(it)
    for it in its:
        while advance(it):
            pass
    ctx.nontrivial(sum(it['n'] > 1 for it in its + done) > 1)
    equal(tuple(ds.get_range()), init, 'range of the dual scene')
    for s in (ds.get_particles(), ds.get_tracers()):
        equal(tuple(int(v) for v in s.frame_range()), init, 'range of its '
            'scenes when all is done')
    del ds


@st.composite
def film_cases(draw):
    films = draw(st.lists(ptvis.linked_frames(max_traj=5, max_frames=8),
        min_size=1, max_size=2))
    its = []
    for _ in range(draw(st.integers(2, 4))):
        k = draw(st.integers(0, len(films) - 1))
        a = draw(st.sampled_from([None, None, 0, 1, 2]))
        b = draw(st.sampled_from([None, None, 3, 5, 7]))
        its.append([k, a, b, draw(st.sampled_from([1., 500.])),
            draw(st.booleans())])
    turns = draw(st.lists(st.integers(0, 3), max_size=12))
    return dict(films=films, its=its, turns=turns)


@facet('C42', 'films', film_cases(), quick=200,
    rule='2 to 4 iterators of ptv_is trajectories, on one film or two, over '
    'various ranges and frame rates, advanced in turn; non-trivial if two of '
    'them have trajectories')
def films(case, ctx):
    from flowtracks.io import iter_trajectories_ptvis, trajectories
    import os
    tmpl = []
    for k, film in enumerate(case['films']):
        os.mkdir(ctx.path('f%d' % k))
        ptvis.write_ptvis_dir(film, ctx.path('f%d' % k))
        tmpl.append(ctx.path('f%d' % k, 'ptv_is.%d'))
    its = []
    for k, a, b, frate, general in case['its']:
        film = case['films'][k]
        first = None if a is None else film['first'] + a
        last = None if b is None else film['first'] + b
        with ctx.sut('iterator of trajectories'):
            if general:
                it = iter(trajectories(tmpl[k], first, last, frate,
                    iter_allowed=True, traj_min_len=1))
            else:
                it = iter_trajectories_ptvis(tmpl[k], first, last, frate,
                    traj_min_len=1)
        its.append(dict(it=it, got=[], frate=frate, want=[
            ptvis.expected_arrays(e, frate) for e in
            ptvis.expected(film, a, b, 1)]))
    with ctx.sut('advancing iterators'):
        for i in case['turns']:
            tr = next(its[i % len(its)]['it'], None)
            if tr is not None:
                its[i % len(its)]['got'].append(tr)
        for it in its[::-1]:
            it['got'].extend(it['it'])
    for it in its:
        ptvis.match_trajects(it['got'], it['want'], True, it['frate'])
    ctx.nontrivial(sum(len(it['want']) > 0 for it in its) > 1)


@facet('C42', 'analysed', st.tuples(duals.duals(companions=False),
    st.lists(st.integers(0, 7), min_size=2, max_size=16)), quick=60,
    rule='two iterators of trajectories of an analysed scene, advanced in '
    'turn with collections and queries by id between, while another analysed '
    'scene on the file is opened and closed; non-trivial with two '
    'trajectories in the file')
def analysed(case, ctx):
    from flowtracks.scene import read_dual_scene
    from flowtracks.analysis import analysis
    from flowtracks.an_scene import AnalysedScene
    from checks.c35_analysed_scene import analysed_segments
    import numpy as np
    case, turns = case
    case = dict(case, arng=None)
    conf = duals.write(case, ctx)
    with ctx.sut('analysis'):
        analysis(read_dual_scene(conf), ctx.path('a.h5'), conf,
            duals.analysers())
        sc = AnalysedScene(ctx.path('a.h5'))
    segs = analysed_segments(case)
    an = dict(((i, s[0]), v) for s in segs
        for i, v in duals.analysed(s).items())
    ids = sorted(scenes.by_id(gen.model_rows(case['parts'])))
    pos = dict((i, dict((t, v['pos']) for t, v in es)) for i, es
        in scenes.by_id(gen.model_rows(case['parts'])).items())
    ctx.nontrivial(len(ids) > 1)

    def traj(tr):
        i = int(tr.trajid())
        ts = sorted(t for j, t in an if j == i)
        equal([int(t) for t in tr.time()], ts, 'times of %d' % i)
        if ts:
            check(np.allclose(tr.pos(), [pos[i][t] for t in ts], 0, 0)
                and np.allclose(tr.disp(), [an[i, t]['disp'] for t in ts])
                and list(tr.code()) == [an[i, t]['code'] for t in ts],
                'values of trajectory %d', i)
        return i
    its, seen, other = [sc.iter_trajectories(), sc.iter_trajectories()], \
        [[], []], None
    for k in turns:
        with ctx.sut('operation %d' % k):
            if k < 4:
                tr = next(its[k % 2], None)
                if tr is not None:
                    seen[k % 2].append(traj(tr))
            elif k == 4:
                i, t, c = sc.collect(['trajid', 'time', 'code'])
                equal(sorted(zip(map(int, i), map(int, t), map(int, c))),
                    sorted((i, t, v['code']) for (i, t), v in an.items()),
                    'collected')
            elif k == 5:
                if ids[0] in set(i for i, t in an):
                    traj(sc.trajectory_by_id(ids[0]))
            elif k == 6:
                other = AnalysedScene(ctx.path('a.h5'))
                next(other.iter_trajectories(), None)
            else:
                other = None
    for it, s in zip(its, seen):
        with ctx.sut('the rest'):
            s.extend([traj(tr) for tr in it])
        check(len(set(s)) == len(s) and set(i for i, t in an) <= set(s)
            <= set(ids), 'trajectories %s of %s', s, ids)
    del sc, other

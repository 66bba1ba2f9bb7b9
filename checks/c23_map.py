"""C23: mapping a function over trajectories of a Sequence."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, exact, check, same
from harness import gen, scenes, seqs


@st.composite
def maps(draw):
    db = draw(seqs.databases())
    n = db['hi'] - db['lo']
    a = draw(st.integers(0, n))
    db['sub'] = draw(st.one_of(st.none(), st.just([a,
        draw(st.integers(a, n))])))
    db['history'] = draw(st.booleans())
    db['args'] = draw(st.lists(st.integers(1, 5), max_size=2))
    db['scalar'] = draw(st.booleans())
    db['again'] = draw(st.booleans())
    return db


@facet('C23', 'map', maps(), quick=600,
    rule='functions of a frame, its next and possibly the results so far, '
    'mapped over the whole range or a part that cuts trajectories; '
    'non-trivial if two trajectories have results, of different lengths or '
    'starts')
def mapped(case, ctx):
    from flowtracks.sequence import Sequence
    from flowtracks.particle import Particle
    names = dict((w, seqs.write_db(case[w], ctx.path(w)))
        for w in ('parts', 'tracers'))
    lo, hi = case['lo'], case['hi']
    model = seqs.selected(case['parts'], lo, hi, case['min_len'])
    with ctx.sut('construction'):
        seq = Sequence((lo, hi), 500., Particle(1e-3, 1450.), names['parts'],
            names['tracers'], traj_min_len=case['min_len'] or 0)
    sub = None if case['sub'] is None else (lo + case['sub'][0],
        lo + case['sub'][1])
    first, last = sub or (lo, hi)
    args, use_hist = tuple(case['args']), case['history']
    factor = 1.
    for a in args:
        factor *= a
    seen = []
    # The state before each frame: the results each trajectory has.
    done = {}

    def func(*fargs):
        check(len(fargs) == 3 + len(args) + use_hist, 'function called with '
            '%d arguments', len(fargs))
        check(fargs[0] is seq, 'first argument is not the sequence')
        frame, nxt = fargs[1:3]
        if args:
            equal(fargs[-len(args):], args, 'extra arguments')
        ids = [int(i) for i in frame.particles.trajid()]
        seen.append(frame.particles.time())
        if use_hist:
            hist = fargs[3]
            for i in ids:
                check(i in hist, 'no history for %s', i)
                have = [v for v in hist[i] if v is not None]
                equal(len(have), len(done.get(i, [])), 'history of %s' % i)
                if have:
                    same(have, done[i], 'history of %s' % i, 1e-12, 1e-15)
        res = {}
        for k, i in enumerate(ids):
            d = nxt.particles.pos()[k] - frame.particles.pos()[k]
            res[i] = (float(d[0]) if case['scalar'] else d) * factor
            done.setdefault(i, []).append(res[i])
        return res

    for _ in range(2 if case['again'] else 1):
        seen[:] = []
        done.clear()
        kw = {}
        if sub is not None:
            kw['subrange'] = sub
        if use_hist:
            kw['history'] = True
        if args:
            kw['args'] = args
        with ctx.sut('map_trajectories'):
            got = seq.map_trajectories(func, **kw)
        equal(seen, list(range(first, last)), 'frames visited')
        want = {}
        for i, es in model.items():
            d = dict(es)
            vals = [(np.array(d[t + 1]['pos']) - np.array(d[t]['pos']))
                * factor for t in sorted(d) if t + 1 in d
                and first <= t < last]
            if vals:
                want[i] = [v[0] for v in vals] if case['scalar'] else vals
        equal(sorted(int(i) for i in got), sorted(want), 'trajectories')
        for i in want:
            same(got[i], want[i], 'results of %s' % i, 1e-12, 1e-15)
    ctx.note(*[c for c, v in [('subrange', sub is not None), ('history',
        use_hist), ('args', bool(args))] if v])
    ctx.nontrivial(len(want) > 1 and len(set((len(v), model[i][0][0])
        for i, v in want.items())) > 1)

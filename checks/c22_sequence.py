"""C22: a Sequence iterates over segments of its two databases."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, check, Violation
from harness import gen, scenes, seqs


@st.composite
def histories(draw):
    db = draw(seqs.databases())
    n = db['hi'] - db['lo']
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        op = draw(st.sampled_from(['whole', 'sub', 'sub', 'subrange',
            'select', 'abandon', 'two', 'for', 'midway']))
        a = draw(st.integers(0, n))
        ops.append([op, a, draw(st.integers(a, n + 1)),
            draw(st.integers(0, 7)), draw(st.booleans())])
    db['ops'] = ops
    return db


@facet('C22', 'history', histories(), quick=500,
    rule='sequences of iterations over the whole range and parts of it, '
    'complete, abandoned or two at a time, with selections of trajectories '
    'changing between them; non-trivial if a segment has both tracers and '
    'particles and at least two iterations were made')
def history(case, ctx):
    from flowtracks.sequence import Sequence
    from flowtracks.particle import Particle
    names = dict((w, seqs.write_db(case[w], ctx.path(w)))
        for w in ('parts', 'tracers'))
    lo, hi = case['lo'], case['hi']
    kinds = dict((w, gen.all_kinds(case[w]['tset'])) for w in names)
    # One frame after the range is read, for the last segment.
    full = dict((w, seqs.selected(case[w], lo, hi, case['min_len']))
        for w in names)
    models = dict(full)
    kw = {} if case['min_len'] is None else dict(
        traj_min_len=case['min_len'])
    with ctx.sut('construction'):
        seq = Sequence((lo, hi), 500., Particle(1e-3, 1450.), names['parts'],
            names['tracers'], **kw)
    equal(tuple(seq.range()), (lo, hi), 'range')
    equal(seq.part_fname(), names['parts'], 'name')
    equal(seq.part_format(), case['parts']['fmt'], 'format')
    both, iters = False, 0
    told = {}
    selectors = dict((w, lambda trs, w=w: [t for t in trs
        if t.trajid() in told[w]]) for w in names)

    def cmp_segment(t, seg):
        frame, nxt = seg
        for w, now, aft in [('tracers', frame.tracers, nxt.tracers),
                ('parts', frame.particles, nxt.particles)]:
            a, b = seqs.active(models[w], t)
            order = None if not a else [int(i) for i in now.trajid()]
            scenes.cmp_snapshot(now, t, a, kinds[w], w)
            scenes.cmp_snapshot(aft, t + 1, b, kinds[w], 'next ' + w, order)
        return len(frame.tracers) > 0 and len(frame.particles) > 0

    def cmp_all(got, first, last):
        equal(len(got), max(0, last - first), 'number of segments')
        return any([cmp_segment(t, s) for t, s in
            zip(range(first, last), got)])

    for op, a, b, mod, which in case['ops']:
        ctx.note(op)
        a, b = lo + a, min(lo + b, hi)
        if op in ('whole', 'for'):
            with ctx.sut(op):
                got = list(seq) if op == 'whole' else [s for s in seq]
            both |= cmp_all(got, lo, hi)
            iters += 1
        elif op == 'sub':
            with ctx.sut('subrange %s' % ((a, b),)):
                got = list(seq.iter_subrange(a, b))
            both |= cmp_all(got, a, b)
            iters += 1
        elif op == 'abandon':
            with ctx.sut('abandoned iteration'):
                it = iter(seq) if which else seq.iter_subrange(a, b)
                got = [s for _, s in zip(range(2), it)]
            start, end = (lo, hi) if which else (a, b)
            cmp_all(got, start, min(start + 2, end))
            iters += 1
        elif op == 'two':
            # Alternately, from two iterations.
            with ctx.sut('two iterations'):
                its = [iter(seq), seq.iter_subrange(a, b)]
                got = [[], []]
                for k in range(2 * (hi - lo)):
                    s = next(its[k % 2], None)
                    if s is not None:
                        got[k % 2].append(s)
            cmp_all(got[0], lo, hi)
            cmp_all(got[1], a, b)
            iters += 2
        elif op == 'subrange':
            with ctx.sut('subrange'):
                got = seq.subrange()
            ts = [t for es in models['parts'].values() for t, _ in es]
            equal(tuple(int(v) for v in got), (max(min(ts), lo),
                min(max(ts), hi)), 'subrange')
            with ctx.sut('iterating over the range that was given'):
                segs = list(seq.iter_subrange(*got))
            cmp_all(segs, int(got[0]), int(got[1]))
        elif op in ('select', 'midway'):
            # Keeps at least one trajectory.
            w = 'parts' if which else 'tracers'
            ids = sorted(full[w])
            keep = [i for k, i in enumerate(ids) if (k + mod) % 3 > 0] \
                or ids[:1]
            # One selector for all selections, that does as it was last told.
            sel = selectors[w]
            it, k = iter(()), 0
            if op == 'midway': # in the course of an iteration.
                k = max(0, min(mod % 3, b - a))
                with ctx.sut('iteration'):
                    it = seq.iter_subrange(a, b)
                    got = [next(it) for _ in range(k)]
                cmp_all(got, a, a + k)
                iters += 1
            told[w] = keep
            with ctx.sut('set selector'):
                (seq.set_particle_selector if which
                    else seq.set_tracer_selector)(sel)
            models[w] = dict((i, full[w][i]) for i in keep)
            if op == 'midway':
                with ctx.sut('iteration after a selection'):
                    got = list(it)
                cmp_all(got, a + k, b)
        for w, fn in [('parts', seq.particle_trajectories),
                ('tracers', seq.tracer_trajectories)]:
            with ctx.sut('trajectories'):
                trs = fn()
            scenes.unique_match(trs, models[w], kinds[w], w)
    ctx.nontrivial(both and iters > 1)


@facet('C22', 'smooth', seqs.databases(fmts=('npz',)), quick=40,
    rule='iteration with smoothing of tracers asked for; non-trivial if there '
    'are tracers of four points or more')
def smooth(case, ctx):
    from flowtracks.sequence import Sequence
    from flowtracks.particle import Particle
    names = dict((w, seqs.write_db(case[w], ctx.path(w)))
        for w in ('parts', 'tracers'))
    lo, hi = case['lo'], case['hi']
    full = dict((w, seqs.selected(case[w], lo, hi, case['min_len']))
        for w in names)
    ctx.nontrivial(any(len(es) > 3 for es in full['tracers'].values()))
    with ctx.sut('construction'):
        seq = Sequence((lo, hi), 500., Particle(1e-3, 1450.), names['parts'],
            names['tracers'], smooth_tracers=True,
            traj_min_len=case['min_len'] or 0)
        again = Sequence((lo, hi), 500., Particle(1e-3, 1450.),
            names['parts'], names['tracers'], smooth_tracers=True,
            traj_min_len=case['min_len'] or 0)
    with ctx.sut('smoothing'):
        equal(seqs.smooths(again, full['tracers']), True, 'smoothing')
    ctx.touched = True
    try:
        got = list(seq)
    except TypeError as e:
        if 'smoothed()' in str(e) and 'missing' in str(e):
            ctx.known('smooth-tracers', 'smoothed() is called without the '
                'arguments it needs')
            return
        raise Violation('iteration with smoothing failed: %s' % e)
    # Smoothing does not touch particles, nor which tracers there are.
    equal(len(got), hi - lo, 'number of segments')
    kinds = gen.all_kinds(case['parts']['tset'])
    for t, (frame, nxt) in zip(range(lo, hi), got):
        a, b = seqs.active(full['parts'], t)
        scenes.cmp_snapshot(frame.particles, t, a, kinds)
        scenes.cmp_snapshot(nxt.particles, t + 1, b, kinds)
        a, b = seqs.active(full['tracers'], t)
        equal(sorted(int(i) for i in frame.tracers.trajid()), sorted(a),
            'tracers')

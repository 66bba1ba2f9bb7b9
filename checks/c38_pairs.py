"""C38: pairs of particles and nearest tracers."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact
from harness import gen


@st.composite
def cases(draw):
    base = draw(gen.first_frames)
    kw = dict(max_len=6, first=st.just(base))
    prim = draw(gen.traj_sets(max_n=5, span=3, **kw))
    sec = draw(gen.traj_sets(min_n=0, max_n=7, span=4, **kw))
    if draw(st.integers(0, 3)) == 0 and len(sec['trajs']):
        # Equal distances.
        a, b = draw(st.sampled_from(prim['trajs'])), draw(st.sampled_from(
            sec['trajs']))
        b['pos'][0] = list(a['pos'][0])
    req = []
    for _ in range(draw(st.integers(1, 8))):
        tr = draw(st.sampled_from(prim['trajs']))
        req.append([tr['id'], draw(st.integers(0, len(tr['pos']) - 1))])
    return dict(prim=prim, sec=sec, req=req,
        types=[draw(st.sampled_from(['i8', 'i8', 'i8', 'i4', 'u8'])),
            draw(st.sampled_from(['i8', 'i8', 'i4', 'i2', 'i1', 'u1', 'u8']))])


@facet('C38', 'pairs', cases(), quick=1500,
    rule='up to 5 primary and 7 secondary trajectories with different '
    'properties, up to 8 requests in any order, repeating or not, some with '
    'no pair; against a search by brute force; non-trivial if two requests '
    'have a pair out of two candidates at least')
def pairs(case, ctx):
    from flowtracks.pairs import particle_pairs
    prim = dict((t['id'], t) for t in case['prim']['trajs'])
    sec = dict((t['id'], t) for t in case['sec']['trajs'])
    # Of types that are large enough for what they hold.
    ids, points = (np.array([r[i] for r in case['req']], dtype=t if
        max(r[i] for r in case['req']) <= np.iinfo(t).max else 'i8')
        for i, t in enumerate(case['types']))
    ctx.note(*case['types'])
    with ctx.sut('finding pairs'):
        trid, tp = particle_pairs(gen.make_trajs(case['prim']),
            gen.make_trajs(case['sec']), ids.copy(), points.copy())
    equal((np.shape(trid), np.shape(tp)), ((len(ids),),) * 2, 'shapes')
    chosen = 0
    for r, (i, k) in enumerate(case['req']):
        t = prim[i]['t0'] + k
        pos = np.array(prim[i]['pos'][k])
        dists = {}
        for j, s in sec.items():
            # Only those that go on to the next frame.
            if s['t0'] <= t and t + 1 < s['t0'] + len(s['pos']):
                dists[j] = np.linalg.norm(pos - s['pos'][t - s['t0']])
        what = 'pair of point %d of %d' % (k, i)
        if not dists:
            ctx.note('no pair')
            equal(int(tp[r]), -1, what + ', which has none')
            continue
        chosen += len(dists) > 1
        j = int(trid[r])
        check(j in dists, '%s: %d is not in frame %d with its next', what, j,
            t)
        check(dists[j] <= min(dists.values()) + 1e-9,
            '%s: distance of %d is %s, of the nearest %s', what, j, dists[j],
            min(dists.values()))
        equal(int(tp[r]), t - sec[j]['t0'], what + ': index in trajectory')
    ctx.nontrivial(chosen > 1)

"""
Dual scenes (tracers and particles) and their analysis: generation, and a
reference of what the analysis should find.
"""
import numpy as np
from hypothesis import strategies as st
from . import gen, scenes
from .fields import Eligible, ref_inv

TRACERS, PARTS = 'tracers', 'parts'


@st.composite
def duals(draw, companions=True, max_tr=9, max_extra=2, spare=1,
        gaps=False):
    """
    Tracers and particles over the same frames, a frame range (not
    inclusive) that usually has most of them. The particles may have
    companions among the tracers.
    """
    base = draw(gen.first_frames)
    tr = draw(gen.traj_sets(min_n=1, max_n=max_tr, min_len=2, max_len=7,
        span=2, first=st.just(base), max_extra=1, unique_pos=False))
    names = [p for p in draw(gen.extra_props(max_extra))
        if p[0] != 'companion']
    comp = companions and draw(st.integers(0, 3)) > 0
    props = names + ([['companion', 'i']] if comp else [])
    parts = draw(gen.traj_sets(min_n=1, max_n=5,
        min_len=draw(st.sampled_from([1, 3, 3])), max_len=7,
        span=3, first=st.just(base), props=props, gaps=gaps))
    if comp:
        ids = [t['id'] for t in tr['trajs']]
        for p in parts['trajs']:
            cands = st.sampled_from(ids + ids + [-1, 12345678])
            if draw(st.booleans()):
                p['companion'] = [draw(cands)] * len(p['pos'])
            else:
                p['companion'] = [draw(cands) for _ in p['pos']]
    # Particles on top of tracers, as when they are chosen of them.
    if draw(st.booleans()):
        p = draw(st.sampled_from(parts['trajs']))
        t = draw(st.sampled_from(tr['trajs']))
        for i in range(len(p['pos'])):
            j = p['t0'] + i - t['t0']
            if 0 <= j < len(t['pos']):
                p['pos'][i] = list(t['pos'][j])
                if comp and draw(st.booleans()):
                    p['companion'][i] = t['id']
    lo = draw(st.sampled_from([0, 0, -1, 1, 2, 3]))
    hi = lo + draw(st.one_of(st.integers(0, 11), st.integers(3, 11)))
    # Made of trajectories (0), or of frames in the same order (1) or not (2).
    frames = draw(st.sampled_from([[0, 0], [0, 0], [1, 0], [2, 2], [0, 2]]))
    return dict(tracers=tr, parts=parts, rng=[base + lo, base + hi + 1],
        frames=frames)


def write(case, ctx, names=('tracers.h5', 'particles.h5')):
    """Writes both files and a configuration. Returns the path of it."""
    paths = [ctx.path(n) for n in names]
    for path, which, how in zip(paths, (TRACERS, PARTS), case.get('frames',
            [0, 0])):
        scenes.write_scene(path, case[which], how)
    conf = ctx.path('scene.cfg')
    with open(conf, 'w') as f:
        f.write('[Particle]\ndiameter: 0.0005\ndensity: 1450\n\n[Scene]\n'
            'frame rate: 500\ntracers file: %s\nparticles file: %s\n'
            'first frame: %d\nlast frame: %d\n' % (paths[0], paths[1],
            case['rng'][0], case['rng'][1] - 1))
    return conf


def segments(case, rng):
    """
    [(t, {id: vals} of particles, {id: vals} of tracers, and the same of the
    next frame)] for all the segments in the range.
    """
    out = []
    p = scenes.by_time(gen.model_rows(case[PARTS]))
    t = scenes.by_time(gen.model_rows(case[TRACERS]))

    def both(d, a, b):
        keys = [k for k in d.get(a, {}) if k in d.get(b, {})]
        return (dict((k, d[a][k]) for k in keys),
            dict((k, d[b][k]) for k in keys))
    for fr in range(rng[0], rng[1] - 1):
        pa, pb = both(p, fr, fr + 1)
        ta, tb = both(t, fr, fr + 1)
        out.append((fr, pa, ta, pb, tb))
    return out


def fluid_velocity(vals, tracers, k, p=1):
    """
    The interpolated velocity for a particle, by inverse distances; None if
    it depends on tie breaking or there's nothing to interpolate from.
    """
    ids = list(tracers)
    if len(ids) == 0:
        return np.zeros(3)
    comp = vals.get('companion', -1)
    comp = ids.index(comp) if comp in ids else None
    pos = [tracers[i]['pos'] for i in ids]
    el = Eligible(pos, vals['pos'], comp)
    if el.ambiguous(k) or len(el.idx) == 0:
        return None
    data = np.array([tracers[i]['velocity'] for i in ids])
    return ref_inv(pos, data, *el.nearest(k), p=p)


def analysers():
    """
    Analysers whose results can be told from the data: displacement to the
    next frame, a code of particle and time (integer), position relative to
    the tracers' mean.
    """
    from flowtracks.analysis import GeneralAnalyser

    class Displacement(GeneralAnalyser):
        def descr(self):
            return [('disp', float, 3), ('code', int, 1)]

        def analyse(self, frame, next_frame):
            ids = np.asarray(frame.particles.trajid())
            nids = list(np.asarray(next_frame.particles.trajid()))
            order = [nids.index(i) for i in ids]
            disp = np.reshape(next_frame.particles.pos(), (-1, 3))[order] \
                - np.reshape(frame.particles.pos(), (-1, 3))
            return [disp, (ids % 1009 * 7 + frame.particles.time())[:, None]]

    class Crowd(GeneralAnalyser):
        def descr(self):
            return [('crowd', float, 1), ('pair', float, 2)]

        def analyse(self, frame, next_frame):
            x = np.reshape(frame.particles.pos(), (-1, 3))
            crowd = x[:, :1] + len(frame.tracers)
            return [crowd, x[:, 1:]]

    return [Displacement(), Crowd()]


def analysed(seg, kinds=('disp', 'code', 'crowd', 'pair')):
    """{id: {name: value}} for a segment, by the analysers above."""
    fr, pa, ta, pb, tb = seg
    return dict((i, dict(disp=[b - a for a, b in zip(v['pos'],
        pb[i]['pos'])], code=i % 1009 * 7 + fr, crowd=v['pos'][0] + len(ta),
        pair=v['pos'][1:])) for i, v in pa.items())


AN_KINDS = [['disp', 'v3'], ['code', 'i'], ['crowd', 'f'], ['pair', 'v2']]

"""
Large cases, in the forms that gen, ptvis, duals, fields and seqs make, from a
few parameters and a seed: databases of many rows are not held in the case
file, but made again from it.
"""
import numpy as np
from hypothesis import strategies as st
from . import gen

FIRST = [0, 1, 95, 998, 10001]


@st.composite
def params(draw, lo=20, hi=250, lens=(8, 40), spans=(0, 60)):
    """
    Up to hi trajectories of a length that's usually chosen so that there are
    a few thousands of rows.
    """
    return dict(seed=draw(st.integers(0, 2**32 - 1)), n=draw(st.one_of(
        st.integers(lo, hi), st.integers(hi // 2, hi), st.integers(hi // 2,
        hi))),
        longest=draw(st.integers(*lens)), span=draw(st.integers(*spans)),
        first=draw(st.sampled_from(FIRST)), big_ids=draw(st.booleans()),
        gaps=draw(st.booleans()), props=draw(gen.extra_props(2)),
        shape=draw(st.sampled_from(['', '', 'same times', 'sparse'])))


def reals(rng, *shape):
    return np.round(rng.uniform(-2., 2., shape), 7).tolist()


def values(rng, kind, n):
    if kind == 'i':
        return rng.integers(-100, 101, n).tolist()
    if kind == 'f':
        vals = np.round(rng.uniform(-2., 2., n), 3)
        return vals.tolist()
    return reals(rng, n, gen.KINDS[kind][0])


def ids_of(rng, n, big):
    """Unique, in no order."""
    top = 2**33 if big else 4 * n
    ids = set()
    while len(ids) < n:
        ids.update(int(i) for i in rng.integers(0, top, n - len(ids)))
    return rng.permutation(np.array(sorted(ids), dtype=np.int64)).tolist()


def traj_set(p, rng=None, props=None, gaps=None):
    """As gen.traj_sets."""
    rng = np.random.default_rng(p['seed']) if rng is None else rng
    props = p['props'] if props is None else props
    gaps = p['gaps'] if gaps is None else gaps
    trajs = []
    shape = p.get('shape', '')
    span = p['span'] * 5 if shape == 'sparse' else p['span']
    for tid in ids_of(rng, p['n'], p['big_ids']):
        n = int(rng.integers(1, p['longest'] + 1))
        t0 = p['first'] + int(rng.integers(0, span + 1))
        if shape == 'same times':
            n, t0 = p['longest'], p['first']
        tr = dict(id=tid, t0=t0,
            pos=reals(rng, n, 3), velocity=reals(rng, n, 3))
        for name, kind in props:
            tr[name] = values(rng, kind, n)
        if gaps and n > 1 and rng.random() < 0.2:
            skip = rng.choice([0, 0, 0, 1, 3], n - 1)
            tr['times'] = [tr['t0'] + i + int(s) for i, s in enumerate(
                np.cumsum(np.r_[0, skip]))]
        trajs.append(tr)
    return dict(props=props, trajs=trajs)


def frames(p):
    """As C07's lists of frames."""
    rng = np.random.default_rng(p['seed'])
    n, num = p['n'], p['span'] // 2 + 2
    if p.get('shape') == 'same times': # few frames, of many particles.
        n, num = n * 8, 2 + num % 3
    ids = ids_of(rng, n, p['big_ids'])
    out, t = [], p['first']
    for f in range(num):
        here = [i for i in rng.permutation(ids).tolist()
            if rng.random() < 0.7]
        if p['gaps'] and rng.random() < 0.1:
            here = []
        fr = dict(t=t, ids=here, pos=reals(rng, len(here), 3),
            velocity=reals(rng, len(here), 3))
        for name, kind in p['props']:
            fr[name] = values(rng, kind, len(here))
        out.append(fr)
        t += 1
    return dict(props=p['props'], frames=out, as_iter=bool(p['seed'] % 2))


def film(p, xuap=False, first=None):
    """As ptvis.linked_frames."""
    rng = np.random.default_rng(p['seed'])
    nframes = p['span'] + 2
    trajs = []
    for i in range(p['n']):
        start = int(rng.integers(0, nframes))
        n = int(min(rng.integers(1, p['longest'] + 1), nframes - start))
        tr = dict(start=start, pos=np.round(rng.uniform(-200, 200, (n, 3)),
            5).tolist())
        if xuap:
            tr['vel'], tr['acc'] = reals(rng, n, 3), reals(rng, n, 3)
            tr['pos_int'] = reals(rng, n, 3)
        tr['goes_on'] = bool(start + n == nframes and rng.random() < 0.5)
        trajs.append(tr)
    order = []
    for f in range(nframes):
        here = [i for i in range(p['n']) if trajs[i]['start'] <= f
            < trajs[i]['start'] + len(trajs[i]['pos'])]
        order.append(rng.permutation(np.array(here, dtype=int)).tolist())
    return dict(first=p['first'] if first is None else first,
        nframes=nframes, trajs=trajs, order=order)


def dual(p, companions=False):
    """As duals.duals."""
    rng = np.random.default_rng(p['seed'])
    tr = traj_set(dict(p, props=[]), rng, gaps=False)
    props = [q for q in p['props'] if q[0] != 'companion']
    if companions:
        props = props + [['companion', 'i']]
    parts = traj_set(dict(p, n=max(p['n'] // 4, 1)), rng, props)
    if companions:
        ids = [t['id'] for t in tr['trajs']]
        for q in parts['trajs']:
            q['companion'] = [int(v) for v in rng.choice(ids + [-1],
                len(q['pos']))]
    lo = p['first'] + int(rng.integers(0, 4))
    return dict(tracers=tr, parts=parts, rng=[lo, lo + int(rng.integers(2,
        p['span'] + p['longest'] + 3))])


def field(p, dim=3):
    """As fields.fields, of many tracers."""
    rng = np.random.default_rng(p['seed'])
    n, m = p['n'], 1 + p['n'] // 6
    if p['seed'] % 4 == 0:
        m = n + 30
    tracers, points = reals(rng, n, 3), reals(rng, m, 3)
    for i in range(m):
        if rng.random() < 0.2:
            points[i] = list(tracers[int(rng.integers(0, n))])
    # Up to four tracers in the position of one of the last points.
    if n > 4 and p['seed'] % 2 == 0:
        at = int(rng.integers(m * 3 // 4, m))
        for j in rng.choice(n, int(rng.integers(1, 5)), replace=False):
            tracers[int(j)] = list(points[at])
    comp = None
    if rng.random() < 0.6:
        d = np.linalg.norm(gen.arr(points, 3)[:, None]
            - gen.arr(tracers, 3)[None], axis=2)
        near = np.argsort(d, axis=1)
        comp = [int(near[i, min(int(rng.integers(0, 4)), n - 1)])
            if rng.random() < 0.7 else -1 for i in range(m)]
    return dict(tracers=tracers, points=points, data=reals(rng, n, dim),
        comp=comp, k=int(rng.integers(1, 25)))

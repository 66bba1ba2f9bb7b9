"""C37: Savitzky-Golay smoothing of trajectories."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact
from harness import gen, scenes


@st.composite
def cases(draw):
    half = draw(st.integers(1, 8))
    window = 2 * half + 1
    order = draw(st.integers(0, min(window - 2, draw(st.sampled_from(
        [5, 5, 5, 9])))))
    lens = st.one_of(st.integers(1, window + 3), st.integers(window,
        window + 12), st.just(window))
    n = draw(st.integers(0, 4))
    props = draw(gen.extra_props(2))
    pp = draw(st.sampled_from([[], [], ['vel_pp', 'acc_pp'], ['vel_pp'],
        ['accel']]))
    props = [p for p in props if p[0] != 'accel'] + [[p, 'v3'] for p in pp]
    base = draw(gen.first_frames)
    ids = draw(st.lists(gen.traj_ids, min_size=n, max_size=n, unique=True))
    trajs = []
    for i in range(n):
        length = draw(lens)
        tr = dict(id=ids[i], t0=base + draw(st.integers(0, 9)))
        kind = draw(st.sampled_from(['noise', 'noise', 'poly']))
        if kind == 'poly':
            # A path that the polynomials follow exactly.
            c = draw(gen.rows(order + 1, 3))
            tr['pos'] = [[float(sum(c[j][a] * (k / 8. - 1)**j
                for j in range(order + 1))) for a in range(3)]
                for k in range(length)]
        else:
            tr['pos'] = draw(gen.rows(length))
        tr['kind'] = kind
        tr['velocity'] = draw(gen.rows(length))
        for name, k in props:
            tr[name] = draw(gen.prop_values(k, length))
        trajs.append(tr)
    return dict(props=props, trajs=trajs, window=window, order=order,
        fps=draw(gen.frame_rates))


def fits(y, window, order):
    """Derivatives 0 to 3 of the fit at the middle of each window of y."""
    half = (window - 1) // 2
    ends = [y[0] - abs(y[i] - y[0]) for i in range(half, 0, -1)], \
        [y[-1] + abs(y[-1 - i] - y[-1]) for i in range(1, half + 1)]
    # The last is also mirrored: the nearest is the first.
    y = np.array(ends[0] + list(y) + ends[1])
    x = np.arange(-half, half + 1) / float(half)
    V = np.polynomial.legendre.legvander(x, order)
    out = []
    for i in range(half, len(y) - half):
        c = np.linalg.lstsq(V, y[i - half:i + half + 1], rcond=None)[0]
        p = np.polynomial.legendre.Legendre(c)
        out.append([(p.deriv(d) if d else p)(0.) / float(half)**d
            for d in range(4)])
    return np.array(out)


@facet('C37', 'smooth', cases(), quick=900,
    rule='lists of trajectories shorter and longer than the window, noisy or '
    'polynomial, windows of 3 to 17, orders 0 to 9, with other properties; '
    'values against least-squares fits window by window; non-trivial if one '
    'of two trajectories at least is smoothed')
def smooth(case, ctx):
    from flowtracks.smoothing import savitzky_golay
    w, order, fps = case['window'], case['order'], case['fps']
    with ctx.sut('smoothing'):
        trajs = gen.make_trajs(case)
        got = savitzky_golay(trajs, fps, w, order)
        orig = gen.make_trajs(case)
    want = [tr for tr in case['trajs'] if len(tr['pos']) >= w]
    ctx.nontrivial(len(want) > 0 and len(case['trajs']) > 1)
    ctx.note('order %d' % order)
    equal([int(t.trajid()) for t in got], [t['id'] for t in want],
        'trajectories')
    for a, b in zip(trajs, orig):
        for k, v in b.as_dict().items():
            exact(a.as_dict()[k], v, 'original %s after smoothing' % k)
    own = set(['pos', 'velocity', 'accel', 'vel_pp', 'acc_pp', 'time'])
    for new, tr in zip(got, want):
        n = len(tr['pos'])
        what = 'trajectory %d: ' % tr['id']
        others = [(k, kd) for k, kd in case['props'] if k not in own]
        equal(set(new.as_dict()), own | set(k for k, _ in others),
            what + 'properties')
        exact(new.time(), np.arange(tr['t0'], tr['t0'] + n), what + 'time')
        for k, kd in others:
            exact(getattr(new, k)(), gen.prop_array(kd, tr[k]), what + k)
        pos = np.array(tr['pos'])
        d = np.stack([fits(pos[:, c], w, order) for c in range(3)], axis=-1)
        scale = max(1., abs(pos).max())
        ref = [d[:, k] * fps**k for k in range(4)]
        tol = [1e-9 * scale * fps**k for k in range(4)]
        same(new.pos(), ref[0], what + 'positions', 1e-8, tol[0])
        same(new.velocity(), ref[1], what + 'velocity', 1e-8, tol[1])
        same(new.accel(), ref[2], what + 'acceleration', 1e-8, tol[2])
        # What the fit around the previous point says of this point:
        vpp = ref[1] + ref[2] / fps + ref[3] / fps**2 / 2.
        app = ref[2] + ref[3] / fps
        same(new.vel_pp()[1:], vpp[:-1], what + 'vel_pp', 1e-8, tol[1])
        same(new.acc_pp()[1:], app[:-1], what + 'acc_pp', 1e-8, tol[2])
        equal(np.shape(new.vel_pp()), (n, 3), what + 'shape of vel_pp')
        equal(np.shape(new.acc_pp()), (n, 3), what + 'shape of acc_pp')
        if tr['kind'] == 'poly':
            h = (w - 1) // 2
            same(new.pos()[h:n - h], pos[h:n - h], what + 'polynomial', 1e-8,
                tol[0])


@facet('C37', 'arguments', st.tuples(st.integers(1, 12), st.integers(0, 12),
        gen.traj_sets(max_n=2, min_len=12, max_len=14, max_extra=0)),
    quick=250,
    rule='any window of 1 to 12 and order of 0 to 12: windows that are even '
    'or too small for the order are refused, others are not; non-trivial if '
    'refused')
def arguments(case, ctx):
    from flowtracks.smoothing import savitzky_golay
    w, order, tset = case
    trajs = gen.make_trajs(tset)
    good = w % 2 == 1 and w >= order + 2
    ctx.nontrivial(not good)
    if good:
        with ctx.sut('smoothing'):
            got = savitzky_golay(trajs, 10., w, order)
        equal(len(got), len(trajs), 'number of trajectories')
        return
    ctx.touched = True
    try:
        savitzky_golay(trajs, 10., w, order)
    except (TypeError, ValueError):
        return
    check(False, 'window %d with order %d was not refused', w, order)

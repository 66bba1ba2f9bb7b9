"""C51: interpolation at a point depends on the scene around it only."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal
from harness import fields, gen
from harness.fields import npos, eligible, comp_array, ref_rbf
from checks.c26_idw import data_of
from checks.c29_rbf import spread


@st.composite
def cases(draw):
    method = draw(st.sampled_from(['inv', 'inv', 'rbf', 'corrfun']))
    case = draw(spread(ks=(1, 8), max_m=7) if method == 'rbf' else
        fields.fields(dims=(3, 3, 1, 2), max_m=7))
    # Numbers that can be moved without rounding.
    for name in ('tracers', 'points'):
        case[name] = [[round(v * 2**30) / 2.**30 for v in row]
            for row in case[name]]
    case['method'] = method
    case['move'] = [draw(st.sampled_from([0, 1, -16, 64, 512, -4096]))
        for _ in range(3)]
    n, m, d = (len(case['tracers']), len(case['points']),
        len(case['data'][0]))
    if method == 'rbf':
        case['radius'] = draw(st.sampled_from([None, None, 0.4, 0.55, 0.7]))
        case['par'] = draw(st.sampled_from([30., 80., 200.]))
    elif method == 'inv':
        case['radius'] = draw(fields.radii(case))
        case['par'] = draw(st.sampled_from([1, 2, 0.5, 3]))
    else:
        case['radius'] = draw(fields.radii(case))
        case['bins'] = [0., 0.3, 0.7, 1.9]
        case['corrs'] = [1. + v / 3 for v in draw(gen.reals(4))]
    # Other points in the same request, some of them twice.
    case['order'] = draw(st.lists(st.integers(0, m - 1), min_size=1,
        max_size=12))
    case['one'] = draw(st.integers(0, m - 1))
    case['extra'] = draw(gen.rows(draw(st.integers(0, 4))))
    case['perm'] = draw(st.permutations(range(n)))
    # Tracers far from everything.
    case['far'] = draw(gen.rows(draw(st.integers(1, 4))))
    case['far_at'] = draw(st.integers(0, n))
    case['quat'] = draw(gen.reals(4))
    case['shift'] = draw(gen.reals(3, 20.))
    case['mirror'] = draw(st.integers(0, 3)) == 0
    case['mix'] = draw(gen.rows(d, d))
    case['second'] = draw(gen.rows(n, d))
    return case


def rotation(case):
    q = np.array(case['quat'])
    if np.linalg.norm(q) < 1e-3:
        q = np.array([1., 0, 0, 0])
    w, x, y, z = q / np.linalg.norm(q)
    R = np.array([
        [1 - 2*(y*y + z*z), 2*(x*y - z*w), 2*(x*z + y*w)],
        [2*(x*y + z*w), 1 - 2*(x*x + z*z), 2*(y*z - x*w)],
        [2*(x*z - y*w), 2*(y*z + x*w), 1 - 2*(x*x + y*y)]])
    return R * (-1 if case['mirror'] else 1)


class Points(object):
    """Which of the points have a value that is known to be well defined."""
    def __init__(self, case):
        self.rec, self.call, self.far = [], [], []
        T, D = npos(case['tracers']), data_of(case)
        for i in range(len(case['points'])):
            el = eligible(case, i, case['radius'])
            k = case['k']
            kc = k if case['radius'] is None or case['method'] == 'inv' \
                else max(len(el.idx), 1)
            ok = len(el.idx) > 0
            if case['method'] == 'corrfun':
                ok = ok and not any(abs(d - b) < 1e-7 for d in el.dists
                    for b in case['bins'])
            # Positions rounded anew may make distances of nothing.
            ok = ok and el.dists[0] > 1e-7
            for to, num in ((self.rec, k), (self.call, kc)):
                good = ok and not el.ambiguous(num)
                if good and case['method'] == 'rbf':
                    good = ref_rbf(T, D, *el.nearest(num),
                        eps=case['par'])[1] < 1e6
                to.append(good)
            # Enough of those near.
            self.far.append(case['radius'] is not None or len(el.idx) >= k)
        self.far = np.array(self.far, dtype=bool)

    def get(self, which):
        return np.array(getattr(self, which), dtype=bool)


def results(case, ctx, args, T, P, D, comp, radius=None):
    """By recorded scene and by call."""
    from flowtracks.interpolation import interpolant
    it = interpolant(case['method'], case['k'], case['radius'] if
        radius is None else radius, args)
    it.set_scene(T, P, D, comp)
    rec = np.asarray(it.interpolate())
    call = np.asarray(interpolant(case['method'], case['k'], case['radius']
        if radius is None else radius, args)(T, P, D, comp))
    equal(rec.shape, (len(P), D.shape[1]), 'shape')
    equal(call.shape, (len(P), D.shape[1]), 'shape')
    return rec, call


@facet('C51', 'relations', cases(), quick=700,
    rule='scenes as in C25 (for radial basis functions: as in C29) in each '
    'of the methods, recorded and by call; then with the points in another '
    'order, repeated, alone or among others; tracers reordered, tracers far '
    'away added; everything rotated, mirrored, and moved; data mixed '
    'linearly; non-trivial with two points of well-defined values and three '
    'tracers')
def relations(case, ctx):
    T, P, D = npos(case['tracers']), npos(case['points']), data_of(case)
    comp, n = comp_array(case), len(case['tracers'])
    ctx.note(case['method'])
    if case['method'] == 'corrfun':
        args = ctx.path('corrs.npz')
        np.savez(args, corrs=np.array(case['corrs']),
            bins=np.array(case['bins']))
    else:
        args = case['par']
    pts = Points(case)
    good = [pts.get('rec'), pts.get('call')]
    ctx.nontrivial(good[0].sum() > 1 and n > 2)
    if not (good[0].any() or good[1].any()):
        return
    tol = 1e-7

    def like(got, want, what, only=None, where=None):
        for g, w, ok, kind in zip(got, want, good, ('recorded', 'call')):
            if where is not None:
                w, ok = w[where], ok[where]
            if only is not None:
                ok = ok & only
            same(g[:len(w)][ok], w[ok], '%s (%s, %s)' % (what,
                case['method'], kind), tol, tol)

    with ctx.sut('interpolating'):
        base = results(case, ctx, args, T, P, D, comp)
    # Other points:
    order = np.array(case['order'])
    with ctx.sut('with points in another order'):
        got = results(case, ctx, args, T, P[order], D,
            None if comp is None else comp[order])
    like(got, base, 'points in another order', where=order)
    one = np.array([case['one']])
    with ctx.sut('of one point'):
        got = results(case, ctx, args, T, P[one], D,
            None if comp is None else comp[one])
    like(got, base, 'a point alone', where=one)
    extra = gen.arr(case['extra'], 3)
    with ctx.sut('among other points'):
        got = results(case, ctx, args, T, np.vstack((P, extra)), D,
            None if comp is None else np.r_[comp, np.full(len(extra), -1)])
    like(got, base, 'among other points')
    # Other tracers:
    perm = np.array(case['perm'])
    inv = np.argsort(perm)
    with ctx.sut('with tracers in another order'):
        got = results(case, ctx, args, T[perm], P, D[perm],
            None if comp is None else np.where(comp < 0, -1, inv[comp]))
    like(got, base, 'tracers in another order')
    at = case['far_at']
    far = gen.arr(case['far'], 3) + np.array([500., -700., 300.]) \
        + 50. * np.arange(len(case['far']))[:, None]
    with ctx.sut('with tracers far away'):
        got = results(case, ctx, args, np.vstack((T[:at], far, T[at:])), P,
            np.vstack((D[:at], np.full((len(far), D.shape[1]), 1e3), D[at:])),
            None if comp is None else np.where(comp >= at, comp + len(far),
                comp))
    like(got, base, 'tracers far away', only=pts.far)
    # Another frame of reference:
    with ctx.sut('moved'):
        move = np.array(case['move'], dtype=float)
        got = results(case, ctx, args, T + move, P + move, D, comp)
    like(got, base, 'moved')
    R, s = rotation(case), np.array(case['shift'])
    with ctx.sut('rotated'):
        got = results(case, ctx, args, T.dot(R.T) + s, P.dot(R.T) + s, D,
            comp)
    moved = npos(T.dot(R.T) + s), npos(P.dot(R.T) + s)
    # Rounding may change what is at the same place, and ties.
    d0 = np.linalg.norm(P[:, None] - T[None], axis=2)
    d1 = np.linalg.norm(moved[1][:, None] - moved[0][None], axis=2)
    stable = ~np.any((d0 < 1e-5), axis=1) & ~np.any(d1 < 1e-5, axis=1)
    for i in range(len(P)):
        el = eligible(case, i, case['radius'])
        gap = np.diff(el.dists) if len(el.dists) > 1 else np.ones(1)
        stable[i] &= not np.any(gap < 1e-8)
        if case['radius'] is not None:
            stable[i] &= not np.any(np.abs(d0[i] - case['radius']) < 1e-8)
    tol = 1e-6
    like(got, base, 'rotated and moved', only=stable)
    # Data mixed between components, and added:
    tol = 1e-7
    M = gen.arr(case['mix'], D.shape[1])
    E = gen.arr(case['second'], D.shape[1])
    with ctx.sut('with other data'):
        mixed = results(case, ctx, args, T, P, D.dot(M) - 2 * E, comp)
        second = results(case, ctx, args, T, P, E, comp)
    like(mixed, [b.dot(M) - 2 * e for b, e in zip(base, second)],
        'data mixed linearly')


@st.composite
def jac_cases(draw):
    case = draw(cases().filter(lambda c: c['method'] == 'inv'))
    return case


@facet('C51', 'jacobian', jac_cases(), quick=400,
    rule='scenes for inverse distances, the Jacobian and distances of '
    'neighbours of points alone or in another order, and in a rotated '
    'scene; non-trivial with two points of well-defined values and three '
    'tracers')
def jacobian(case, ctx):
    from flowtracks.interpolation import interpolant
    T, P, D = npos(case['tracers']), npos(case['points']), data_of(case)
    comp = comp_array(case)
    pts = Points(case)
    good = pts.get('rec')
    ctx.nontrivial(good.sum() > 1 and len(T) > 2)

    def jac(T, P, D, comp):
        it = interpolant('inv', case['k'], case['radius'], case['par'])
        it.set_scene(T, P, D, comp)
        nd = interpolant('inv', case['k']).neighb_dists(T, P, comp)
        return np.asarray(it.eulerian_jacobian()), np.asarray(nd)

    with ctx.sut('finding Jacobians'):
        base, dists = jac(T, P, D, comp)
        order = np.array(case['order'])
        other, odists = jac(T, P[order], D, None if comp is None
            else comp[order])
        R, s = rotation(case), np.array(case['shift'])
        turned, tdists = jac(T.dot(R.T) + s, P.dot(R.T) + s, D, comp)
    same(odists, dists[order], 'distances of points in another order')
    d0 = np.linalg.norm(P[:, None] - T[None], axis=2)
    nearest = np.where(d0 > 0, d0, np.inf).min(axis=1)
    for i, j in enumerate(order):
        if good[j]:
            same(other[i], base[j], 'Jacobian of a point in another order',
                1e-7, 1e-9 / nearest[j])
    for i in range(len(P)):
        el = eligible(case, i, case['radius'])
        if not good[i] or np.any(d0[i] < 1e-3) or np.any(
                np.diff(el.dists) < 1e-8):
            continue
        if case['radius'] is not None and np.any(np.abs(d0[i]
                - case['radius']) < 1e-8):
            continue
        ctx.note('turned')
        same(turned[i], base[i].dot(R.T), 'Jacobian in a rotated scene',
            1e-6, 1e-8 / nearest[i])
        same(tdists[i], dists[i], 'distances in a rotated scene', 1e-7, 1e-9)

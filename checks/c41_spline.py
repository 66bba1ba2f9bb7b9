"""C41: a trajectory smoothed by a spline."""
import warnings
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact
from harness import gen, scenes


@st.composite
def cases(draw):
    order = draw(st.sampled_from([1, 3, 3, 5]))
    n = draw(st.one_of(st.integers(1, order + 1), st.integers(order + 1, 25),
        st.integers(order + 1, 12)))
    kind = draw(st.sampled_from(['noise', 'walk', 'walk', 'line', 'grid']))
    pos = draw(gen.rows(n))
    if kind == 'line':
        a, b = pos[0], pos[-1]
        pos = [[a[c] + (b[c] + 3.) * k for c in range(3)] for k in range(n)]
    elif kind == 'grid':
        pos = [[float(round(2 * v)) for v in p] for p in pos]
    elif kind == 'walk':
        pos = np.cumsum(np.array(pos) * 0.3, axis=0) \
            + np.arange(n)[:,None] * np.array([0.2, 0.1, 0.])
        pos = [[round(v, 7) for v in p] for p in pos.tolist()]
    err = draw(st.sampled_from([0., 0., 1e-4, 1e-3, 0.01, 0.05, 0.2, 1.,
        20.]))
    return dict(order=order, kind=kind, err=err, pos=pos,
        t0=draw(gen.first_frames), id=draw(gen.traj_ids),
        scale=draw(st.sampled_from([1., 1., 1e-3, 250.])),
        props=draw(gen.extra_props(2)), vel=draw(gen.rows(n)))


def param(pos):
    d = np.sqrt((np.diff(pos, axis=0)**2).sum(axis=1))
    u = np.r_[0., np.cumsum(d)]
    return u / u[-1]


def polynomial(u, pos, order):
    """
    Values of the least-squares polynomial and two derivatives, and the sum
    of its squared deviations.
    """
    P = np.polynomial.legendre.Legendre
    fits = [P.fit(u, x, order, domain=[0., 1.]) for x in pos.T]
    out = [np.array([(f.deriv(d) if d else f)(u) for f in fits]).T
        for d in range(3)]
    return out + [((out[0] - pos)**2).sum()]


def make(case):
    from flowtracks.trajectory import Trajectory
    n = len(case['pos'])
    pos = gen.arr(case['pos'], 3) * case['scale']
    vel = gen.arr(case['vel'], 3)
    extra = dict((name, gen.prop_array(k, (case['pos'] if k == 'v3' else
        [p[:2] for p in case['pos']] if k == 'v2' else list(range(n)))))
        for name, k in case['props'])
    return Trajectory(pos, vel, np.arange(n) + case['t0'], case['id'],
        **extra), extra


@facet('C41', 'spline', cases(), quick=250,
    rule='one trajectory of 1-25 points, random, on a line or grid, smoothed '
    'with orders 1, 3 and 5 and various error bounds; non-trivial if it is '
    'long enough for a spline')
def spline(case, ctx):
    from scipy.interpolate import make_interp_spline
    tr, extra = make(case)
    order, n = case['order'], len(case['pos'])
    pos, vel = tr.pos().copy(), tr.velocity().copy()
    err = case['err'] * case['scale']
    standing = n > 1 and not np.diff(pos, axis=0).any(axis=1).all()
    ctx.note('order %d' % order, case['kind'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if standing and n > order:
            # Refused by the spline function; one of the known findings.
            try:
                new = tr.smoothed(err, order)
            except ValueError:
                ctx.touched = True
                ctx.known('smooth-standing', 'Trajectory.smoothed() fails if '
                    'consecutive positions are the same')
                return
            check(len(new) == n, 'length %d, should be %d', len(new), n)
            return
        with ctx.sut('smoothed(%r, %r)' % (err, order)):
            new = tr.smoothed(err, order)

    # The original is as it was.
    exact(tr.pos(), pos, 'positions of the original')
    exact(tr.velocity(), vel, 'velocities of the original')
    exact(tr.time(), np.arange(n) + case['t0'], 'times of the original')
    for name in extra:
        exact(getattr(tr, name)(), extra[name], 'original ' + name)
    if n < order + 1:
        check(new is tr, 'too short a trajectory must be returned as it is')
        return
    ctx.nontrivial()
    check(new is not tr, 'the result is the original')
    equal(new.trajid(), case['id'], 'id')
    exact(new.time(), tr.time(), 'times')
    equal(len(new), n, 'length')
    check('accel' in new.as_dict(), 'there is no acceleration')
    got = [np.asarray(a) for a in (new.pos(), new.velocity(), new.accel())]
    for g, w in zip(got, ('position', 'velocity', 'acceleration')):
        check(g.shape == (n, 3), 'shape of %s is %s', w, g.shape)
        check(np.isfinite(g).all(), '%s is not finite: %s', w, g)

    # The bound on deviation.
    u = param(pos)
    size = np.abs(pos).max() + np.ptp(pos)
    eps = 1e-9 * size
    dev = ((got[0] - pos)**2).sum()
    bound = (n * err)**2
    poly = polynomial(u, pos, order)
    # FITPACK's search for the bound may stop before it gets to one that is
    # tiny compared to the data, and or with few points, and does not get far with broken lines.
    if order > 1 or bound == 0:
        most = 1.1 * bound + (0 if bound == 0 else (0.01 if n > 8
            else 0.2) * poly[3])
        check(dev <= most + n * eps**2, 'squared deviations sum up to %r, '
            'the bound is %r', dev, bound)
    h = np.diff(u).min()
    # What errors of rounding may grow to in derivatives.
    tols = [1e-8 * size, 1e-8 * size / h, 1e-8 * size / h**2]
    well = h > 1e-2
    if bound == 0:
        if not well:
            return
        ctx.note('interpolated')
        ref = make_interp_spline(u, pos, order)
        want = [ref(u), ref.derivative()(u) if order > 1 else None,
            ref.derivative(2)(u) if order > 1 else None]
    elif poly[3] < bound * 0.99:
        ctx.note('polynomial')
        want = poly[:3]
    elif poly[3] > bound * 1.01:
        # As smooth as the bound lets it be.
        ctx.note('spline')
        # (As far as FITPACK goes: it may stop early when points are few.)
        if bound > 0.01 * poly[3] and order == 3 and n > 8:
            check(dev >= bound * 0.9, 'squared deviations sum up to %r, up '
                'to %r would be smoother', dev, bound)
        want = [None] * 3
    else:
        return
    if order == 1:
        if want[0] is not None:
            same(got[0], want[0], 'position', 1e-7, tols[0])
        exact(got[2], np.zeros((n, 3)), 'acceleration on straight lines')
    else:
        for g, w, what, tol in zip(got, want, ('position', 'velocity',
                'acceleration'), tols):
            if w is not None:
                same(g, w, what, 1e-5, tol * 100)
    if order == 3:
        # Cubic between consecutive points.
        x, v, a = got
        d = np.diff(u)[:,None]
        first = 6 * (x[1:] - x[:-1]) / d**2 - (4 * v[:-1] + 2 * v[1:]) / d
        last = -6 * (x[1:] - x[:-1]) / d**2 + (2 * v[:-1] + 4 * v[1:]) / d
        if well:
            same(a[:-1], first, 'acceleration at starts of cubic parts',
                1e-5, tols[2] * 100)
            same(a[1:], last, 'acceleration at ends of cubic parts', 1e-5,
                tols[2] * 100)
    if case['kind'] == 'line':
        ctx.note('steady motion')
        step = (pos[-1] - pos[0])
        if not np.allclose(got[1], step / (n - 1), rtol=1e-5,
                atol=1e-6 * size):
            ctx.known('smooth-velocity-unit', 'velocities by '
                'Trajectory.smoothed() are for the duration of the '
                'trajectory, not for a frame or second')
        same(got[1], np.tile(step, (n, 1)), 'velocity of steady motion, over '
            'all of it', 1e-6, 1e-6 * size)


@facet('C41', 'laws', cases(), quick=120,
    rule='the same trajectory moved, turned, scaled together with the error '
    'bound, or with its other data changed; non-trivial if it is smoothed')
def laws(case, ctx):
    from flowtracks.trajectory import Trajectory
    tr, extra = make(case)
    order, n = case['order'], len(case['pos'])
    pos = tr.pos()
    err = case['err'] * case['scale']
    if n < order + 1 or not np.diff(pos, axis=0).any(axis=1).all():
        return
    u = param(pos)
    if np.diff(u).min() < 1e-2:
        return
    ctx.nontrivial()
    size = np.abs(pos).max() + np.ptp(pos)
    h = np.diff(u).min()
    t, i = tr.time(), tr.trajid()

    def run(p, e, **kwds):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with ctx.sut('smoothed'):
                r = Trajectory(p, p * 0, t, i, **kwds).smoothed(e, order)
                return [np.asarray(a) for a in (r.pos(), r.velocity(),
                    r.accel())]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with ctx.sut('smoothed'):
            r = tr.smoothed(err, order)
    base = [np.asarray(a) for a in (r.pos(), r.velocity(), r.accel())]
    # The iterative search for a spline stops at a tolerance which rounding
    # can tip over; exact fits and polynomials are not subject to it.
    free = err == 0 or polynomial(u, pos, order)[3] < (n * err)**2 * 0.99
    names = ('position', 'velocity', 'acceleration')
    again = run(pos, err)
    for a, b, w in zip(again, base, names):
        exact(a, b, w + ' with other velocities and no other properties')
    p = np.ascontiguousarray(pos[:,[2, 0, 1]])
    alt = [('axes', p, err, lambda a, k: a[:,[2, 0, 1]]),
        ('scale', pos * 4., err * 4., lambda a, k: a * 4.),
        ('mirror', pos * [1., -1., 1.], err, lambda a, k: a * [1., -1., 1.]),
        ('move', pos + np.array([1., -2., 0.5]) * case['scale'], err,
            lambda a, k: a + np.array([1., -2., 0.5]) * case['scale'] *
            (k == 0))]
    for name, p, e, f in alt:
        if not free and name != 'scale' and name != 'mirror':
            continue
        got = run(p, e)
        for k in range(3 if order > 1 else 1):
            same(got[k], f(base[k], k), '%s: %s' % (name, names[k]), 1e-5,
                1e-6 * size * (4 if name == 'scale' else 1) / h**k)
    if free and order > 1:
        got = [a[::-1] for a in run(np.ascontiguousarray(pos[::-1]), err)]
        for k in range(3):
            same(got[k], base[k] * [1, -1, 1][k], 'reversed: ' + names[k],
                1e-5, 1e-6 * size / h**k)

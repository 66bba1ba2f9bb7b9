"""C31: direct calls of an interpolant, and its numerical derivatives."""
import warnings
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact
from harness import fields, gen
from harness.fields import npos, comp_array, Eligible
from checks.c26_idw import data_of
from checks.c29_rbf import spread


def make(case, ctx):
    from flowtracks.interpolation import interpolant
    param = {'inv': 1.5, 'rbf': 60., 'corrfun': ctx.path('c.npz')}[
        case['method']]
    np.savez(ctx.path('c.npz'), corrs=np.array([3., 2., 1.]),
        bins=np.array([0., 0.25, 0.5]))
    return interpolant(case['method'], case['k'], case.get('radius'), param)


@st.composite
def two_scenes(draw):
    case = draw(spread(min_n=1))
    other = draw(spread(min_n=1))
    radius = None if draw(st.booleans()) else draw(fields.radii(other))
    return dict(case, other=other, none=draw(st.integers(0, 3)) == 0,
        radius=radius,
        method=draw(st.sampled_from(['inv', 'rbf', 'corrfun'])))


@facet('C31', 'calls', two_scenes(), quick=1200,
    rule='an interpolant with a recorded scene, of any method, called on '
    'another scene: the result is that of recording the other scene, and '
    'the recorded one is not disturbed; also with no tracers; non-trivial if '
    'both scenes have two tracers')
def calls(case, ctx):
    T, P, D = npos(case['tracers']), npos(case['points']), data_of(case)
    o = case['other']
    T2, P2, D2 = npos(o['tracers']), npos(o['points']), data_of(o)
    comp2 = comp_array(o)
    if case['none']:
        T2, D2, comp2 = np.zeros((0, 3)), np.zeros((0, D2.shape[1])), None
        ctx.note('no tracers')
    ctx.nontrivial(min(len(T), len(T2)) > 1)
    ctx.note(case['method'])
    with ctx.sut('interpolating'):
        interp = make(case, ctx)
        interp.set_scene(T, P, D, comp_array(case))
        before = np.array(interp.interpolate())
        nb = np.array(interp.current_active_neighbs())
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            called = np.asarray(interp(T2, P2, D2, comp2))
        after = np.array(interp.interpolate())
        nb2 = np.array(interp.current_active_neighbs())
        pos = np.asarray(interp.field_positions())
        data = np.asarray(interp.current_data())
    same(after, before, 'recorded scene after a call', 1e-12)
    exact(nb2, nb, 'recorded neighbours after a call')
    exact(pos, T, 'recorded positions after a call')
    exact(data, D, 'recorded data after a call')
    if case['none']:
        same(called, np.zeros((len(P2), D2.shape[1])), 'with no tracers', 0.)
        check(len([w for w in caught if 'tracers' in str(w.message)]) > 0,
            'no warning for no tracers')
    with ctx.sut('recording the other scene'):
        fresh = make(case, ctx)
        fresh.set_scene(T2, P2, D2, comp2)
        onscene = np.asarray(fresh.interpolate())
        # The first interpolant may go over to the other scene, too:
        interp.set_scene(T2, P2, D2, comp2)
        moved = np.asarray(interp.interpolate())
    sure, both = [], []
    for i in range(len(P2)):
        el = Eligible(T2, P2[i], None if comp2 is None else comp2[i],
            case['radius'])
        if case['none'] or not (el.ambiguous(case['k']) or len(el.idx) == 0):
            sure.append(i)
            # By radius, these calls use all the tracers found, on-scene
            # interpolation is from the nearest of them.
            if case['none'] or case['radius'] is None or \
                    case['method'] == 'inv' or len(el.idx) <= case['k']:
                both.append(i)
    same(called[both], onscene[both], 'call and recorded scene', 1e-8, 1e-9)
    same(moved[sure], onscene[sure], 'going over to another scene', 1e-8,
        1e-9)


@st.composite
def jacobian_cases(draw):
    case = draw(spread(min_n=2))
    n, d = len(case['tracers']), 3
    case['data'] = draw(gen.rows(n, d))
    # No point at a tracer, unless it is the companion.
    for i in range(len(case['points'])):
        if case['points'][i] in case['tracers'] and (case['comp'] is None or
                case['tracers'][case['comp'][i]] != case['points'][i]):
            case['points'][i] = [v + 0.07 for v in case['points'][i]]
    return dict(case, method=draw(st.sampled_from(['rbf', 'corrfun',
        'rbf'])), eps=draw(st.sampled_from([None, 1e-3, 1e-5, 1e-6])),
        radius=draw(fields.radii(case)), given=draw(st.booleans()))


@facet('C31', 'jacobian', jacobian_cases(), quick=900,
    rule='numerical derivatives against differences of the interpolation '
    'recorded at the moved points, with the same companions; non-trivial '
    'with companions and two points')
def jacobian(case, ctx):
    T, P, D = npos(case['tracers']), npos(case['points']), data_of(case)
    comp = comp_array(case)
    ctx.nontrivial(comp is not None and len(P) > 1)
    eps = case['eps'] or 100e-6
    with ctx.sut('finding the Jacobian'):
        interp = make(case, ctx)
        interp.set_scene(T, P, D, comp)
        kw = {} if case['eps'] is None else dict(eps=eps)
        if case['given']:
            kw['local_interp'] = interp.interpolate()
        jac = np.asarray(interp.eulerian_jacobian(**kw))
    equal(jac.shape, (len(P), 3, 3), 'shape')
    with ctx.sut('interpolating'):
        fresh = make(case, ctx)
        fresh.set_scene(T, P, D, comp)
        here = fresh.interpolate()
        want = np.empty((len(P), 3, 3))
        for c in range(3):
            fresh.set_interp_points(P + eps * np.eye(3)[c], comp)
            want[:, :, c] = (fresh.interpolate() - here) / eps
    for i in range(len(P)):
        c = None if comp is None else comp[i]
        els = [Eligible(T, P[i] + e, c, case['radius']) for e in np.vstack((
            np.zeros((1, 3)), eps * np.eye(3)))]
        if any(el.ambiguous(case['k']) or not el.idx for el in els):
            continue
        if case['method'] == 'corrfun' and any(
                fields.near_bin(el.dists, [0.25, 0.5]) for el in els):
            continue
        same(jac[i], want[i], 'Jacobian at point %d' % i, 1e-6, 1e-9 / eps)

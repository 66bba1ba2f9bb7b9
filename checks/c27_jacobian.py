"""C27: derivatives of the inverse-distance interpolation."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal
from harness import fields
from harness.fields import npos, eligible, comp_array, ref_inv, \
    ref_inv_jacobian, ref_rbf, ref_corrfun, near_bin, Eligible
from checks.c26_idw import cases, data_of


@facet('C27', 'analytic', cases(), quick=1500,
    rule='scenes as in C26; the Jacobian with and without the interpolated '
    'value given, against the quotient rule; non-trivial if two points have '
    'a Jacobian that does not depend on tie breaking')
def analytic(case, ctx):
    from flowtracks.interpolation import interpolant
    with ctx.sut('finding the Jacobian'):
        interp = interpolant('inv', case['k'], case['radius'], case['p'])
        interp.set_scene(npos(case['tracers']), npos(case['points']),
            data_of(case), comp_array(case))
        jac = np.asarray(interp.eulerian_jacobian())
        given = np.asarray(interp.eulerian_jacobian(interp.interpolate()))
    m, d = len(case['points']), len(case['data'][0])
    equal(jac.shape, (m, d, 3), 'shape')
    equal(given.shape, (m, d, 3), 'shape')
    k, p = case['k'] or 4, case['p'] or 1
    known = 0
    for i in range(m):
        el = eligible(case, i, case['radius'])
        idx, dists = el.nearest(k)
        if el.ambiguous(k) or len(idx) == 0:
            continue
        known += 1
        want = ref_inv_jacobian(case['tracers'], case['points'][i],
            data_of(case), idx, dists, p)
        # The terms may cancel out, so the scale is that of one term.
        scale = p / dists[0]
        same(jac[i], want, 'Jacobian at point %d' % i, 1e-8, 1e-11 * scale)
        same(given[i], want, 'Jacobian at point %d, value given' % i, 1e-8,
            1e-11 * scale)
    ctx.nontrivial(known > 1)


@facet('C27', 'differences', fields.fields(coincide=False, min_n=2),
    quick=700,
    rule='scenes without coincidence; the Jacobian against the change in '
    'interpolated values between points slightly apart; non-trivial with 3 '
    'tracers and a companion')
def differences(case, ctx):
    from flowtracks.interpolation import interpolant
    T, P, D = npos(case['tracers']), npos(case['points']), data_of(case)
    comp = comp_array(case)
    ctx.nontrivial(len(T) > 2 and comp is not None)
    h = 1e-5
    with ctx.sut('finding the Jacobian'):
        interp = interpolant('inv', case['k'])
        interp.set_scene(T, P, D, comp)
        jac = np.asarray(interp.eulerian_jacobian())
        diffs = []
        for c in range(3):
            e = np.zeros(3)
            e[c] = h
            interp.set_interp_points(P + e, comp)
            fwd = interp.interpolate()
            interp.set_interp_points(P - e, comp)
            diffs.append((fwd - interp.interpolate()) / (2 * h))
    num = np.stack(diffs, axis=-1)
    equal(jac.shape, num.shape, 'shape')
    for i in range(len(P)):
        el = eligible(case, i)
        k = case['k']
        if len(el.idx) == 0 or el.dists[0] < 0.05 or any(
                d < 0.05 for d in np.linalg.norm(T - P[i], axis=1)):
            continue
        if len(el.idx) > k and el.dists[k] - el.dists[k - 1] < 4 * h:
            continue
        # Third derivatives times h**2 are below that:
        same(jac[i], num[i], 'Jacobian at point %d' % i, 1e-5, 1e-4)


@st.composite
def numeric(draw):
    from checks.c29_rbf import spread
    case = draw(spread(dims=(3,), ks=(1, 8), max_m=4))
    return dict(case, method=draw(st.sampled_from(['rbf', 'corrfun'])),
        eps=draw(st.sampled_from([None, 1e-4, 1e-3, 1e-2, 0.1, -1e-3])),
        given=draw(st.booleans()), radius=draw(st.sampled_from([None, None,
        0.4, 0.55, 0.7])))


@facet('C27', 'numerical', numeric(), quick=500, rule='radial-basis and '
    'correlation methods: the change of values interpolated from the '
    'nearest tracers, by a reference, over the step that is given or the '
    'default; non-trivial if it is known for a point with two neighbours')
def numerical(case, ctx):
    from flowtracks.interpolation import interpolant
    T, P, D = npos(case['tracers']), npos(case['points']), data_of(case)
    k, comp, radius = case['k'], comp_array(case), case['radius']
    corrs, bins = np.array([3., 2., 1., 0.5]), [0., 0.25, 0.5, 0.8]
    if case['method'] == 'corrfun':
        param = ctx.path('c.npz')
        np.savez(param, corrs=corrs, bins=bins)
    else:
        param = 30.
    with ctx.sut('finding the Jacobian'):
        interp = interpolant(case['method'], k, radius, param)
        interp.set_scene(T, P, D, comp)
        kw = {} if case['eps'] is None else dict(eps=case['eps'])
        if case['given']:
            kw['local_interp'] = interp.interpolate()
        jac = np.asarray(interp.eulerian_jacobian(**kw))
        after = np.asarray(interp.interpolate())
        again = np.asarray(interp.eulerian_jacobian(**kw))
    equal(jac.shape, (len(P), 3, 3), 'shape')
    same(again, jac, 'Jacobian found again', 1e-12, 1e-12)
    eps = 1e-4 if case['eps'] is None else case['eps']
    ctx.note(case['method'], 'step %g' % eps)
    for i in range(len(P)):
        vals, scale = [], 1.
        for e in np.vstack((np.zeros(3), eps * np.eye(3))):
            el = Eligible(T, P[i] + e, None if comp is None else comp[i],
                radius)
            if el.ambiguous(k) or len(el.idx) == 0 or (
                    case['method'] == 'corrfun' and near_bin(el.dists, bins)):
                break
            idx, dists = el.nearest(k)
            if case['method'] == 'rbf':
                val, cond = ref_rbf(T, D, idx, dists, 30.)
                scale = max(scale, cond)
            else:
                val = ref_corrfun(D, idx, dists, corrs=corrs[:, None],
                    bins=bins)
            vals.append(val)
        if len(vals) < 4 or scale > 1e8:
            continue
        ctx.nontrivial(len(idx) > 1)
        tol = 1e-14 * scale * max(1., np.abs(D).max()) + 1e-13
        same(after[i], vals[0], 'value', 1e-9, tol)
        same(jac[i], (np.array(vals[1:]) - vals[0]).T / eps,
            'Jacobian at point %d' % i, 1e-9, 4 * tol / abs(eps))

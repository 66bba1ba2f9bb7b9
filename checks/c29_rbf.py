"""C29: radial-basis interpolation."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal
from harness import fields, gen
from harness.fields import npos, eligible, comp_array, ref_rbf
from checks.c26_idw import data_of


@st.composite
def spread(draw, dims=(3, 3, 1, 2), **kw):
    """
    Tracers well apart from each other, in different cells of a grid, which
    keeps the equations solvable.
    """
    case = draw(fields.fields(dims=dims,
        coincide=False, **kw))
    n = len(case['tracers'])
    cells = draw(st.permutations(range(27)))[:n]
    for tr, c in zip(case['tracers'], cells):
        tr[:] = [round((c // 3**a % 3) * 0.3 + tr[a] * 0.05, 7)
            for a in range(3)]
    for i in range(len(case['points'])):
        case['points'][i] = [round(v * 0.5 + 0.3, 7)
            for v in case['points'][i]]
        if draw(st.integers(0, 4)) == 0:
            case['points'][i] = list(case['tracers'][draw(
                st.integers(0, n - 1))])
    case['comp'] = draw(fields.companions(case['tracers'], case['points']))
    return case


@st.composite
def cases(draw):
    case = draw(spread(dims=(3, 3, 1, 2, 9), ks=(1, 8)))
    case['radius'] = draw(st.sampled_from([None, None, 0.4, 0.55, 0.7]))
    case['unit'] = draw(st.sampled_from([1., 1e-3]))  # m and mm.
    case['eps'] = draw(st.sampled_from([0.01, 0.3, 5., 30., 80.,
        200.]))
    if draw(st.integers(0, 5)) == 0:
        case['k'] = None
    if case['unit'] == 1e-3 and draw(st.integers(0, 3)) == 0:
        case['eps'] = None  # the default parameter, 1e5, in m.
    if case['eps'] is None:
        case['unit'] = 30e-3
    return case


@facet('C29', 'rbf', cases(), quick=1500,
    rule='up to 12 tracers apart from each other, scales of m and mm, '
    'several parameters and the default one, by number and by radius; '
    'recorded scene and direct call; non-trivial if two points have a value '
    'that does not depend on tie breaking')
def rbf(case, ctx):
    from flowtracks.interpolation import interpolant
    u, k, D = case['unit'], case['k'], data_of(case)
    T, P = npos(case['tracers']), npos(case['points'])
    comp = comp_array(case)
    radius = case['radius']
    eps = case['eps'] / u**2 if case['eps'] is not None else None
    with ctx.sut('interpolating'):
        args = ('rbf', k, None if radius is None else radius * u, eps)
        interp = interpolant(*args)
        interp.set_scene(T * u, P * u, D, comp)
        got = np.asarray(interp.interpolate())
        again = np.asarray(interp.interpolate())
        called = np.asarray(interpolant(*args)(T * u, P * u, D, comp))
        onscene = np.asarray(interp.interpolate())
    eps = 1e5 * u**2 if eps is None else case['eps']
    shape = (len(P), D.shape[1])
    equal(got.shape, shape, 'shape')
    equal(called.shape, shape, 'shape of result of call')
    same(again, got, 'interpolate() again', 1e-9, 1e-10)
    same(onscene, got, 'interpolate() after call', 1e-9, 1e-10)
    known = 0
    for i in range(len(P)):
        el = eligible(case, i, radius)
        num = k or 7
        if not el.ambiguous(num):
            idx, dists = el.nearest(num)
            want, cond = ref_rbf(T, D, idx, dists, eps) if idx else (
                np.zeros(shape[1]), 1.)
            if cond < 1e10:
                known += 1
                ctx.note('cond > 1e%d' % (2 * int(np.log10(max(cond, 1)) // 2)))
                same(got[i], want, 'interpolate() at point %d' % i,
                    1e-9, 1e-14 * cond + 1e-12)
        # Direct call uses all the tracers in the radius.
        if radius is not None:
            num = len(el.idx)
        if not el.ambiguous(max(num, 1)):
            idx, dists = el.nearest(num)
            want, cond = ref_rbf(T, D, idx, dists, eps) if idx else (
                np.zeros(shape[1]), 1.)
            if cond < 1e10:
                same(called[i], want, 'call at point %d' % i, 1e-9,
                    1e-14 * cond + 1e-12)
    ctx.nontrivial(known > 1)

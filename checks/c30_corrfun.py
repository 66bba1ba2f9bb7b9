"""C30: interpolation by a correlation function."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal
from harness import fields, gen
from harness.fields import npos, eligible, comp_array, ref_corrfun, near_bin
from checks.c26_idw import data_of


@st.composite
def cases(draw):
    case = draw(fields.fields(dims=(3, 3, 1, 2, 9)))
    case['radius'] = draw(fields.radii(case))
    case['grid'] = draw(st.integers(0, 2)) == 0
    if case['grid']:
        for name in ('tracers', 'points'):
            case[name] = [[round(v * 8) / 8. for v in row]
                for row in case[name]]
        case['radius'] = None
    d = len(case['data'][0])
    nbins = draw(st.integers(1, 6))
    edges = sorted(set(abs(v) for v in draw(gen.reals(nbins - 1, 2.))))
    if case['grid']:
        edges = sorted(set(round(e * 8) / 8. for e in edges))
    case['bins'] = [0.] + [e for e in edges if e > 0]
    shape = draw(st.sampled_from(['one', 'each']))
    nbins = len(case['bins'])
    if shape == 'one':
        case['corrs'] = [1. + v / 3 for v in draw(gen.reals(nbins))]
    else:
        case['corrs'] = [[1. + v / 3 for v in r]
            for r in draw(gen.rows(nbins, d))]
    if draw(st.integers(0, 5)) == 0:
        case['k'] = None
    return case


@facet('C30', 'corrfun', cases(), quick=1200,
    rule='scenes as in C25, correlations in 1-6 bins, the same for all '
    'components or one for each; also on a grid, where tracers are exactly at '
    'the start of a bin; recorded scene and direct call; non-trivial '
    'with two bins, if two points have a value that does not depend on tie '
    'breaking')
def corrfun(case, ctx):
    from flowtracks.interpolation import interpolant
    fname = ctx.path('corrs.npz')
    corrs, bins = np.array(case['corrs']), np.array(case['bins'])
    np.savez(fname, corrs=corrs, bins=bins)
    T, P, D = npos(case['tracers']), npos(case['points']), data_of(case)
    k, radius, comp = case['k'], case['radius'], comp_array(case)
    with ctx.sut('interpolating'):
        interp = interpolant('corrfun', k, radius, fname)
        interp.set_scene(T, P, D, comp)
        got = np.asarray(interp.interpolate())
        called = np.asarray(interpolant('corrfun', k, radius, fname)(T, P, D,
            comp))
        again = np.asarray(interp.interpolate())
    shape = (len(P), D.shape[1])
    equal(got.shape, shape, 'shape')
    equal(called.shape, shape, 'shape of result of call')
    same(again, got, 'interpolate() after call', 1e-12)
    known = 0
    for i in range(len(P)):
        el = eligible(case, i, radius)
        # On a grid, distances at the start of a bin are exact.
        if len(el.idx) == 0 or (not case['grid'] and near_bin(el.dists,
                case['bins'])):
            continue
        for name, res, num in [('interpolate()', got, k or 4),
                ('call', called, (k or 4) if radius is None
                else len(el.idx))]:
            if el.ambiguous(num):
                continue
            known += 1
            if any(v in case['bins'] for v in el.dists):
                ctx.note('at a start of a bin')
            same(res[i], ref_corrfun(D, *el.nearest(num), corrs=corrs,
                bins=bins), '%s at point %d' % (name, i), 1e-9, 1e-12)
    ctx.nontrivial(known > 2 and len(bins) > 1)

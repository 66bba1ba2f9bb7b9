"""C26: inverse-distance interpolation."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact
from harness import fields, gen
from harness.fields import npos, eligible, comp_array, ref_inv

powers = st.sampled_from([None, 1, 2, 0.5, 3, 1.5])


@st.composite
def cases(draw, **kw):
    case = draw(fields.fields(dims=(3, 3, 3, 1, 2, 4, 9), **kw))
    case['radius'] = draw(fields.radii(case))
    case['p'] = draw(powers)
    # k = None is the documented default, 4.
    if draw(st.integers(0, 5)) == 0:
        case['k'] = None
    return case


def data_of(case):
    return np.array(case['data'], dtype=float)


def expected(case, i, k=None, drop=()):
    """Value at point i, None if there is no telling."""
    el = eligible(case, i, case['radius'])
    k = case['k'] or 4
    idx, dists = el.nearest(k)
    if el.ambiguous(k):
        return None
    keep = [j for j in range(len(idx)) if idx[j] not in drop]
    if len(keep) == 0:
        return None
    return ref_inv(case['tracers'], data_of(case), [idx[j] for j in keep],
        [dists[j] for j in keep], case['p'] or 1)


def cmp_values(got, case, what, drops=None):
    got = np.asarray(got)
    shape = (len(case['points']), len(case['data'][0]))
    equal(got.shape, shape, what + ': shape')
    known = 0
    for i in range(shape[0]):
        want = expected(case, i, drop=() if drops is None else drops[i])
        if want is not None:
            same(got[i], want, '%s at point %d' % (what, i), atol=1e-12)
            known += 1
    return known


@facet('C26', 'values', cases(), quick=1500,
    rule='scenes as in C25, with data of 1-4 components, several powers, and '
    'default arguments; non-trivial if two points have a value that does not '
    'depend on tie breaking')
def values(case, ctx):
    from flowtracks.interpolation import interpolant
    args = npos(case['tracers']), npos(case['points']), data_of(case)
    comp = comp_array(case)
    with ctx.sut('interpolating'):
        interp = interpolant('inv', case['k'], case['radius'], case['p'])
        interp.set_scene(*args + (comp,))
        got = interp.interpolate()
        again = interp.interpolate()
        called = interpolant('inv', case['k'], case['radius'], case['p'])(
            *args + (comp,))
    known = cmp_values(got, case, 'interpolate()')
    ctx.nontrivial(known > 1)
    same(again, got, 'interpolate() again', 1e-12)
    cmp_values(called, case, 'call')
    # Data of one component may be a vector:
    if len(case['data'][0]) == 1 and len(case['data']) > 1:
        ctx.note('vector')
        with ctx.sut('interpolating a vector'):
            interp.set_data_on_current_field(args[2][:, 0])
            got = interp.interpolate()
        cmp_values(got, case, 'of a vector')
    # So may data of one tracer, if that is clear.
    if len(case['data']) == 1 and len(case['data'][0]) > 1:
        ctx.note('one tracer')
        with ctx.sut('interpolating a vector of one tracer'):
            interp.set_data_on_current_field(args[2][0])
            got = interp.interpolate()
            it = interpolant('inv', case['k'], case['radius'], case['p'])
            it.set_scene(args[0], args[1], args[2][0], comp)
            scene = it.interpolate()
        cmp_values(got, case, 'of a vector of one tracer')
        cmp_values(scene, case, 'of a vector of one tracer')


@st.composite
def subsets(draw):
    case = draw(cases(min_n=2))
    k = case['k'] or 4
    case['mask'] = [[draw(st.integers(0, 2)) for _ in range(k)]
        for _ in case['points']]
    return case


@facet('C26', 'subset', subsets(), quick=900,
    rule='as values, then with some of the recorded neighbours dropped by '
    'interpolate(subset); non-trivial if a point is left with some of its '
    'neighbours')
def subset(case, ctx):
    from flowtracks.interpolation import interpolant
    n = len(case['tracers'])
    with ctx.sut('interpolating'):
        interp = interpolant('inv', case['k'], case['radius'], case['p'])
        interp.set_scene(npos(case['tracers']), npos(case['points']),
            data_of(case), comp_array(case))
        before = interp.interpolate()
        sub = np.array(interp.current_active_neighbs())
    drops = []
    for i, mask in enumerate(case['mask']):
        drop = [j for j in range(len(mask)) if mask[j] == 0]
        drops.append(set(int(v) for v in sub[i, drop] if v < n))
        left = np.sum(sub[i] < n) - len(drops[-1])
        ctx.nontrivial(0 < left and len(drops[-1]) > 0)
        sub[i, drop] = n
    with ctx.sut('interpolating a subset'):
        got = interp.interpolate(sub)
        after = interp.interpolate()
    cmp_values(got, case, 'subset', drops)
    cmp_values(after, case, 'after a subset')
    same(after, before, 'after a subset', 1e-12)


@st.composite
def laws_cases(draw):
    case = draw(cases())
    case['perm'] = draw(st.permutations(range(len(case['tracers']))))
    case['shift'] = draw(gen.reals(3))
    case['factor'] = draw(st.sampled_from([2., 0.25, -1., 1024.]))
    case['second'] = draw(gen.rows(len(case['data']), len(case['data'][0])))
    return case


@facet('C26', 'laws', laws_cases(), quick=900,
    rule='as values: reordering the tracers, moving everything, scaling, '
    'linearity in the data, constant data, values between those of the '
    'tracers; non-trivial with 3 tracers and 2 points')
def laws(case, ctx):
    from flowtracks.interpolation import interpolant
    n = len(case['tracers'])
    ctx.nontrivial(n > 2 and len(case['points']) > 1)
    T, P, D = npos(case['tracers']), npos(case['points']), data_of(case)
    comp = comp_array(case)
    sure = [i for i in range(len(P)) if expected(case, i) is not None]

    def interp(T, P, D, comp, radius=case['radius']):
        it = interpolant('inv', case['k'], radius, case['p'])
        it.set_scene(T, P, D, comp)
        return it.interpolate()[sure]

    with ctx.sut('interpolating'):
        base = interp(T, P, D, comp)
        perm = np.array(case['perm'])
        inv = np.argsort(perm)
        pcomp = None if comp is None else np.where(comp < 0, -1, inv[comp])
        reordered = interp(T[perm], P, D[perm], pcomp)
        f = case['factor']
        scaled = interp(T * f, P * f, D, comp, None if case['radius'] is None
            else case['radius'] * abs(f))
        E = gen.arr(case['second'], D.shape[1])
        second = interp(T, P, E, comp)
        both = interp(T, P, D * f + E, comp)
        const = interp(T, P, np.ones_like(D) * 3.25, comp)
    same(reordered, base, 'tracers in another order', 1e-8, 1e-10)
    same(scaled, base, 'a scaled scene', 1e-8, 1e-10)
    same(both, base * f + second, 'combined data', 1e-8, 1e-9)
    same(const, np.full(base.shape, 3.25), 'constant data')
    check(np.all(base <= D.max(axis=0) + 1e-9)
        and np.all(base >= D.min(axis=0) - 1e-9),
        'values %s are not between those of the data', base)

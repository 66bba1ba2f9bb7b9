"""C25: the neighbours an interpolation uses."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal
from harness import fields
from harness.fields import npos, eligible, comp_array


@st.composite
def cases(draw, **kw):
    case = draw(fields.fields(**kw))
    case['radius'] = draw(fields.radii(case))
    return case


def note(case, ctx):
    n = len(case['tracers'])
    few = coinc = comp = False
    for i in range(len(case['points'])):
        el = eligible(case, i, case['radius'])
        few |= len(el.idx) < case['k']
        coinc |= case['points'][i] in case['tracers']
        comp |= case['comp'] is not None and case['comp'][i] >= 0
    ctx.note(*[c for c, on in [('fewer than k', few), ('at a tracer', coinc),
        ('companion', comp), ('radius', case['radius'] is not None)] if on])
    ctx.nontrivial(n > 1 and (few or coinc or comp))


RULE = ('up to 9 tracers, some in the same place, up to 6 points, some at ' 
    'tracers, with companions or without, by number, with or without a ' 
    'radius; non-trivial if a point has less neighbours than asked, is at a '
    'tracer, or has a companion')


@facet('C25', 'select', cases(), quick=1500, rule=RULE)
def select(case, ctx):
    from flowtracks.interpolation import select_neighbs
    note(case, ctx)
    tracers, points = npos(case['tracers']), npos(case['points'])
    kt, kp = tracers.copy(), points.copy()
    with ctx.sut('select_neighbs()'):
        dists, use = select_neighbs(tracers, points, case['radius'],
            case['k'], comp_array(case))
    shape = (len(points), len(tracers))
    check(np.shape(dists) == shape and np.shape(use) == shape,
        'shapes %s, %s should be %s', np.shape(dists), np.shape(use), shape)
    check(np.array_equal(kt, tracers) and np.array_equal(kp, points),
        'positions were changed')
    for i in range(len(points)):
        el = eligible(case, i, case['radius'])
        chosen = [int(j) for j in np.nonzero(use[i])[0]]
        el.check_choice(chosen, dists[i][chosen],
            None if case['radius'] is not None else case['k'],
            'neighbours of point %d' % i)
        # The distances, of all that are not excluded:
        el = eligible(case, i)
        same(dists[i][el.idx], el.dists, 'distances of point %d' % i)


@facet('C25', 'scene', cases(), quick=1500, rule=RULE)
def scene(case, ctx):
    from flowtracks.interpolation import interpolant
    note(case, ctx)
    n, m, k = len(case['tracers']), len(case['points']), case['k']
    with ctx.sut('setting the scene'):
        interp = interpolant('inv', k, case['radius'])
        interp.set_scene(npos(case['tracers']), npos(case['points']),
            npos(case['tracers']), comp_array(case))
        idx = np.asarray(interp.current_active_neighbs())
        dists = np.asarray(interp.current_dists())
        rel = np.asarray(interp.current_relative_positions())
    equal(idx.shape, (m, k), 'shape of neighbours')
    equal(dists.shape, (m, k), 'shape of distances')
    equal(rel.shape, (m, k, 3), 'shape of relative positions')
    for i in range(m):
        what = 'neighbours of point %d' % i
        have = idx[i] < n
        check(np.all(idx[i] >= 0) and np.all(idx[i][~have] == n)
            and np.all(np.isinf(dists[i][~have])), '%s: %s with distances %s',
            what, idx[i], dists[i])
        eligible(case, i, case['radius']).check_choice(
            [int(j) for j in idx[i][have]], dists[i][have], k, what)
        same(rel[i][have], npos(case['tracers'])[idx[i][have]]
            - npos(case['points'])[i], what + ', relative positions',
            atol=1e-14)


@facet('C25', 'dists', fields.fields(), quick=700,
    rule='as select; non-trivial with 3 tracers and 2 points')
def neighb_dists(case, ctx):
    from flowtracks.interpolation import interpolant
    n, m, k = len(case['tracers']), len(case['points']), case['k']
    ctx.nontrivial(n > 2 and m > 1)
    with ctx.sut('neighb_dists()'):
        got = np.asarray(interpolant('inv', k).neighb_dists(
            npos(case['tracers']), npos(case['points']), comp_array(case)))
    equal(got.shape, (m, min(n, k)), 'shape')
    for i in range(m):
        _, want = eligible(case, i).nearest(k)
        same(np.sort(got[i][got[i] > 0]), want, 'distances of point %d' % i)

"""C28: an interpolant answers for the scene recorded in it last."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, fail
from harness import fields, gen
from harness.fields import npos, Eligible, ref_inv, ref_inv_jacobian


@st.composite
def histories(draw):
    case = draw(fields.fields(min_n=2, max_n=9, max_m=5))
    n, m = len(case['tracers']), len(case['points'])
    tracers, points = case['tracers'], case['points']
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        op = draw(st.sampled_from(['field', 'points', 'data', 'trim',
            'subset', 'interpolate', 'jacobian', 'scene', 'call', 'none',
            'neighbs', 'resize', 'empty']))
        if n == 0 and op in ('field', 'data', 'subset', 'jacobian', 'none',
                'neighbs', 'empty'):
            op = draw(st.sampled_from(['trim', 'points', 'interpolate',
                'resize']))
        if op == 'empty':
            # The same, with points and data staying.
            n, tracers = 0, []
            ops.append(['field', tracers])
        elif op == 'resize':
            # Another number of tracers, with their data and companions; in
            # between there may be other changes.
            n = draw(st.integers(1, 9))
            tracers = draw(gen.rows(n))
            new = [['field', tracers], ['data', draw(gen.rows(n, draw(
                st.sampled_from([3, 3, 2]))))]]
            m = draw(st.integers(1, 5))
            points = draw(gen.rows(m))
            new.append(['points', points, draw(fields.companions(tracers,
                points))])
            order = draw(st.permutations(new))
            if new[2][2] is not None: # companions among these tracers.
                order = sorted(order, key=lambda o: o[0] == 'points')
            for op in order:
                ops.append(op)
                if op[0] == 'points' and draw(st.booleans()):
                    which = [draw(st.booleans()) for _ in range(m)]
                    which[-1] = False
                    ops.append(['trim', which])
                    m -= sum(which)
                    points = [p for p, w in zip(points, which) if not w]
            if m and draw(st.booleans()):
                which = [draw(st.booleans()) for _ in range(m)]
                which[-1] = False
                ops.append(['trim', which])
                m -= sum(which)
                points = [p for p, w in zip(points, which) if not w]
        elif op == 'none':
            # A frame where no tracer was found.
            n, tracers = 0, []
            m = draw(st.integers(1, 5))
            points = draw(gen.rows(m))
            ops.append(['scene', [], points, [], None])
        elif op in ('scene', 'call'):
            new = draw(fields.fields(min_n=2, max_n=9, max_m=5))
            ops.append([op, new['tracers'], new['points'], new['data'],
                new['comp']])
            if op == 'scene':
                tracers, points = new['tracers'], new['points']
                n, m = len(tracers), len(points)
        elif op == 'field':
            # As many tracers, so that data and companions remain valid.
            tracers = draw(gen.rows(n))
            ops.append([op, tracers])
        elif op == 'points':
            m = draw(st.integers(1, 5))
            points = draw(gen.rows(m))
            if n and draw(st.booleans()):
                points[0] = list(tracers[draw(st.integers(0, n - 1))])
            ops.append([op, points, draw(fields.companions(tracers, points))
                if n else None])
        elif op == 'data':
            d = draw(st.sampled_from([3, 3, 1, 2]))
            new = draw(gen.rows(n, d))
            # Also small, or almost the same as before.
            f = draw(st.sampled_from([1., 1., 1e-9, 1e6]))
            ops.append([op, [[v * f for v in row] for row in new]])
        elif op == 'trim':
            which = [draw(st.integers(0, 2)) == 0 for _ in range(m)]
            if m and draw(st.integers(0, 7)):
                which = which[:-1] + [False]
            ops.append([op, which])
            m -= sum(which)
            points = [p for p, w in zip(points, which) if not w]
        elif op == 'subset':
            ops.append([op, draw(st.lists(st.integers(0, 40), min_size=1,
                max_size=4))])
        else:
            ops.append([op])
    return dict(case, ops=ops, p=draw(st.sampled_from([1, 2])),
        radius=draw(st.sampled_from([None, None, 1.2, 0.8])))


@facet('C28', 'idw', histories(), quick=1200,
    rule='sequences of changes to tracers, points, data, removal of points, '
    'and interpolation on scene, of a subset, off scene, and of derivatives; '
    'after each change everything is compared to a reference computed from '
    'the current state; non-trivial if two changes are separated by an '
    'interpolation')
def idw(case, ctx):
    from flowtracks.interpolation import interpolant
    k, p, radius = case['k'], case['p'], case['radius']
    T, P, D = case['tracers'], case['points'], case['data']
    comp = case['comp']
    changes, used = 0, 0

    def carr(comp):
        return None if comp is None else np.array(comp, dtype=int)

    def darr(data):
        return np.array(data, dtype=float) if len(data) else np.zeros((0, 3))

    def compare(got, what, value, T):
        got = np.asarray(got)
        if len(T) == 0:
            same(got, np.zeros((len(P), data.shape[1])), what + ' with no tracers', 0.)
            return
        equal(got.shape[0], len(P), what + ': number of points')
        for i in range(len(P)):
            el = Eligible(T, P[i], None if comp is None else comp[i], radius)
            if el.ambiguous(k) or len(el.idx) == 0:
                continue
            want, atol = value(i, *el.nearest(k))
            same(got[i], want, '%s at point %d' % (what, i), 1e-8,
                atol * np.abs(data).max())

    with ctx.sut('setting the scene'):
        interp = interpolant('inv', k, radius, p)
        interp.set_scene(npos(T), npos(P), darr(D), carr(comp))
    log = []
    for op in case['ops'] + [['interpolate'], ['jacobian'], ['neighbs']]:
        log.append(op[0])
        what = 'after %s: ' % ', '.join(log)
        with ctx.sut(what):
            if op[0] == 'scene':
                T, P, D, comp = op[1:]
                interp.set_scene(npos(T), npos(P), darr(D), carr(comp))
            elif op[0] == 'field':
                T = op[1]
                interp.set_field_positions(npos(T))
            elif op[0] == 'points':
                P, comp = op[1:]
                interp.set_interp_points(npos(P), carr(comp))
            elif op[0] == 'data':
                D = op[1]
                interp.set_data_on_current_field(np.array(D))
            elif op[0] == 'trim':
                which = np.array(op[1], dtype=bool)
                interp.trim_points(which)
                P = [v for v, w in zip(P, which) if not w]
                if comp is not None:
                    comp = [v for v, w in zip(comp, which) if not w]
        data = darr(D)
        if op[0] in ('scene', 'field', 'points', 'data', 'trim'):
            changes += 1
            ctx.nontrivial(used > 0 and changes > 1)
            continue
        if len(P) == 0:
            ctx.note('no points left')
            continue
        if len(T) == 0:
            ctx.note('no tracers')
            if op[0] not in ('interpolate', 'call'):
                continue
        used += changes > 0
        if op[0] == 'interpolate':
            with ctx.sut(what):
                got = interp.interpolate()
            compare(got, what + 'value', lambda i, idx, dists: (ref_inv(T,
                data, idx, dists, p), 1e-11), T)
        elif op[0] == 'jacobian':
            with ctx.sut(what):
                got = interp.eulerian_jacobian()
            compare(got, what + 'Jacobian', lambda i, idx, dists: (
                ref_inv_jacobian(T, P[i], data, idx, dists, p),
                1e-11 * p / dists[0]), T)
        elif op[0] == 'subset':
            with ctx.sut(what):
                sub = np.array(interp.current_active_neighbs())
                for v in op[1]:
                    sub.flat[v % sub.size] = len(T)
                got = interp.interpolate(sub)

            def part(i, idx, dists):
                keep = [j for j in range(len(idx)) if idx[j] in sub[i]]
                if len(keep) == 0:
                    return got[i], 0.
                return ref_inv(T, data, [idx[j] for j in keep],
                    [dists[j] for j in keep], p), 1e-11
            compare(got, what + 'subset', part, T)
        elif op[0] == 'call':
            with ctx.sut(what):
                interp(npos(op[1]), npos(op[2]), np.array(op[3]),
                    carr(op[4]))
        elif op[0] == 'neighbs':
            with ctx.sut(what):
                # Each may be the first to be asked for.
                rel = np.asarray(interp.current_relative_positions())
                idx = np.asarray(interp.current_active_neighbs())
                dists = np.asarray(interp.current_dists())
                pos = np.asarray(interp.field_positions())
                cur = np.asarray(interp.current_data())
            same(pos, npos(T), what + 'field_positions()', 0.)
            same(cur, data, what + 'current_data()', 0.)
            for i in range(len(P)):
                have = idx[i] < len(T)
                Eligible(T, P[i], None if comp is None else comp[i],
                    radius).check_choice([int(j) for j in idx[i][have]],
                    dists[i][have], k, what + 'neighbours of %d' % i)
                same(rel[i][have], npos(T)[idx[i][have]] - npos(P)[i],
                    what + 'relative positions', atol=1e-14)


@st.composite
def other_histories(draw):
    from checks.c29_rbf import spread
    case = draw(spread(min_n=2, max_n=9, max_m=5))
    k, tracers = case['k'], case['tracers']
    n, m = len(tracers), len(case['points'])
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        op = draw(st.sampled_from(['field', 'points', 'data', 'trim',
            'interpolate', 'jacobian', 'scene', 'call', 'neighbs', 'resize']))
        if op == 'resize':
            # Another number of tracers, possibly after a time of none.
            if draw(st.booleans()):
                ops.append(['field', []])
                if draw(st.booleans()):
                    ops.append(['interpolate'])
            new = draw(spread(min_n=2, max_n=9, max_m=5))
            tracers, n = new['tracers'], len(new['tracers'])
            order = [['data', new['data']], ['field', tracers]]
            if draw(st.booleans()):
                order.reverse()
            m = len(new['points'])
            order.append(['points', new['points'], new['comp']])
            ops += order
        elif op in ('scene', 'call'):
            new = draw(spread(min_n=2, max_n=9, max_m=5))
            ops.append([op, new['tracers'], new['points'], new['data'],
                new['comp']])
            if op == 'scene':
                tracers, n, m = new['tracers'], len(new['tracers']), \
                    len(new['points'])
        elif op == 'field':
            tracers = draw(spread(min_n=n, max_n=n, max_m=1))['tracers']
            ops.append([op, tracers])
        elif op == 'points':
            new = draw(spread(max_m=5))
            points, m = new['points'], len(new['points'])
            ops.append([op, points, draw(fields.companions(tracers, points))])
        elif op == 'data':
            ops.append([op, draw(gen.rows(n, draw(st.sampled_from([3, 3,
                1]))))])
        elif op == 'trim':
            which = [draw(st.integers(0, 2)) == 0 for _ in range(m)]
            which = which[:-1] + [False]
            ops.append([op, which])
            m -= sum(which)
        else:
            ops.append([op])
    return dict(case, ops=ops, k=k, method=draw(st.sampled_from(['rbf',
        'rbf', 'corrfun'])), radius=draw(st.sampled_from([None, None, 0.7])))


@facet('C28', 'other-methods', other_histories(), quick=600,
    rule='the same changes to scenes of the radial-basis and correlation '
    'methods; afterwards the interpolation, neighbours and numerical '
    'derivatives are those of a new interpolant given the current state; '
    'non-trivial if two changes are separated by an interpolation')
def other_methods(case, ctx):
    from flowtracks.interpolation import interpolant
    k, radius = case['k'], case['radius']
    T, P, D = case['tracers'], case['points'], case['data']
    comp = case['comp']
    param = 60. if case['method'] == 'rbf' else ctx.path('c.npz')
    np.savez(ctx.path('c.npz'), corrs=np.array([3., 2., 1., 0.5]),
        bins=np.array([0., 0.25, 0.5, 0.8]))

    def carr(comp):
        return None if comp is None else np.array(comp, dtype=int)

    def new():
        ret = interpolant(case['method'], k, radius, param)
        ret.set_scene(npos(T), npos(P), np.array(D), carr(comp))
        return ret

    changes, used, log = 0, 0, []
    with ctx.sut('setting the scene'):
        interp = new()
    ctx.note(case['method'])
    for op in case['ops'] + [['neighbs'], ['interpolate'], ['jacobian']]:
        log.append(op[0])
        what = 'after %s: ' % ', '.join(log)
        with ctx.sut(what):
            if op[0] == 'scene':
                T, P, D, comp = op[1:]
                interp.set_scene(npos(T), npos(P), np.array(D), carr(comp))
            elif op[0] == 'field':
                T = op[1]
                interp.set_field_positions(npos(T))
            elif op[0] == 'points':
                P, comp = op[1:]
                interp.set_interp_points(npos(P), carr(comp))
            elif op[0] == 'data':
                D = op[1]
                interp.set_data_on_current_field(np.array(D))
            elif op[0] == 'trim':
                which = np.array(op[1], dtype=bool)
                interp.trim_points(which)
                P = [v for v, w in zip(P, which) if not w]
                if comp is not None:
                    comp = [v for v, w in zip(comp, which) if not w]
            elif op[0] == 'call':
                interp(npos(op[1]), npos(op[2]), np.array(op[3]),
                    carr(op[4]))
        if op[0] in ('scene', 'field', 'points', 'data', 'trim'):
            changes += 1
            ctx.nontrivial(used > 0 and changes > 1)
            continue
        used += changes > 0
        if len(T) == 0:
            ctx.note('no tracers')
            if op[0] == 'interpolate':
                with ctx.sut(what):
                    got = interp.interpolate()
                same(got, np.zeros((len(P), np.array(D).shape[1])), what +
                    'with no tracers', 0.)
            continue
        eps = 1e-4
        sure = []
        for i in range(len(P)):
            els = [Eligible(T, P[i] + e, None if comp is None else comp[i],
                radius) for e in np.vstack((np.zeros((1, 3)),
                eps * np.eye(3)))]
            if not any(el.ambiguous(k) or len(el.idx) == 0 or
                    fields.near_bin(el.dists, [0.25, 0.5, 0.8])
                    for el in els):
                sure.append(i)
        with ctx.sut(what):
            fresh = new()
            if op[0] == 'interpolate':
                got, want = interp.interpolate(), fresh.interpolate()
            elif op[0] == 'jacobian' and np.array(D).shape[1] == 3:
                got, want = interp.eulerian_jacobian(eps=eps), \
                    fresh.eulerian_jacobian(eps=eps)
            elif op[0] == 'neighbs':
                rel = [np.asarray(i.current_relative_positions())
                    for i in (interp, fresh)]
                got, want = np.sort(interp.current_dists(), axis=1), \
                    np.sort(fresh.current_dists(), axis=1)
                equal(rel[0].shape, rel[1].shape, what + 'shape of relative '
                    'positions')
            else:
                continue
        equal(np.shape(got), np.shape(want), what + 'shape')
        same(np.asarray(got)[sure], np.asarray(want)[sure], what + op[0],
            1e-9, 1e-9)

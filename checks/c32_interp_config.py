"""C32: an interpolant is recreated from the configuration it saves."""
from configparser import ConfigParser
import os
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal
from harness import fields, gen
from harness.fields import npos, comp_array, Eligible
from checks.c26_idw import data_of
from checks.c29_rbf import spread


@st.composite
def cases(draw):
    case = draw(spread())
    case['method'] = draw(st.sampled_from(['inv', 'rbf', 'corrfun']))
    case['args'] = dict()
    if draw(st.booleans()):
        case['args']['num_neighbs'] = case['k']
    if draw(st.booleans()):
        case['args']['radius'] = draw(st.one_of(st.sampled_from([0.4, 1e-3,
            1.]), st.floats(0.3, 2.)))
    if case['method'] != 'corrfun' and draw(st.booleans()):
        case['args']['param'] = draw(st.one_of(st.sampled_from([1, 2, 0.5]),
            st.floats(0.5, 3.))) * (50 if case['method'] == 'rbf' else 1)
    case['corrname'] = draw(st.sampled_from(['corrs.npz', 'co rrs.npz',
        'corrs_50%.npz', 'a=b.npz', '%(x)s.npz']))
    case['old'] = draw(st.sampled_from([None, 'other', 'full']))
    return case


@facet('C32', 'roundtrip', cases(), quick=1500,
    rule='any method, with any of the arguments, saved in a new '
    'configuration, one with other sections, or one that describes another '
    'interpolant; the recreated one interpolates the same; non-trivial with '
    'two arguments')
def roundtrip(case, ctx):
    from flowtracks.interpolation import interpolant, read_interpolant
    args = dict(case['args'])
    ctx.note(case['method'], 'old: %s' % case['old'])
    ctx.nontrivial(len(args) > 1)
    if case['method'] == 'corrfun':
        args['param'] = ctx.path(case['corrname'])
        np.savez(args['param'], corrs=np.array([3., 2., 1.]),
            bins=np.array([0., 0.25, 0.5]))
    cfg = ConfigParser()
    if case['old'] is not None:
        cfg.add_section('Scene')
        cfg.set('Scene', 'param', 'x')
    if case['old'] == 'full':
        cfg.add_section('Interpolant')
        for k, v in [('method', 'rbf'), ('num_neighbs', '9'),
                ('radius', '0.77'), ('param', '123')]:
            cfg.set('Interpolant', k, v)
    fname = ctx.path('interp.cfg')
    with ctx.sut('round trip'):
        first = interpolant(case['method'], **args)
        first.save_config(cfg)
        with open(fname, 'w') as f:
            cfg.write(f)
        second = read_interpolant(fname)
    equal(second.num_neighbs(), first.num_neighbs(), 'number of neighbours')
    equal(second.radius(), first.radius(), 'radius')
    equal(second.radius(), args.get('radius'), 'radius')
    if 'num_neighbs' in args:
        equal(second.num_neighbs(), args['num_neighbs'], 'neighbours')
    if case['old'] is not None:
        check(cfg.get('Scene', 'param') == 'x', 'other section changed')
    # It is the same method and parameter if it interpolates the same.
    res = []
    for interp in (first, second):
        with ctx.sut('interpolating'):
            interp.set_scene(npos(case['tracers']), npos(case['points']),
                data_of(case), comp_array(case))
            res.append(np.asarray(interp.interpolate()))
    same(res[1], res[0], 'interpolation', 1e-12, 1e-12)
    equal(type(second), type(first), 'class')


@facet('C32', 'partial', st.fixed_dictionaries(dict(scene=spread(),
        method=st.sampled_from(['inv', 'rbf']),
        keys=st.lists(st.sampled_from(['num_neighbs', 'radius', 'param']),
            unique=True))), quick=500,
    rule='configuration files with some of the optional values; what is left '
    'out has the default value; non-trivial with a value and without one')
def partial(case, ctx):
    from flowtracks.interpolation import interpolant, read_interpolant
    vals = dict(num_neighbs=3, radius=0.8, param=2.5)
    keys = case['keys']
    ctx.nontrivial(0 < len(keys) < 3)
    with open(ctx.path('i.cfg'), 'w') as f:
        f.write('[Interpolant]\nmethod: %s\n' % case['method'])
        for k in keys:
            f.write('%s: %s\n' % (k, vals[k]))
    args = dict((k, vals[k]) for k in keys)
    case = case['scene']
    res = []
    with ctx.sut('reading'):
        for it in [read_interpolant(ctx.path('i.cfg')),
                interpolant(*[], **dict(args, method=read_method(ctx)))]:
            it.set_scene(npos(case['tracers']), npos(case['points']),
                data_of(case), comp_array(case))
            res.append((it.num_neighbs(), it.radius(), it.interpolate()))
    equal(res[0][:2], res[1][:2], 'neighbours and radius')
    equal(res[0][1], args.get('radius'), 'radius')
    same(res[0][2], res[1][2], 'interpolation', 1e-12, 1e-12)


def read_method(ctx):
    cfg = ConfigParser()
    cfg.read(ctx.path('i.cfg'))
    return cfg.get('Interpolant', 'method')


@facet('C32', 'refused', st.tuples(st.one_of(st.sampled_from(['INV', 'idw',
        '', 'inverse', 'rbfs', 'rb', 'corr', 'corrfun', ' inv']), st.text(
        'abcinvrfo', max_size=7)), st.booleans(), st.integers(1, 4)),
    quick=60,
    rule='names of methods there are not, and the correlation method without '
    'a file, given directly or in a configuration; non-trivial always')
def refused(case, ctx):
    from flowtracks.interpolation import interpolant, read_interpolant, \
        select_neighbs
    method, direct, n = case
    if method in ('inv', 'rbf', 'subclass'):
        return
    ctx.nontrivial()
    ctx.touched = True
    try:
        if direct:
            it = interpolant(method, n)
        else:
            with open(ctx.path('i.cfg'), 'w') as f:
                f.write('[Interpolant]\nmethod: %s\n' % method)
            if method == ' inv': # not part of the name in a file.
                return
            it = read_interpolant(ctx.path('i.cfg'))
    except (NotImplementedError, ValueError):
        pass
    else:
        check(False, 'interpolant of method %r is %s', method, it)
    try:
        got = select_neighbs(np.eye(3), np.eye(3) * 2)
    except ValueError:
        pass
    else:
        check(False, 'neighbours of neither radius nor number: %s', got)

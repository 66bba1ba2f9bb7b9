"""C20: sets of particles keep the properties given to them."""
import copy
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, exact, check, same
from harness import gen

NAMES = ['accel', 'companion', 'temp', 'state', 'w', 'x1', 'forces']


@st.composite
def selectors(draw, n):
    kind = draw(st.sampled_from(['int', 'slice', 'mask', 'list', 'neg']))
    if kind in ('int', 'neg'):
        i = draw(st.integers(0, n - 1))
        return ['int', i - n if kind == 'neg' else i]
    if kind == 'slice':
        lim = st.one_of(st.none(), st.integers(-n, n))
        return ['slice', draw(lim), draw(lim),
            draw(st.sampled_from([None, 1, 2, -1]))]
    if kind == 'mask':
        return ['mask', draw(st.lists(st.booleans(), min_size=n, max_size=n))]
    return ['list', draw(st.lists(st.integers(0, n - 1), max_size=4,
        unique=True))]


def sel_of(s):
    if s[0] == 'int':
        return s[1]
    if s[0] == 'slice':
        return slice(*s[1:])
    if s[0] == 'mask':
        return np.array(s[1], dtype=bool)
    return np.array(s[1], dtype=int)


@st.composite
def set_histories(draw):
    objs = []
    for i in range(2):
        n = draw(st.integers(1, 5))
        props = draw(gen.extra_props(2))
        objs.append(dict(kind=draw(st.sampled_from(['traj', 'snap', 'set'])),
            n=n, props=props, t0=draw(gen.first_frames),
            vals=dict((nm, draw(gen.prop_values(k, n)))
                for nm, k in [['pos', 'v3'], ['velocity', 'v3']] + props)))
    ops = []
    for _ in range(draw(st.integers(1, 9))):
        which = draw(st.integers(0, 1))
        n = objs[which]['n']
        op = draw(st.sampled_from(['create', 'set', 'set_some', 'get',
            'get_some', 'set_some']))
        name = draw(st.sampled_from(NAMES))
        kind = draw(st.sampled_from(['f', 'i', 'v3', 'v2']))
        ops.append([which, op, draw(st.integers(0, 30)), name, kind,
            draw(gen.prop_values(kind, n)), draw(selectors(n)),
            draw(gen.reals(6))])
    return dict(objs=objs, ops=ops)


def build(o):
    from flowtracks import trajectory as tr
    vals = dict((nm, gen.prop_array(k, o['vals'][nm]))
        for nm, k in [['pos', 'v3'], ['velocity', 'v3']] + o['props'])
    n = o['n']
    model = dict((k, v.copy()) for k, v in vals.items())
    if o['kind'] == 'traj':
        time = np.arange(o['t0'], o['t0'] + n)
        model['time'] = time.copy()
        return tr.Trajectory(time=time, trajid=7, **vals), model
    if o['kind'] == 'snap':
        ids = np.arange(n) * 3 + 1
        model['trajid'] = ids.copy()
        return tr.ParticleSnapshot(time=o['t0'], trajid=ids, **vals), model
    return tr.ParticleSet(**vals), model


def same_state(obj, model, o, what):
    with_dict = obj.as_dict()
    equal(set(with_dict), set(model), what + ': as_dict')
    schema, ext = obj.schema(), obj.ext_schema()
    equal(set(schema), set(model), what + ': schema')
    equal(set(ext), set(model), what + ': ext_schema')
    equal(len(obj), o['n'], what + ': length')
    for k, v in model.items():
        check(obj.has_property(k), '%s: has no %s', what, k)
        exact(with_dict[k], v, '%s: %s in as_dict' % (what, k))
        exact(getattr(obj, k)(), v, '%s: %s' % (what, k))
        equal(tuple(schema[k]), v.shape[1:], '%s: schema of %s' % (what, k))
        equal(tuple(ext[k]), (v.dtype.type, v.shape[-1] if v.ndim > 1 else 1),
            '%s: ext_schema of %s' % (what, k))
    for k in NAMES + ['id', 't', 'check_attr']:
        equal(bool(obj.has_property(k)), k in model,
            '%s: has_property(%s)' % (what, k))
    if o['kind'] == 'traj':
        equal(obj.trajid(), 7, what + ': trajid')
    if o['kind'] == 'snap':
        equal(obj.time(), o['t0'], what + ': time')


@facet('C20', 'history', set_histories(), quick=1200,
    rule='sequences of creating properties, setting them whole or in part '
    'and getting them, on two sets in turns; non-trivial if both are changed '
    'or a property is created and then changed')
def history(case, ctx):
    with ctx.sut('construction'):
        pairs = [build(o) for o in case['objs']]
    changed, created = set(), set()
    for which, op, pick, name, kind, val, sel, flat in case['ops']:
        obj, model = pairs[which]
        o = case['objs'][which]
        names = sorted(model)
        what = '%s of %s' % (op, o['kind'])
        if op == 'create':
            arr = gen.prop_array(kind, val)
            with ctx.sut(what):
                obj.create_property(name, arr.copy())
            model[name] = arr
            created.add((which, name))
        else:
            name = names[pick % len(names)]
            if o['kind'] == 'snap' and name == 'trajid' and op != 'get':
                name = 'pos'
            old = model[name]
            s = sel_of(sel)
            what += ' ' + name
            if op == 'set':
                new = old[::-1] + 1
                with ctx.sut(what):
                    getattr(obj, 'set_' + name)(new.copy())
                model[name] = new
            elif op == 'set_some':
                part = old[s]
                new = np.resize(np.array(flat) * 10, part.shape) \
                    .astype(old.dtype)
                with ctx.sut(what):
                    getattr(obj, 'set_' + name)(new.copy(), s)
                old[s] = new
            elif op == 'get':
                with ctx.sut(what):
                    got = getattr(obj, name)()
                exact(got, old, what)
            else:
                with ctx.sut(what):
                    got = getattr(obj, name)(s)
                exact(got, old[s], what + ' %s' % sel)
            if op.startswith('set'):
                changed.add(which)
                if (which, name) in created:
                    ctx.nontrivial()
        ctx.note(op, o['kind'])
        for (ob, mo), oo in zip(pairs, case['objs']):
            with ctx.sut('state'):
                same_state(ob, mo, oo, 'after ' + what)
    ctx.nontrivial(len(changed) == 2)


@facet('C20', 'table', st.integers(1, 6).flatmap(lambda n: st.tuples(
        st.just(n), gen.rows(n), gen.rows(n), gen.first_frames, gen.traj_ids,
        selectors(n), st.booleans())), quick=1000,
    rule='trajectories indexed by numbers, slices, masks and lists; '
    'non-trivial if more than one point and not all are selected')
def table(case, ctx):
    from flowtracks.trajectory import Trajectory
    n, pos, vel, t0, tid, sel, ftime = case
    pos, vel = gen.arr(pos, 3), gen.arr(vel, 3)
    t = np.arange(t0, t0 + n)
    if ftime: # in any unit.
        t = t * 0.75 + 0.1
    s = sel_of(sel)
    with ctx.sut('indexing by %s' % sel):
        got = Trajectory(pos.copy(), vel.copy(), t.copy(), tid)[s]
    full = np.column_stack((pos, vel, t, np.full(n, float(tid))))
    ctx.note(sel[0])
    ctx.nontrivial(np.ndim(full[s]) == 1 and n > 1 or 1 < len(full[s]) < n)
    exact(got, full[s], 'table by %s' % sel)

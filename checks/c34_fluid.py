"""C34: fluid velocity around particles, excluding companions."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact
from harness import duals, gen


@st.composite
def cases(draw):
    return dict(draw(duals.duals()), k=draw(st.integers(1, 5)),
        p=draw(st.sampled_from([1, 2])), direct=draw(st.booleans()))


@facet('C34', 'fluid', cases(), quick=350,
    rule='dual scenes, where particles may have companions among tracers (or '
    'that are not in the frame, or do not exist), or be at the position of '
    'tracers; through analysis() or by frame; non-trivial if a companion '
    'would be used otherwise')
def fluid(case, ctx):
    import tables
    from flowtracks.scene import read_dual_scene
    from flowtracks.analysis import analysis, FluidVelocitiesAnalyser
    from flowtracks.interpolation import interpolant
    conf = duals.write(case, ctx)
    k, p = case['k'], case['p']
    segs = duals.segments(case, case['rng'])
    names = ['trajid', 'time', 'fluid_vel', 'rel_vel']
    with ctx.sut('analysis'):
        scene = read_dual_scene(conf)
        anl = FluidVelocitiesAnalyser(interpolant('inv', k, param=p))
        descr = [tuple(d) for d in anl.descr()]
        if case['direct']:
            rows = []
            for fr, nxt in scene.iter_segments():
                fv, rv = anl.analyse(fr, nxt)
                ids = fr.particles.trajid()
                if len(ids) == 0:
                    continue
                equal((np.shape(fv), np.shape(rv)), ((len(ids), 3),) * 2,
                    'shapes of results')
                rows.extend(zip(ids, [fr.particles.time()] * len(ids), fv,
                    rv))
        else:
            analysis(scene, ctx.path('a.h5'), conf, [anl])
            with tables.open_file(ctx.path('a.h5')) as f:
                data = f.get_node('/analysis').read()
            rows = list(zip(*[data[n] for n in names]))
        del scene
    equal(descr, [('fluid_vel', float, 3), ('rel_vel', float, 3)], 'columns')
    got = dict(((int(r[0]), int(r[1])), (r[2], r[3])) for r in rows)
    equal(len(got), len(rows), 'repeated rows')
    equal(sorted(got), sorted((i, s[0]) for s in segs for i in s[1]), 'rows')
    for fr, pa, ta, _, _ in segs:
        if len(ta) == 0 and len(pa) > 0:
            ctx.note('no tracers')
        for i, v in pa.items():
            want = duals.fluid_velocity(v, ta, k, p)
            if want is None:
                continue
            free = duals.fluid_velocity(dict(v, companion=-1), ta, k, p)
            if v.get('companion') in ta and free is not None and \
                    not np.allclose(free, want):
                ctx.nontrivial()
                ctx.note('companion matters')
            what = 'of particle %d at %d' % (i, fr)
            same(got[i, fr][0], want, 'fluid velocity ' + what, 1e-9, 1e-12)
            same(got[i, fr][1], np.array(v['velocity']) - want,
                'relative velocity ' + what, 1e-9, 1e-12)


ids = st.integers(0, 15)


@facet('C34', 'indices', st.tuples(st.lists(ids, unique=True, max_size=9),
        st.lists(st.integers(-2, 15), max_size=9), st.sampled_from(['i8',
        'i8', 'i4', 'i1', 'u1', 'u8', 'f8']), st.sampled_from([0, 0, 300])),
    quick=1200,
    rule='up to 9 ids and 9 companions, possibly after 300 others, companions '
    'of several types; non-trivial if some are found and some not')
def indices(case, ctx):
    from flowtracks.analysis import companion_indices
    trids, comps, dtype, before = case
    ctx.note(dtype)
    if dtype[0] == 'u':
        comps = [abs(c) for c in comps]
    # Many other tracers.
    trids = [1000 + i for i in range(before)] + trids
    found = [c in trids for c in comps]
    ctx.nontrivial(any(found) and not all(found))
    with ctx.sut('companion_indices'):
        got = companion_indices(np.array(trids, dtype=int),
            np.array(comps, dtype=dtype))
    equal(np.shape(got), (len(comps),), 'shape')
    for c, g in zip(comps, got):
        if c in trids:
            equal(int(g), trids.index(c), 'index of %d' % c)
        else:
            check(g < 0, 'index of %d, which is not there, is %d', c, g)

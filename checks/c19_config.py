"""C19: scenes and particles described by configuration files."""
import configparser
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, same, check
from harness import gen, scenes

names = st.sampled_from(['a.h5', 'run 1.h5', '50%.h5', 'a=b.h5', 'x#1.h5',
    '%d.h5', 'dots.v1.h5'])
positive = st.one_of(st.floats(1e-9, 1e6), st.sampled_from([1e-3, 0.0005,
    1450., 998.2, 1.]))


@st.composite
def configs(draw):
    base = draw(gen.first_frames)
    kw = dict(max_n=3, max_len=6, span=3, first=st.just(base), max_extra=1)
    lo = draw(st.integers(-1, 4))
    return dict(tracers=draw(gen.traj_sets(**kw)),
        parts=draw(gen.traj_sets(**kw)), base=base, first=base + lo,
        last=base + draw(st.integers(lo, 9)), diam=draw(positive),
        density=draw(positive), frate=draw(positive),
        tname=draw(names), pname=draw(names), style=draw(st.booleans()))


@facet('C19', 'dual', configs(), quick=350,
    rule='configuration of a dual scene with names of special characters, '
    'and an inclusive frame range; non-trivial if frames in range have '
    'particles and others do not belong to it')
def dual(case, ctx):
    from flowtracks.scene import read_dual_scene
    paths = dict(tracers=ctx.path('t_' + case['tname']),
        parts=ctx.path('p_' + case['pname']))
    times = {}
    for w in paths:
        scenes.write_scene(paths[w], case[w])
        times[w] = scenes.by_time(gen.model_rows(case[w]))
    sep = ': ' if case['style'] else ' = '
    lines = ['[Particle]', 'diameter' + sep + repr(case['diam']),
        'density' + sep + repr(case['density']), '[Scene]',
        'frame rate' + sep + repr(case['frate']),
        'tracers file' + sep + paths['tracers'].replace('%', '%%'),
        'particles file' + sep + paths['parts'].replace('%', '%%'),
        'first frame' + sep + str(case['first']),
        'last frame' + sep + str(case['last'])]
    with open(ctx.path('scene.cfg'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    with ctx.sut('reading'):
        got = read_dual_scene(ctx.path('scene.cfg'))
        frames = list(got.iter_frames())
    equal((got.frate, got.part.diam, got.part.density), (case['frate'],
        case['diam'], case['density']), 'frame rate, diameter, density')
    equal(got.get_particles_path(), paths['parts'], 'particles file')
    equal(tuple(got.get_range()), (case['first'], case['last'] + 1), 'range')
    equal([f.particles.time() for f in frames],
        list(range(case['first'], case['last'] + 1)), 'frames')
    for f in frames:
        t = f.particles.time()
        scenes.cmp_snapshot(f.tracers, t, times['tracers'].get(t, {}),
            gen.all_kinds(case['tracers']), 'tracers')
        scenes.cmp_snapshot(f.particles, t, times['parts'].get(t, {}),
            gen.all_kinds(case['parts']), 'particles')
    ctx.nontrivial(any(case['first'] <= t <= case['last']
        for t in times['parts']) and not all(case['first'] <= t
        <= case['last'] for t in times['parts']))
    del got


@facet('C19', 'particle', st.tuples(st.floats(1e-9, 1e3),
        st.floats(1e-3, 1e5)), quick=400,
    rule='spheres of any diameter and density; non-trivial all')
def particle(case, ctx):
    from flowtracks.particle import Particle
    diam, density = case
    ctx.nontrivial()
    with ctx.sut('Particle'):
        p = Particle(diam, density)
        vol, mass = p.volume(), p.mass()
    same(vol, 4. / 3. * np.pi * (diam / 2.)**3, 'volume')
    same(mass, 4. / 3. * np.pi * (diam / 2.)**3 * density, 'mass')

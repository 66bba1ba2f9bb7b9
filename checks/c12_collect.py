"""C12: particles of one frame collected from trajectories."""
import configparser
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, same, check
from harness import gen, oldfmt, scenes
from checks.c10_acc import check_collected


@st.composite
def collects(draw):
    tset = draw(gen.traj_sets(max_n=8, max_len=6, span=5,
        props=[['accel', 'v3']], gaps=True))
    if draw(st.booleans()):
        tset = draw(gen.shared_positions(tset))
    return dict(tset=tset, frame=draw(gen.frames_of(tset)),
        seg=draw(st.booleans()), mat=draw(st.booleans()),
        float_time=draw(st.booleans()))


@facet('C12', 'collect', collects(), quick=1500,
    rule='particles of one frame, or of a path segment, out of a list of '
    'trajectories or a mat file, where some particles may share a position; '
    'non-trivial if there are two of them or more, and a trajectory without')
def collect(case, ctx):
    from flowtracks import io
    tset, frame, seg = case['tset'], case['frame'], case['seg']
    f = 1000. if case['mat'] else 1.
    cands = []
    for tr in tset['trajs']:
        k = gen.index_at(tr, frame)
        if k is not None and (not seg or gen.index_at(tr, frame + 1)):
            cands.append([[v / f for v in tr['pos'][j] + tr['velocity'][j]]
                + [frame + j - k, tr['id']]
                for j in range(k, k + (2 if seg else 1))])
    poses = [tuple(c[0][:3]) for c in cands]
    ctx.note(*[c for c, v in [('shared position',
        len(set(poses)) < len(poses)), ('none', not cands),
        ('segments', seg), ('mat', case['mat'])] if v])
    ctx.nontrivial(1 < len(cands) < len(tset['trajs']))
    args = (True,) if seg else ()
    if case['mat']:
        oldfmt.write_mat(ctx.path('a.mat'), tset)
        with ctx.sut('collecting'):
            got = io.collect_particles_mat(ctx.path('a.mat'), frame, *args)
    else:
        trajs = gen.make_trajs(tset, case['float_time'])
        with ctx.sut('collecting'):
            got = io.collect_particles_generic(trajs, frame, *args)
    check_collected(got, cands, seg, 8)


@st.composite
def configs(draw):
    tracers = draw(gen.traj_sets(max_n=6, min_len=2, max_len=7, span=3,
        unique_pos=True, first=st.just(50)))
    parts = draw(gen.traj_sets(max_n=6, min_len=2, max_len=7, span=3,
        unique_pos=True, first=st.just(50)))
    return dict(tracers=tracers, parts=parts, frame=draw(st.integers(50, 55)),
        frate=draw(gen.frame_rates), diam=draw(st.sampled_from([1e-3, 5e-4])),
        density=draw(st.sampled_from([1450., 998.5])))


@facet('C12', 'frame-data', configs(), quick=250,
    rule='a configured frame of two HDF files of trajectories, and the one '
    'after it; non-trivial if both have particles')
def frame_data(case, ctx):
    from flowtracks import io
    frame = case['frame']
    names, want = {}, {}
    for which in ('tracers', 'parts'):
        tset = case[which]
        # Trajectories of two frames or more in the frames that are read.
        if not any(tr['t0'] <= frame + 1 and frame + 1 <= tr['t0']
                + len(tr['pos']) - 1 for tr in tset['trajs']):
            tr = tset['trajs'][0]
            tr['t0'] = frame
        names[which] = ctx.path(which + '.h5')
        io.save_particles_table(names[which], gen.make_trajs(tset))
        rows = scenes.by_time(gen.model_rows(tset))
        a, b = rows.get(frame, {}), rows.get(frame + 1, {})
        both = set(a) & set(b)
        want[which] = [dict((i, x[i]) for i in both) for x in (a, b)]
    cfg = configparser.ConfigParser()
    cfg['Particle'] = dict(diameter=str(case['diam']),
        density=str(case['density']))
    cfg['Scene'] = {'frame': str(frame), 'frame rate': str(case['frate']),
        'tracer_file': names['tracers'], 'part_file': names['parts']}
    with open(ctx.path('scene.cfg'), 'w') as f:
        cfg.write(f)
    ctx.nontrivial(bool(want['tracers'][0]) and bool(want['parts'][0]))
    with ctx.sut('read_frame_data'):
        part, frate, frm, nxt = io.read_frame_data(ctx.path('scene.cfg'))
    equal(frate, case['frate'], 'frame rate')
    equal((part.diam, part.density), (case['diam'], case['density']),
        'particle')
    for k, fr in enumerate((frm, nxt)):
        for which, snap in [('tracers', fr.tracers), ('parts', fr.particles)]:
            if not want[which][k]:
                equal(len(snap), 0, 'number of %s' % which)
            else:
                scenes.cmp_snapshot(snap, frame + k, want[which][k],
                    gen.all_kinds(case[which]), which)

"""C09: trajectories in Matlab files, in mm, are given in m."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, same, check
from harness import gen, oldfmt

mat_ids = st.one_of(st.integers(0, 5000), gen.traj_ids)


def mat_sets(**kw):
    kw.setdefault('scale', 500.)
    kw.setdefault('gaps', True)
    return gen.traj_sets(props=[['accel', 'v3']], ids=mat_ids, **kw)


def check_mat(got, trajs, what):
    equal(sorted(int(t.trajid()) for t in got),
        sorted(tr['id'] for tr, _ in trajs), what + ': ids')
    model = dict((tr['id'], (tr, ix)) for tr, ix in trajs)
    for t in got:
        tr, ix = model[int(t.trajid())]
        same(t.time(), [gen.times_of(tr)[i] for i in ix], what + ' time')
        equal(len(t), len(ix), what + ' length')
        for p in ('pos', 'velocity', 'accel'):
            same(getattr(t, p)(), gen.arr([tr[p][i] for i in ix], 3) / 1000.,
                '%s %s of %s' % (what, p, tr['id']), 1e-12, 1e-15)


@facet('C09', 'mat', st.fixed_dictionaries(dict(tset=mat_sets(max_n=7),
        name=st.sampled_from(['traj', 'data', 'result', 'Directory']),
        directory=st.sampled_from([False, True,
            'first']), front=st.booleans())), quick=900,
    rule='record arrays saved in mat files, with or without the variable '
    'which names a directory, of one or more trajectories of one or more '
    'points; non-trivial with two trajectories, of different lengths')
def mat(case, ctx):
    from flowtracks import io
    tset = case['tset']
    fname = ctx.path('trajects.mat')
    oldfmt.write_mat(fname, tset, case['name'], case['directory'])
    lens = [len(tr['pos']) for tr in tset['trajs']]
    ctx.note(*[c for c, v in [('single point', 1 in lens),
        ('one trajectory', len(lens) == 1)] if v])
    ctx.nontrivial(len(set(lens)) > 1)
    with ctx.sut('reading'):
        if case['front']:
            got = io.trajectories(fname, None, None, 1., traj_min_len=1)
        else:
            got = io.trajectories_mat(fname)
    check_mat(got, [(tr, range(len(tr['pos']))) for tr in tset['trajs']],
        'mat file')

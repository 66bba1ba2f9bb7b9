"""Sequences on generated databases of particles and tracers."""
import os
import numpy as np
from hypothesis import strategies as st
from . import gen, scenes, oldfmt


@st.composite
def databases(draw, min_len_opts=(None, 0, 1, 2, 3), fmts=('hdf', 'npz',
        'mat')):
    base = draw(gen.first_frames)
    out = dict(base=base)
    for which in ('parts', 'tracers'):
        tset = draw(gen.traj_sets(min_n=1, max_n=5, max_len=7, span=5,
            unique_pos=True, first=st.just(base), ids=st.integers(0, 5000),
            max_extra=1))
        fmt = draw(st.sampled_from(list(fmts)))
        if fmt == 'mat':
            for tr in tset['trajs']:
                for name, k in tset['props']:
                    tr.pop(name)
                n = len(tr['pos'])
                tr['accel'] = draw(gen.rows(n))
            tset['props'] = [['accel', 'v3']]
        out[which] = dict(tset=tset, fmt=fmt)
    lo = draw(st.integers(-1, 3))
    hi = draw(st.integers(lo + 1, 13))
    min_len = draw(st.sampled_from(list(min_len_opts)))
    # At least one trajectory of each is long enough, in range.
    for which in ('parts', 'tracers'):
        tr = draw(st.sampled_from(out[which]['tset']['trajs']))
        need = max(min_len or 1, 1)
        hi = max(hi, tr['t0'] - base + need - 1, lo + 1)
        lo = min(lo, tr['t0'] - base)
        n = len(tr['pos'])
        while n < need:
            for name, k in gen.all_kinds(out[which]['tset']):
                last = tr[name][-1]
                tr[name].append(list(last) if isinstance(last, list)
                    else last)
            n += 1
    out.update(lo=base + lo, hi=base + hi, min_len=min_len)
    return out


def to_mm(v):
    """In [mm], such that the way of conversion to [m] makes no difference."""
    mm = v * 1000.
    while mm / 1000. != mm * 0.001:
        mm = float(np.nextafter(mm, np.inf))
    return mm


def write_db(db, path):
    """Returns the name to give for it."""
    from flowtracks import io
    tset, fmt = db['tset'], db['fmt']
    if fmt == 'hdf':
        io.save_particles_table(path + '.h5', gen.make_trajs(tset))
        return path + '.h5'
    if fmt == 'npz':
        io.save_trajectories(path, gen.make_trajs(tset), {})
        return path + '/'
    mm = dict(props=tset['props'], trajs=[dict(tr, **dict((n, [[to_mm(v)
        for v in r] for r in tr[n]]) for n in ('pos', 'velocity', 'accel')))
        for tr in tset['trajs']])
    oldfmt.write_mat(path + '.mat', mm)
    # The values as they come back from mm.
    for tr, m in zip(tset['trajs'], mm['trajs']):
        for n in ('pos', 'velocity', 'accel'):
            tr[n] = [[v / 1000. for v in r] for r in m[n]]
    return path + '.mat'


def selected(db, lo, hi, min_len):
    """The trajectories that a sequence reads: {id: [(time, vals)]}."""
    rows = scenes.in_range(gen.model_rows(db['tset']), lo, hi)
    return dict((i, es) for i, es in scenes.by_id(rows).items()
        if len(es) >= (min_len or 0))


def active(model, t):
    """Values at t and t+1 of those that are there in both."""
    now, nxt = {}, {}
    for i, es in model.items():
        d = dict(es)
        if t in d and t + 1 in d:
            now[i], nxt[i] = d[t], d[t + 1]
    return now, nxt


def smooths(seq, want):
    """
    Whether the sequence smooths its tracers, known by ``want`` as they are
    without: by the way they are asked to smooth themselves, or by difference.
    """
    from flowtracks.trajectory import Trajectory
    asked = []
    orig = Trajectory.smoothed
    def smoothed(self, *args, **kwds):
        asked.append(self.trajid())
        return self
    Trajectory.smoothed = smoothed
    try:
        trs = seq.tracer_trajectories()
    finally:
        Trajectory.smoothed = orig
    if asked:
        return True
    return any(list(tr.pos()[k]) != list(v['pos']) for tr in trs
        for k, (t, v) in enumerate(want[int(tr.trajid())]))

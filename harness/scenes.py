"""
Reference models of scenes: what is stored, row by row, and comparison of the
library's objects with it.
"""
import numpy as np
from .core import check, fail, exact, same, equal, short
from .gen import all_kinds, prop_array, model_rows, KINDS


def by_id(rows):
    """{id: [(time, vals)] sorted by time} of model rows."""
    out = {}
    for tid, t, vals in rows:
        out.setdefault(tid, []).append((t, vals))
    for v in out.values():
        v.sort(key=lambda r: r[0])
    return out


def by_time(rows):
    """{time: {id: vals}}"""
    out = {}
    for tid, t, vals in rows:
        out.setdefault(t, {})[tid] = vals
    return out


def col(kind, vals, name):
    return prop_array(kind, [v[name] for v in vals])


def cmp_traj(tr, trid, entries, kinds, what='trajectory'):
    """A Trajectory object against its model rows, sorted by time."""
    what = '%s %s' % (what, trid)
    equal(int(tr.trajid()), trid, what + ' id')
    exact(tr.time(), [t for t, _ in entries], what + ' time')
    equal(len(tr), len(entries), what + ' length')
    have = set(tr.as_dict().keys())
    equal(have, set([n for n, _ in kinds] + ['time']), what + ' properties')
    for name, kind in kinds:
        exact(getattr(tr, name)(), col(kind, [v for _, v in entries], name),
            '%s %s' % (what, name))


def cmp_snapshot(snap, t, members, kinds, what='frame', order=None):
    """
    A ParticleSnapshot against {id: vals}. order - if not None, the ids in
    the order they should be in, otherwise any order is good.
    """
    what = '%s %s' % (what, t)
    check(np.ndim(snap.time()) == 0 and snap.time() == t,
        '%s: time is %s', what, snap.time())
    ids = np.asarray(snap.trajid())
    check(ids.ndim == 1, '%s: trajid has shape %s', what, ids.shape)
    ids = [int(i) for i in ids]
    equal(sorted(ids), sorted(members), what + ' trajectories')
    equal(len(snap), len(ids), what + ' length')
    if order is not None:
        equal(ids, order, what + ' order of trajectories')
    equal(set(snap.as_dict().keys()), set([n for n, _ in kinds]
        + ['trajid']), what + ' properties')
    for name, kind in kinds:
        exact(getattr(snap, name)(), col(kind, [members[i] for i in ids],
            name), '%s %s' % (what, name))


def unique_match(got, want_by_id, kinds, what):
    """A collection of trajectories against the model, in any order."""
    ids = [int(t.trajid()) for t in got]
    equal(sorted(ids), sorted(want_by_id), what + ': ids')
    for t in got:
        cmp_traj(t, int(t.trajid()), want_by_id[int(t.trajid())], kinds, what)


def in_range(rows, first, last):
    """Rows in the inclusive range."""
    return [r for r in rows if (first is None or r[1] >= first)
        and (last is None or r[1] <= last)]


def write_scene(fname, tset, by_frames=False, float_time=False):
    """
    Save the set as an HDF file, by the library, in either manner. by_frames -
    if 2, frames do not have the particles in the same order.
    """
    from flowtracks import io
    from flowtracks.trajectory import ParticleSnapshot
    from .gen import make_trajs
    if not by_frames:
        io.save_particles_table(fname, make_trajs(tset, float_time))
        return
    kinds = all_kinds(tset)
    snaps = []
    times = by_time(model_rows(tset))
    for t in sorted(times):
        ids = list(times[t])
        if by_frames == 2:
            k = t % len(ids)
            ids = ids[k:] + ids[:k]
            if t % 3 == 0:
                ids.reverse()
        snaps.append(ParticleSnapshot(time=t, trajid=np.array(ids, dtype=int),
            **dict((n, col(k, [times[t][i] for i in ids], n))
            for n, k in kinds)))
    io.save_frames_hdf(fname, snaps)


def cmp_collect(got, keys, rows, kinds, what='collect'):
    """
    Columns collected, together with 'trajid' and 'time' among the keys,
    against the model rows: the same rows in any order, in line with each
    other.
    """
    check(isinstance(got, (list, tuple)) and len(got) == len(keys),
        '%s: %s arrays for %s keys', what, len(got), len(keys))
    kinds = dict(kinds, trajid='i', time='i')
    cols = dict(zip(keys, [np.asarray(g) for g in got]))
    for k in keys:
        want = (len(rows),) + KINDS[kinds[k]]
        check(cols[k].shape == want, '%s: shape of %s is %s, should be %s',
            what, k, cols[k].shape, want)
    model = dict(((r[0], r[1]), r[2]) for r in rows)
    if 'trajid' in cols and 'time' in cols:
        have = [(int(i), int(t)) for i, t in zip(cols['trajid'],
            cols['time'])]
        equal(sorted(have), sorted(model), what + ': rows')
        for k in keys:
            if k in ('trajid', 'time'):
                continue
            exact(cols[k], prop_array(kinds[k], [model[h][k] for h in have]),
                '%s: %s' % (what, k))
    elif rows:
        for k in keys:
            vals = [r[0] if k == 'trajid' else r[1] if k == 'time'
                else r[2][k] for r in rows]
            a = cols[k].reshape(len(rows), -1)
            b = prop_array(kinds[k], vals).reshape(len(rows), -1)
            exact(a[np.lexsort(a.T)], b[np.lexsort(b.T)],
                '%s: %s' % (what, k))

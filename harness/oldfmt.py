"""Writers for the mat and trajAcc formats."""
import os
import numpy as np
import scipy.io
from .gen import times_of


def write_mat(fname, tset, name='traj', directory=False):
    """tset: as made by gen.traj_sets with an 'accel' v3 property, in mm."""
    fields = ['xf', 'yf', 'zf', 'uf', 'vf', 'wf', 'axf', 'ayf', 'azf', 't',
        'trajid']
    rec = np.empty((len(tset['trajs']), 1), dtype=[(f, object)
        for f in fields])
    for i, tr in enumerate(tset['trajs']):
        n = len(tr['pos'])
        for prop, names in [('pos', ('xf', 'yf', 'zf')),
                ('velocity', ('uf', 'vf', 'wf')),
                ('accel', ('axf', 'ayf', 'azf'))]:
            for c, f in enumerate(names):
                rec[i, 0][f] = np.array([r[c] for r in tr[prop]],
                    dtype=float).reshape(n, 1)
        rec[i, 0]['t'] = np.array(times_of(tr),
            dtype=float).reshape(n, 1)
        rec[i, 0]['trajid'] = np.full((n, 1), float(tr['id']))
    out = {name: rec}
    if directory == 'first':
        out = dict(directory='some/path', **out)
    elif directory:
        out['directory'] = 'some/path'
    scipy.io.savemat(fname, out)


def write_acc(dirname, tmpl, tset, frames):
    """
    One trajAcc file for each of ``frames``, with all trajectories starting
    in it, in 34 columns of which 0-8 and the last (age) matter. Returns for
    each trajectory its place among all.
    """
    order = []
    for f in frames:
        lines = []
        for i, tr in enumerate(tset['trajs']):
            if tr['t0'] != f:
                continue
            order.append(i)
            for i, t in enumerate(times_of(tr)):
                row = tr['pos'][i] + tr['velocity'][i] + tr['accel'][i] \
                    + [7.25] * 24 + [t - f]
                lines.append(' '.join(repr(float(v)) for v in row))
        with open(os.path.join(dirname, tmpl % f), 'w') as o:
            o.write(''.join(l + '\n' for l in lines))
    return order

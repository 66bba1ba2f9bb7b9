"""
Linked frames in the ptv_is and xuap formats: generation from a list of
trajectories, and writing.
"""
import os
from hypothesis import strategies as st
from .gen import reals, rows


@st.composite
def linked_frames(draw, max_traj=7, max_frames=9, xuap=False, digits=True,
        first=None):
    """
    Particles linked over consecutive frames: dict(first, nframes, trajs=[
    dict(start, pos (mm), vel, acc)], order=[per frame, trajectory index of
    each row]). Trajectories are lists of positions, starting at frame
    first+start. Frames may be empty. A trajectory which reaches the last
    frame either ends there (open False) or has been cut there by the end of
    the film; in files both look the same, as there's no next frame.
    """
    base = draw(st.sampled_from([0, 1, 7, 96, 997, 9998, 10001,
        999998, 20131001])) \
        if first is None else first
    if draw(st.integers(0, 11)) == 0:
        max_frames *= 3
        max_traj *= 2
    nframes = draw(st.integers(2, max_frames))
    n = draw(st.integers(1, max_traj))
    trajs = []
    for i in range(n):
        start = draw(st.integers(0, nframes - 1))
        length = draw(st.integers(1, nframes - start))
        tr = dict(start=start, pos=draw(rows(length, 3, 100.)))
        if xuap:
            tr['vel'] = draw(rows(length, 3))
            tr['acc'] = draw(rows(length, 3, 5.))
            tr['pos_int'] = draw(rows(length, 3))
        # The link of the last row, in the very last frame: whether the
        # trajectory is known to continue after the film.
        tr['goes_on'] = (start + length == nframes) and draw(st.booleans())
        # Measured data also has links forward that lead nowhere.
        if draw(st.integers(0, 11)) == 0:
            tr['goes_on'] = True
            tr['to'] = draw(st.integers(0, 5))
        trajs.append(tr)
    order = []
    for f in range(nframes):
        here = [i for i in range(n) if trajs[i]['start'] <= f
            < trajs[i]['start'] + len(trajs[i]['pos'])]
        order.append(draw(st.permutations(here)))
    return dict(first=base, nframes=nframes, trajs=trajs,
        order=[list(o) for o in order])


def frame_number(film, f):
    return film['first'] + f * film.get('step', 1)


def frame_rows(film, f, lo=None, hi=None):
    """
    Rows of frame f (0-based): (trajectory, index in it, prev, next), where
    links are 0-based, -1 for no previous and -2 for no next.
    """
    out = []
    for i in film['order'][f]:
        tr = film['trajs'][i]
        k = f - tr['start']
        prev = film['order'][f - 1].index(i) if k > 0 else -1
        if k < len(tr['pos']) - 1:
            nxt = film['order'][f + 1].index(i)
        elif tr['goes_on']:
            nxt = tr.get('to', 0)
        else:
            nxt = -2
        out.append((tr, k, prev, nxt))
    return out


def _num(v):
    return repr(float(v))


def write_ptvis_dir(film, dirname, tmpl='ptv_is.%d', frames=None):
    for f in (range(film['nframes']) if frames is None else frames):
        lines = []
        for tr, k, prev, nxt in frame_rows(film, f):
            lines.append(' '.join([str(prev), str(nxt)]
                + [_num(v) for v in tr['pos'][k]]))
        with open(os.path.join(dirname, tmpl % frame_number(film, f)), 'w') as o:
            o.write('%d\n' % len(lines))
            o.write(''.join(l + '\n' for l in lines))


def write_ptvis_single(film, fname, sep=''):
    """Concatenated, without counts, separated by an empty line."""
    with open(fname, 'w') as o:
        for f in range(film['nframes']):
            for tr, k, prev, nxt in frame_rows(film, f):
                o.write(' '.join([str(prev), str(nxt)]
                    + [_num(v) for v in tr['pos'][k]]) + '\n')
            if f < film['nframes'] - 1:
                o.write(sep + '\n')


def write_xuap_dir(film, dirname, tmpl='xuap.%d', extra_col=False,
        float_links=False):
    for f in range(film['nframes']):
        lines = []
        for tr, k, prev, nxt in frame_rows(film, f):
            links = [prev + 1, nxt + 1]
            if nxt == -2:
                links[1] = -1
            links = [('%.4f' if float_links else '%d') % l for l in links]
            vals = tr['pos'][k] + tr['pos_int'][k] + tr['vel'][k] \
                + tr['acc'][k] + ([1.] if extra_col else [])
            lines.append(' '.join(links + [_num(v) for v in vals]))
        with open(os.path.join(dirname, tmpl % (film['first'] + f)), 'w') as o:
            o.write(''.join(l + '\n' for l in lines))


def expected(film, lo=None, hi=None, min_len=2):
    """
    What reading frames lo..hi (0-based, inclusive) gives: those that end in
    the range, from their first point in it. List of (first frame, list of
    indices into the trajectory, trajectory, film).
    """
    lo = 0 if lo is None else max(lo, 0)
    hi = film['nframes'] - 1 if hi is None else min(hi, film['nframes'] - 1)
    out = []
    for tr in film['trajs']:
        last = tr['start'] + len(tr['pos']) - 1
        if last > hi or last < lo or tr['goes_on']:
            continue
        first = max(tr['start'], lo)
        if last - first + 1 < min_len:
            continue
        out.append((first, list(range(first - tr['start'], len(tr['pos']))),
            tr, film))
    return out


def motion(pos, frate):
    """Forward differences: velocity (last 0), acceleration (last two 0)."""
    import numpy as np
    vel = np.zeros_like(pos)
    vel[:-1] = (pos[1:] - pos[:-1]) * frate
    return vel, accel_of(vel, frate)


def accel_of(vel, frate):
    import numpy as np
    acc = np.zeros_like(vel)
    acc[:-2] = (vel[1:-1] - vel[:-2]) * frate
    return acc


def expected_arrays(exp, frate, xuap=False):
    """The arrays (time, pos, vel, acc) for one item of expected()."""
    import numpy as np
    from .gen import arr
    first, ix, tr, film = exp
    pos = arr([tr['pos'][i] for i in ix], 3)
    t = np.array([frame_number(film, first + i) for i in range(len(ix))])
    if xuap:
        vel = arr([tr['vel'][i] for i in ix], 3)
        return t, pos, vel, accel_of(vel, frate)
    pos = pos / 1000.
    return (t, pos) + motion(pos, frate)


def match_trajects(got, want, with_motion, frate=1.):
    """
    Check that trajectories in ``got`` are exactly those described in
    ``want``, (time, pos, vel, acc) tuples, in whatever order.
    """
    import numpy as np
    from .core import check, fail, same, short
    ids = []
    left = list(want)
    for tr in got:
        t, pos = np.asarray(tr.time()), np.asarray(tr.pos())
        vel, acc = np.asarray(tr.velocity()), np.asarray(tr.accel())
        for part, what in [(pos, 'pos'), (vel, 'velocity'), (acc, 'accel')]:
            check(part.shape == (len(t), 3), '%s has shape %s for %d times',
                what, part.shape, len(t))
        check(len(tr) == len(t), 'length %d, %d times', len(tr), len(t))
        ids.append(tr.trajid())
        tol = 1e-9
        here = [i for i, w in enumerate(left) if len(w[0]) == len(t)
            and np.allclose(w[0], t, rtol=0, atol=1e-9)
            and np.allclose(w[1], pos, rtol=1e-9, atol=1e-12)]
        check(here, 'a trajectory that is not in the data: id %s\n time %s\n'
            ' pos %s\n data has %s', tr.trajid(), short(t), short(pos),
            short([(w[0].tolist(), w[1].tolist()) for w in left]))
        if with_motion:
            vtol = 1e-9 * (1 + abs(frate))
            good = [i for i in here
                if np.allclose(left[i][2], vel, rtol=1e-7, atol=vtol)
                and np.allclose(left[i][3], acc, rtol=1e-7,
                    atol=vtol * (1 + abs(frate)))]
            check(good, 'trajectory %s at times %s, pos %s:\n velocity %s, '
                'should be %s\n acceleration %s, should be %s', tr.trajid(),
                short(t), short(pos), short(vel), short(left[here[0]][2]),
                short(acc), short(left[here[0]][3]))
            here = good
        left.pop(here[0])
    check(not left, 'trajectories missing: %s',
        short([(w[0].tolist(), w[1].tolist()) for w in left]))
    check(len(set(int(i) for i in ids)) == len(ids),
        'trajectory ids repeat: %s', ids)

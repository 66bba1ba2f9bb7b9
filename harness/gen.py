"""
Generators shared by the checks. All produce JSON-able values.
"""
import numpy as np
from hypothesis import strategies as st

_GRID = [0., 1., -1., 0.5, 2., -0.5, -2.]


def _decode(b, scale, special):
    out = []
    for i in range(0, len(b), 2):
        v = (b[i] << 8) | b[i + 1]
        if v == 0:
            out.append(0.)
        elif special and v % 8 == 0:
            out.append(_GRID[(v >> 3) % len(_GRID)] * scale)
        else:
            out.append(round((v - 32768) / 32768. * scale, 7))
    return out


def reals(n, scale=1., special=True):
    """A list of n floats in [-2*scale, 2*scale], some of them repeating."""
    return st.binary(min_size=2 * n, max_size=2 * n).map(
        lambda b: _decode(b, scale, special))


@st.composite
def rows(draw, n, d=3, scale=1., special=True):
    """An (n, d) nested list of floats."""
    flat = draw(reals(n * d, scale, special))
    return [flat[i * d:(i + 1) * d] for i in range(n)]


def ints(n, lo=-100, hi=100):
    span = hi - lo + 1
    return st.binary(min_size=2 * n, max_size=2 * n).map(
        lambda b: [lo + ((b[2*i] << 8) | b[2*i + 1]) % span
            for i in range(n)])


def arr(x, *tail, dtype=float):
    """The array of nested list x, with proper shape even if it is empty."""
    return np.array(x, dtype=dtype).reshape((len(x),) + tail)


FIRST_FRAMES = [0, 1, 8, 97, 998, 10001, 100000]
first_frames = st.sampled_from(FIRST_FRAMES)
traj_ids = st.one_of(st.integers(0, 12), st.integers(0, 12),
    st.integers(0, 100000), st.integers(2**31, 2**33))
frame_rates = st.sampled_from([1., 500., 0.5, 30., 1234.5])

KINDS = {'f': (), 'i': (), 'v3': (3,), 'v2': (2,), 'b4': (4,)}
EXTRA_NAMES = ['accel', 'companion', 'orient', 'temp', 'state', 'w']


def prop_values(kind, n):
    if kind == 'i':
        return ints(n)
    if kind == 'f':
        return reals(n)
    return rows(n, KINDS[kind][0])


def prop_array(kind, val):
    return arr(val, *KINDS[kind], dtype=int if kind == 'i' else float)


@st.composite
def extra_props(draw, max_extra=3, kinds=('f', 'i', 'v3', 'v2')):
    names = draw(st.lists(st.sampled_from(EXTRA_NAMES), max_size=max_extra,
        unique=True))
    return [[n, draw(st.sampled_from(list(kinds)))] for n in names]


@st.composite
def traj_sets(draw, min_n=1, max_n=6, min_len=1, max_len=8, span=10,
        max_extra=2, kinds=('f', 'i', 'v3', 'v2'), unique_pos=False,
        ids=traj_ids, first=first_frames, scale=1., props=None, gaps=False):
    """
    A set of trajectories with the same properties. The result is
    dict(props=[[name, kind], ..], trajs=[dict(id, t0, pos, velocity,
    <extra props>), ..]). Times are contiguous, unless gaps is true: then some
    trajectories miss frames, and have an item 'times'.
    """
    if props is None:
        props = draw(extra_props(max_extra, kinds))
    base = draw(first)
    n = draw(st.integers(min_n, max_n))
    tids = draw(st.lists(ids, min_size=n, max_size=n, unique=True))
    trajs = []
    for i in range(n):
        length = draw(st.integers(min_len, max_len))
        tr = dict(id=tids[i], t0=base + draw(st.integers(0, span)),
            pos=draw(rows(length, 3, scale)),
            velocity=draw(rows(length, 3, scale)))
        if unique_pos:
            # Distinct in each frame: everybody has his own band of x.
            for r in tr['pos']:
                r[0] = round(r[0] * 0.2 + i * scale, 7)
        for name, kind in props:
            tr[name] = draw(prop_values(kind, length))
        if gaps and length > 1 and draw(st.integers(0, 3)) == 0:
            tr['times'] = [tr['t0'] + i + s for i, s in enumerate(
                np.cumsum([0] + draw(st.lists(st.sampled_from([0, 0, 1, 3]),
                    min_size=length - 1, max_size=length - 1))).tolist())]
        trajs.append(tr)
    return dict(props=props, trajs=trajs)


def times_of(tr):
    """The frame number of each point of a trajectory."""
    return tr.get('times') or list(range(tr['t0'], tr['t0']
        + len(tr['pos'])))


def index_at(tr, t):
    """The index of the point of frame t in a trajectory, or None."""
    times = times_of(tr)
    return times.index(t) if t in times else None


def all_kinds(tset):
    return [['pos', 'v3'], ['velocity', 'v3']] + tset['props']


def make_trajs(tset, float_time=False):
    """Trajectory objects out of a set made by traj_sets."""
    from flowtracks.trajectory import Trajectory
    out = []
    for tr in tset['trajs']:
        kwds = dict((n, prop_array(k, tr[n])) for n, k in all_kinds(tset))
        t = np.array(times_of(tr))
        out.append(Trajectory(time=t.astype(float) if float_time else t,
            trajid=tr['id'], **kwds))
    return out


def model_rows(tset):
    """
    The same as a list of (id, time, dict of property values), by trajectory
    and then time.
    """
    out = []
    for tr in tset['trajs']:
        for i, t in enumerate(times_of(tr)):
            out.append((tr['id'], t,
                dict((n, tr[n][i]) for n, _ in all_kinds(tset))))
    return out


@st.composite
def shared_positions(draw, tset, most=3):
    """The same set, with some particles sharing a position, or almost."""
    trajs = tset['trajs']
    for _ in range(draw(st.integers(1, most))):
        i = draw(st.integers(0, len(trajs) - 1))
        j = draw(st.integers(0, len(trajs) - 1))
        a, b = trajs[i], trajs[j]
        both = sorted(set(times_of(a)) & set(times_of(b)))
        if i == j or not both:
            continue
        t = draw(st.sampled_from(both))
        pos = list(a['pos'][index_at(a, t)])
        if draw(st.integers(0, 3)) == 0: # just a bit apart, so not shared.
            c = draw(st.integers(0, 2))
            pos[c] += draw(st.sampled_from([1e-6, 1e-9, -1e-12]))
        b['pos'][index_at(b, t)] = pos
    return tset


@st.composite
def frames_of(draw, tset, before=1, after=2):
    """A frame number, usually one that the set has."""
    tr = draw(st.sampled_from(tset['trajs']))
    if draw(st.integers(0, 7)) == 0:
        return tr['t0'] + draw(st.integers(-before, len(tr['pos']) + after))
    return draw(st.sampled_from(times_of(tr)))

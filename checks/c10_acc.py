"""C10: trajAcc files."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, equal, same, check, short, at, kept_env
from harness import gen, oldfmt


@st.composite
def acc_dirs(draw, unique=True):
    tset = draw(gen.traj_sets(max_n=8, max_len=6, span=6,
        props=[['accel', 'v3']], unique_pos=unique, gaps=True,
        first=st.sampled_from([1, 7, 8, 97, 10001])))
    if not unique:
        tset = draw(gen.shared_positions(tset))
    starts = [tr['t0'] for tr in tset['trajs']]
    return dict(tset=tset, frames=list(range(min(starts),
        max(starts) + 1 + draw(st.integers(0, 3)))),
        tmpl=draw(st.sampled_from(['trajAcc.%d', '%d.traj', 'a(b).%d.acc'])))


@st.composite
def acc_reads(draw):
    case = draw(acc_dirs())
    n = len(case['frames'])
    lim = st.one_of(st.none(), st.integers(-2, n + 1))
    case['lo'], case['hi'] = draw(lim), draw(lim)
    return case


@facet('C10', 'trajects', acc_reads(), quick=700,
    rule='directories of trajAcc files, read whole and over a range of '
    'frames; non-trivial if at least two trajectories starting in different '
    'frames are in range')
def trajects(case, ctx):
    from flowtracks import io
    tset, frames = case['tset'], case['frames']
    order = oldfmt.write_acc(ctx.tmp, case['tmpl'], tset, frames)
    with open(ctx.path('x' + case['tmpl'] % frames[0] + '~'), 'w') as f:
        f.write('not data\n')
    lo = None if case['lo'] is None else frames[0] + case['lo']
    hi = None if case['hi'] is None else frames[0] + case['hi']
    want = [tset['trajs'][i] for i in order
        if (lo is None or tset['trajs'][i]['t0'] >= lo)
        and (hi is None or tset['trajs'][i]['t0'] <= hi)]
    ctx.note(*[c for c, v in [('range', len(want) < len(order)),
        ('all', len(want) == len(order)), ('digits change',
        len(str(frames[0])) != len(str(frames[-1])))] if v])
    ctx.nontrivial(len(set(tr['t0'] for tr in want)) > 1)
    with ctx.sut('reading'):
        got = io.trajectories_acc(ctx.path(case['tmpl']), lo, hi)
    equal(len(got), len(want), 'number of trajectories')
    equal(len(set(int(t.trajid()) for t in got)), len(got), 'number of ids')
    # In order of frames and of rows in each frame.
    for t, tr in zip(got, want):
        same(t.time(), gen.times_of(tr), 'time')
        for p in ('pos', 'velocity', 'accel'):
            same(getattr(t, p)(), gen.arr(tr[p], 3), p, 1e-12, 1e-15)


@st.composite
def acc_collects(draw):
    case = draw(acc_dirs(unique=draw(st.booleans())))
    case['frame'] = draw(st.integers(0, len(case['frames']) - 1))
    case['seg'] = draw(st.booleans())
    case['where'] = draw(st.sampled_from(['abs', 'abs', 'rel', 'home']))
    return case


@facet('C10', 'collect', acc_collects(), quick=700,
    rule='particles of one frame, or of a path segment, collected from a '
    'directory of trajAcc files; non-trivial if there are at least two of '
    'them, of trajectories that started in different frames')
def collect(case, ctx):
    from flowtracks import io
    tset, frames = case['tset'], case['frames']
    oldfmt.write_acc(ctx.tmp, case['tmpl'], tset, frames)
    frame = frames[case['frame']]
    # Going back over consecutive files, as long as they exist.
    cands = []
    for tr in tset['trajs']:
        i = gen.index_at(tr, frame)
        if i is not None and (not case['seg'] or gen.index_at(tr, frame + 1)):
            cands.append((tr, i))
    with kept_env(), ctx.sut('collecting'):
        path = at(ctx, case['where'], case['tmpl'])
        if case['seg']:
            got = io.collect_particles(path, frame, True)
        else:
            got = io.collect_particles(path, frame)
    check_collected(got, [[tr['pos'][a + k] + tr['velocity'][a + k]
        + [frame + k - tr['t0']]
        for k in range(2 if case['seg'] else 1)] for tr, a in cands],
        case['seg'], 7)
    if len(set(tuple(tr['pos'][a]) for tr, a in cands)) < len(cands):
        ctx.note('shared position')
    ctx.note(*[c for c, v in [('none', not cands), ('segments', case['seg'])]
        if v])
    ctx.nontrivial(len(set(tr['t0'] for tr, _ in cands)) > 1)


def check_collected(got, cands, seg, width):
    """
    cands: for each candidate, its row (two rows if seg). All of them must be
    there, once for each position.
    """
    got = np.asarray(got)
    if seg:
        check(got.ndim == 3 and got.shape[0] == 2 and got.shape[2] == width,
            'shape of segments: %s', got.shape)
        items = [np.vstack((got[0, i], got[1, i]))
            for i in range(got.shape[1])]
    else:
        check(got.ndim == 2 and got.shape[1] == width,
            'shape of particles: %s', got.shape)
        items = [got[i:i + 1] for i in range(got.shape[0])]
    for it in items:
        check(any(np.allclose(it, c, rtol=1e-12, atol=1e-15) for c in cands),
            'a particle that is not in the data: %s\n data: %s', short(it),
            short(cands))
    pos = sorted(tuple(it[0, :3]) for it in items)
    want = sorted(set(tuple(float(v) for v in c[0][:3]) for c in cands))
    equal(len(pos), len(want), 'number of particles')
    same(pos, want, 'positions', 1e-12, 1e-15)

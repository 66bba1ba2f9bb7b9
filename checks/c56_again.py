"""
C56: what is read is what the files hold then. Checks of other properties run
twice in the same directory, on different cases.
"""
import copy, gc, os, shutil
from hypothesis import strategies as st
from harness.core import FACETS, facet, equal, exact
from harness import gen, scenes
from checks import (c01_ptvis, c02_motion, c03_range, c04_xuap,
    c05_single_file, c06_hdf_table, c07_hdf_frames, c08_npz, c09_mat, c10_acc,
    c11_front, c12_collect, c13_views, c15_segments, c16_where, c17_metadata,
    c18_dual, c19_config, c22_sequence, c23_map, c24_seq_config, c30_corrfun,
    c32_interp_config, c33_analysis, c34_fluid, c35_analysed_scene,
    c36_script)

# Names and ways to give them, which the second case has from the first.
SHARED = ('tmpl', 'tname', 'pname', 'corrname', 'name', 'where')


def base(key):
    pid, name = key.split('-', 1)
    return [f for f in FACETS[pid] if f.name == name][0]


def pairs(keys):
    return st.one_of(*[st.tuples(st.just(k), base(k).strategy,
        base(k).strategy) for k in keys])


def clear(ctx):
    gc.collect() # files that are still open.
    for name in os.listdir(ctx.tmp):
        path = ctx.path(name)
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        else:
            os.remove(path)


def both(case, ctx, over=False):
    key, first, second, third = case
    func = base(key).func
    if isinstance(first, dict):
        for k in SHARED:
            if isinstance(first.get(k), str) and isinstance(second.get(k),
                    str):
                second[k] = first[k]
    ok = []
    for one in [first, second] + ([first] if third else []):
        ctx.is_nontrivial = False
        func(copy.deepcopy(one), ctx)
        ok.append(ctx.is_nontrivial)
        if over:
            gc.collect()
        else:
            clear(ctx)
    ctx.classes.clear()
    ctx.note(key)
    ctx.nontrivial(all(ok) and first != second)


RULE = ('; the second case in the place of the first, under the same names, '
    'and sometimes the first again; cases as in the checks of the '
    'properties named; non-trivial if both cases are so there and differ')


def again(name, keys, quick, rule, over=False):
    facet('C56', name, st.tuples(pairs(keys), st.booleans()).map(
        lambda c: list(c[0]) + [c[1]]), quick=quick, rule=rule + RULE)(
        lambda case, ctx: both(case, ctx, over))


again('frames', ['C01-dir', 'C02-motion', 'C03-files', 'C04-xuap',
    'C05-concat', 'C10-trajects', 'C10-collect', 'C11-frames', 'C11-acc'],
    110, 'text files of frames removed and others written')
again('databases', ['C06-table', 'C07-frames', 'C07-copy', 'C08-npz',
    'C09-mat', 'C11-formats', 'C12-collect', 'C12-frame-data'], 110,
    'databases of trajectories removed and others written')
again('scenes', ['C13-views', 'C15-segments', 'C16-collect', 'C17-metadata',
    'C18-history', 'C19-dual'], 80, 'HDF files removed and others written')
again('overwritten', ['C06-table', 'C07-frames', 'C07-copy', 'C09-mat',
    'C13-views', 'C16-collect', 'C17-metadata', 'C19-dual', 'C33-table',
    'C35-collect', 'C34-fluid'], 80, 'HDF, MATLAB and configuration files '
    'written over others', True)
again('sequences', ['C22-history', 'C23-map', 'C24-roundtrip', 'C24-data'],
    60, 'databases of sequences and their configurations replaced')
again('interpolants', ['C30-corrfun', 'C32-roundtrip', 'C32-partial'], 120,
    'correlations and configurations of interpolants replaced')
again('analyses', ['C33-table', 'C34-fluid', 'C35-collect',
    'C35-trajectories', 'C36-run'], 40, 'scenes, configurations and '
    'analyses replaced')


@st.composite
def added(draw):
    """Sets of trajectories with values that go with them."""
    sets = [draw(gen.traj_sets(max_n=5, max_len=5, ids=st.integers(0, 9)))
        for _ in range(draw(st.integers(2, 3)))]
    return [[s, dict((n, [draw(gen.rows(draw(st.integers(0, 3))))
        for _ in s['trajs']]) for n in draw(st.lists(st.sampled_from(
        ['recon', 'accel', 'corr']), max_size=2, unique=True)))]
        for s in sets]


@facet('C56', 'added', added(), quick=200, rule='trajectories saved in an '
    'NPZ directory that has others, with other properties and additional '
    'arrays: those of the same id are replaced, others stay; non-trivial if '
    'there are both')
def npz_added(case, ctx):
    from flowtracks import io
    last, want = {}, {}
    for tset, adds in case:
        adds = dict((n, dict((tr['id'], gen.arr(v, 3))
            for tr, v in zip(tset['trajs'], vals)))
            for n, vals in adds.items())
        with ctx.sut('saving'):
            io.save_trajectories(ctx.path('d'), gen.make_trajs(tset), adds)
        want.update(scenes.by_id(gen.model_rows(tset)))
        for tr in tset['trajs']:
            last[tr['id']] = (gen.all_kinds(tset), dict((n, v[tr['id']])
                for n, v in adds.items()))
    ids = [set(tr['id'] for tr in tset['trajs']) for tset, _ in case[:2]]
    ctx.nontrivial(bool(ids[0] & ids[1]) and bool(ids[0] - ids[1]))
    with ctx.sut('reading'):
        got, got_adds = io.load_trajectories(ctx.path('d'))
    equal(sorted(int(t.trajid()) for t in got), sorted(want), 'ids')
    for t in got:
        tid = int(t.trajid())
        scenes.cmp_traj(t, tid, want[tid], last[tid][0], 'in directory')
    equal(set(n for n in got_adds if got_adds[n]),
        set(n for tid in last for n in last[tid][1]), 'names of arrays')
    for name in got_adds:
        equal(set(got_adds[name]), set(tid for tid in last
            if name in last[tid][1]), 'trajectories with ' + name)
        for tid, v in got_adds[name].items():
            exact(v, last[tid][1][name], '%s of %s' % (name, tid))

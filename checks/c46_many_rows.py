"""C46: databases of many rows behave as small ones do."""
import numpy as np
from hypothesis import strategies as st
from harness.core import facet
from harness import duals, gen, large, ptvis, scenes, seqs
from checks import (c01_ptvis, c03_range, c04_xuap, c05_single_file,
    c06_hdf_table, c07_hdf_frames, c08_npz, c13_views, c14_ranges,
    c15_segments, c16_where, c18_dual, c22_sequence, c23_map,
    c25_neighbours, c26_idw, c27_jacobian, c33_analysis, c34_fluid,
    c35_analysed_scene, c38_pairs)

limits = st.integers(-3, 110)


@st.composite
def a_range(draw):
    if draw(st.integers(0, 4)) == 0:
        return None
    a = draw(st.integers(-1, 60))
    b = a + draw(st.integers(0, 60))
    kind = draw(st.integers(0, 5))
    return [None if kind == 1 else a, None if kind == 2 else b]


def note(case, ctx, rows):
    ctx.classes.clear()
    ctx.note(*[c for c, v in [('over 1000 rows', rows > 1000),
        ('over 3000 rows', rows > 3000), ('gaps', case['p']['gaps'])] if v])
    ctx.is_nontrivial = rows > 1000


def num_rows(tset):
    return sum(len(t['pos']) for t in tset['trajs'])


@st.composite
def scene_cases(draw):
    return dict(p=draw(large.params()), which=draw(st.sampled_from(['table',
        'views', 'segments', 'copy', 'frames'])),
        rng=draw(a_range()), trim=draw(st.sampled_from([None, None, 1, 2])),
        by_frames=draw(st.integers(0, 2)) == 0)


@facet('C46', 'scenes', scene_cases(), quick=24, thorough=1440, rule='scenes of up to 250 '
    'trajectories over up to 100 frames, thousands of rows, stored by '
    'trajectories and by frames and read by each of the readers, as in C06, '
    'C07, C13, C15; non-trivial with over 1000 rows')
def read_scenes(case, ctx):
    p = case['p']
    if case['which'] == 'frames':
        lst = large.frames(p)
        n = sum(len(f['ids']) for f in lst['frames'])
        if n:
            c07_hdf_frames.frames(lst, ctx)
        note(case, ctx, n)
        return
    tset = large.traj_set(p)
    if case['which'] == 'table':
        trim = case['trim']
        if max(len(t['pos']) for t in tset['trajs']) <= 2 * (trim or 0):
            trim = None
        lo, hi = case['rng'] or (None, None)
        c06_hdf_table.table(dict(tset=tset, trim=trim, float_time=False,
            over=False, lo=lo, hi=hi), ctx)
    elif case['which'] == 'views':
        c13_views.views(dict(tset=tset, by_frames=case['by_frames']), ctx)
    elif case['which'] == 'segments':
        c15_segments.segments(dict(tset=tset, by_frames=case['by_frames'],
            rng=case['rng']), ctx)
    else:
        c07_hdf_frames.copy(tset, ctx)
    note(case, ctx, num_rows(tset))
    ctx.note(case['which'])


@st.composite
def query_cases(draw):
    p = draw(large.params())
    if not any(k in 'fi' for _, k in p['props']):
        p['props'] = [['temp', 'f'], ['state', 'i']]
    names = [n for n, k in p['props'] if k in 'fi'] + ['time', 'trajid']
    where = []
    for n in draw(st.lists(st.sampled_from(names), min_size=0, max_size=3,
            unique=True)):
        # As fractions of the sorted values, or somewhere between them.
        where.append([n, draw(st.floats(0., 1.)), draw(st.floats(0., 1.)),
            draw(st.booleans()), draw(st.booleans())])
    return dict(p=p, where=where, keys=draw(st.lists(st.sampled_from(['pos',
        'velocity', 'time', 'trajid'] + [n for n, _ in p['props']]),
        min_size=1, max_size=3, unique=True)), rng=draw(a_range()),
        by_frames=draw(st.booleans()), all_keys=draw(st.booleans()))


def conditions(where, rows):
    out = {}
    for n, a, b, inv, between in where:
        vals = sorted(r[1] if n == 'time' else r[0] if n == 'trajid'
            else r[2][n] for r in rows)
        lims = sorted([vals[int(f * (len(vals) - 1))] for f in (a, b)])
        if between:
            lims = [v + 0.25 for v in lims]
        out[n] = lims + [inv]
    return out


@facet('C46', 'collect', query_cases(), quick=40, thorough=2400, rule='columns of such '
    'scenes, in a range or not, with up to three conditions, as in C16; '
    'non-trivial with over 1000 rows and a condition')
def collect(case, ctx):
    tset = large.traj_set(case['p'])
    rows = gen.model_rows(tset)
    c16_where.collect(dict(case, tset=tset,
        where=conditions(case['where'], rows)), ctx)
    n = len(rows)
    note(case, ctx, n)
    ctx.is_nontrivial &= len(case['where']) > 0


@st.composite
def history_cases(draw):
    ops = []
    for _ in range(draw(st.integers(3, 6))):
        if draw(st.integers(0, 2)) == 0:
            ops.append(['range', draw(a_range())])
        else:
            ops.append([draw(st.sampled_from(c14_ranges.OPS)),
                draw(st.integers(0, 500))])
    return dict(p=draw(large.params()), by_frames=draw(st.integers(0, 2))
        == 0, ops=ops, init=draw(a_range()))


@facet('C46', 'ranges', history_cases(), quick=20, thorough=1200, rule='setting the frame '
    'range of such scenes and reading, as in C14; non-trivial with over 1000 '
    'rows')
def ranges(case, ctx):
    tset = large.traj_set(case['p'])
    c14_ranges.history(dict(case, tset=tset), ctx)
    note(case, ctx, num_rows(tset))


@st.composite
def dual_cases(draw):
    which = draw(st.sampled_from(['dual', 'table', 'collect', 'trajectories',
        'fluid']))
    p = draw(large.params(lens=(10, 30), spans=(0, 30)))
    p['props'] = [q for q in p['props'] if q[0] not in ('companion', 'disp',
        'code', 'crowd', 'pair')]
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        a = draw(st.integers(0, 40))
        ops.append([draw(st.sampled_from(['frames', 'segments'])),
            draw(st.one_of(st.none(), st.just([a, a + draw(st.integers(0,
                30))]))), -1])
    names = ['code', 'crowd', 'time', 'trajid'] + [n for n, k in p['props']
        if k in 'fi']
    queries = []
    for _ in range(2):
        queries.append([draw(st.lists(st.sampled_from(['pos', 'disp', 'code',
            'crowd']), min_size=1, unique=True)), [[n, draw(st.floats(0.,
            1.)), draw(st.floats(0., 1.)), draw(st.booleans()), False]
            for n in draw(st.lists(st.sampled_from(names), max_size=2,
                unique=True))]])
    return dict(p=p, which=which, ops=ops, queries=queries,
        k=draw(st.integers(1, 6)))


@facet('C46', 'dual', dual_cases(), quick=24, thorough=1440, rule='pairs of such scenes, '
    'their frames, segments, analysis and the collection of its results, as '
    'in C18, C33, C34, C35; non-trivial with over 1000 rows of tracers')
def dual(case, ctx):
    which = case['which']
    d = large.dual(case['p'], which == 'fluid')
    base = case['p']['first']
    if which == 'dual':
        c18_dual.history(dict(tracers=d['tracers'], parts=d['parts'],
            base=base, init=[v - base for v in d['rng']], ops=case['ops']),
            ctx)
    elif which == 'table':
        c33_analysis.table(dict(d, which=[0, 1], range=None, exists=False),
            ctx)
    elif which == 'fluid':
        c34_fluid.fluid(dict(d, k=case['k'], p=1, direct=False), ctx)
    else:
        d['arng'] = None
        rows = [(i, s[0], dict(s[1][i], **vals)) for s in
            c35_analysed_scene.analysed_segments(d)
            for i, vals in duals.analysed(s).items()]
        d['queries'] = [[keys, conditions(where, rows) if rows else {}]
            for keys, where in case['queries']]
        getattr(c35_analysed_scene, which)(d, ctx)
    note(case, ctx, num_rows(d['tracers']))
    ctx.note(which)


@st.composite
def film_cases(draw):
    return dict(p=draw(large.params(lo=20, hi=300, lens=(10, 50),
        spans=(10, 80))),
        which=draw(st.sampled_from(['dir', 'xuap', 'single'])))


@facet('C46', 'films', film_cases(), quick=20, thorough=1200, rule='films of up to 300 '
    'trajectories over up to 80 frames, in the formats of C01, C04, C05; '
    'non-trivial with over 1000 rows')
def films(case, ctx):
    which = case['which']
    film = large.film(case['p'], which == 'xuap', 0 if which == 'single'
        else None)
    if which == 'dir':
        c01_ptvis.read_dir(dict(film=film, tmpl='ptv_is.%d', strays=True,
            min_len=1, step=1), ctx)
    elif which == 'xuap':
        c04_xuap.xuap(dict(film=film, frate=500., extra_col=False,
            float_links=False, front=False, min_len=2), ctx)
    else:
        c05_single_file.concat(dict(film=film, min_len=1, frate=250., sep='',
            end='\n', name='all.txt', front=False), ctx)
    note(dict(p=dict(gaps=False)), ctx, num_rows(film))
    ctx.note(which)


@st.composite
def seq_cases(draw):
    a = draw(st.integers(0, 30))
    ops = [[draw(st.sampled_from(['whole', 'sub', 'subrange', 'select',
        'two'])), a, a + draw(st.integers(0, 30)), draw(st.integers(0, 2)),
        draw(st.booleans())] for _ in range(draw(st.integers(1, 3)))]
    return dict(p=draw(large.params(lens=(8, 30), spans=(4, 24))), ops=ops,
        fmts=[draw(st.sampled_from(['hdf', 'hdf', 'npz'])) for _ in '12'],
        min_len=draw(st.sampled_from([None, 1, 3])), map=draw(st.booleans()),
        history=draw(st.booleans()))


@facet('C46', 'sequences', seq_cases(), quick=16, thorough=960, rule='sequences over such '
    'databases, iterated and mapped over as in C22, C23; non-trivial with '
    'over 1000 rows of tracers')
def sequences(case, ctx):
    p = case['p']
    rng = np.random.default_rng(p['seed'])
    db = dict(base=p['first'], min_len=case['min_len'])
    for w, f in zip(('tracers', 'parts'), case['fmts']):
        tset = large.traj_set(dict(p, n=p['n'] if w == 'tracers'
            else 1 + p['n'] // 4, big_ids=False), rng, gaps=False)
        # Distinct in each frame: everybody has his own band.
        for i, tr in enumerate(tset['trajs']):
            tr['pos'] = [[round(r[0] * 0.2 + i, 7)] + r[1:]
                for r in tr['pos']]
        db[w] = dict(tset=tset, fmt=f)
    lo, hi = p['first'], p['first'] + p['span'] + 2
    for w in ('tracers', 'parts'):
        if not seqs.selected(db[w], lo, hi, case['min_len']):
            return
    db.update(lo=lo, hi=hi)
    if case['map']:
        c23_map.mapped(dict(db, sub=None, history=case['history'], args=[2],
            scalar=False, again=False), ctx)
    else:
        c22_sequence.history(dict(db, ops=[[op, min(a, hi - lo), min(b, hi
            - lo + 1), mod, which] for op, a, b, mod, which in case['ops']]),
            ctx)
    note(dict(p=dict(gaps=False)), ctx, num_rows(db['tracers']['tset']))
    ctx.note('map' if case['map'] else 'iterate')


@st.composite
def field_cases(draw):
    return dict(p=draw(large.params(lo=20, hi=400)),
        which=draw(st.sampled_from(['select', 'scene', 'values',
            'analytic'])), radius=draw(st.one_of(st.none(), st.floats(0.3,
            3.))))


@facet('C46', 'fields', field_cases(), quick=40, thorough=2400, rule='interpolation among '
    'up to 400 tracers at up to 67 points, as in C25, C26, C27; non-trivial '
    'with over 100 tracers')
def field(case, ctx):
    f = large.field(case['p'])
    f['radius'], f['p'] = case['radius'], 1
    which = case['which']
    if which in ('select', 'scene'):
        getattr(c25_neighbours, which)(f, ctx)
    elif which == 'values':
        c26_idw.values(f, ctx)
    else:
        c27_jacobian.analytic(f, ctx)
    ctx.classes.clear()
    ctx.note(which)
    ctx.is_nontrivial = len(f['tracers']) > 100


@st.composite
def pair_cases(draw):
    return dict(p=draw(large.params(hi=150)), req=draw(st.integers(10, 100)))


@facet('C46', 'pairs', pair_cases(), quick=16, thorough=960, rule='pairs among up to 150 '
    'trajectories for up to 100 requests, as in C38; non-trivial with over '
    '1000 rows')
def pairs(case, ctx):
    p = case['p']
    rng = np.random.default_rng(p['seed'])
    prim = large.traj_set(dict(p, n=1 + p['n'] // 4), rng, gaps=False)
    sec = large.traj_set(p, rng, gaps=False)
    req = []
    for _ in range(case['req']):
        tr = prim['trajs'][int(rng.integers(0, len(prim['trajs'])))]
        req.append([tr['id'], int(rng.integers(0, len(tr['pos'])))])
    c38_pairs.pairs(dict(prim=prim, sec=sec, req=req, types=['i8', 'i8']), ctx)
    note(dict(p=dict(gaps=False)), ctx, num_rows(sec))

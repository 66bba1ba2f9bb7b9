"""C36: the analysis program, from configuration to results."""
import os, runpy, sys
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, same, equal, exact, Violation
from harness import duals, fields, gen
from harness.fields import Eligible, ref_rbf, ref_corrfun, near_bin

SCRIPT = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'scripts',
    'analyse_fhdf.py')


@st.composite
def cases(draw):
    case = draw(duals.duals())
    # Positions for which the equations of rbf are solvable.
    case['method'] = draw(st.sampled_from([None, 'inv', 'rbf', 'corrfun']))
    case['neighbs'] = draw(st.sampled_from([None, None, 1, 2, 3, 5]))
    case['param'] = draw(st.sampled_from([None, 1, 2, 0.5]))
    case['short'] = draw(st.booleans())
    return case


def crowded(tracers):
    pos = [tr['pos'] for tr in tracers.values()]
    return any(np.linalg.norm(np.subtract(a, b)) < 1e-3
        for n, a in enumerate(pos) for b in pos[:n])


@facet('C36', 'run', cases(), quick=300,
    rule='the program is run on dual scenes, with any of its arguments or '
    'their defaults; results are compared with a reference interpolation; '
    'non-trivial if two particles have a fluid velocity that does not depend '
    'on tie breaking')
def run(case, ctx):
    import tables
    conf = duals.write(case, ctx)
    out = ctx.path('analysis.h5')
    bins, corrs = [0., 0.4, 1.], [3., 2., 1.]
    np.savez(ctx.path('corrs.npz'), corrs=np.array(corrs),
        bins=np.array(bins))
    method = case['method'] or 'inv'
    param = case['param']
    if method == 'rbf':
        param = 30. * (param or 1)  # default is good for mm scales.
        if any(crowded(seg[2]) for seg in duals.segments(case, case['rng'])):
            ctx.note('unsolvable')
            return
    if method == 'corrfun':
        param = ctx.path('corrs.npz')
    argv = [SCRIPT, conf, out]
    if case['method']:
        argv += ['--method', case['method']]
    if case['neighbs']:
        argv += ['--neighbs', str(case['neighbs'])]
    if param is not None:
        argv += ['-p' if case['short'] else '--param', str(param)]
    old = sys.argv
    sys.argv = argv
    try:
        with ctx.sut('program with %s' % argv[3:]):
            try:
                runpy.run_path(SCRIPT, run_name='__main__')
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise Violation('program with %s exits with %s' % (
                        argv[3:], e.code))
            with tables.open_file(out) as f:
                tab = f.get_node('/analysis')
                data, attrs = tab.read(), (tab.attrs['config'],
                    tab.attrs['trajects'])
    finally:
        sys.argv = old
    equal(attrs, (conf, ctx.path('particles.h5')), 'recorded paths')
    segs = duals.segments(case, case['rng'])
    got = dict(((int(r['trajid']), int(r['time'])), r) for r in data)
    equal(len(got), len(data), 'repeated rows')
    equal(sorted(got), sorted((i, s[0]) for s in segs for i in s[1]), 'rows')
    k = case['neighbs'] or 4
    known = 0
    for fr, pa, ta, _, _ in segs:
        ids = list(ta)
        pos = gen.arr([ta[i]['pos'] for i in ids], 3)
        vel = gen.arr([ta[i]['velocity'] for i in ids], 3)
        for i, v in pa.items():
            comp = v.get('companion', -1)
            comp = ids.index(comp) if comp in ids else None
            el = Eligible(pos, v['pos'], comp)
            if el.ambiguous(k):
                continue
            idx, dists = el.nearest(k)
            atol = 1e-12
            if len(ids) == 0:
                want = np.zeros(3)
            elif method == 'inv':
                if len(idx) == 0:
                    continue
                want = fields.ref_inv(pos, vel, idx, dists, param or 1)
            elif method == 'rbf':
                if len(idx) == 0:
                    want, cond = np.zeros(3), 1.
                else:
                    try:
                        want, cond = ref_rbf(pos, vel, idx, dists, param)
                    except np.linalg.LinAlgError:
                        continue
                if not cond < 1e8:
                    continue
                atol += 1e-14 * cond
            else:
                if len(idx) == 0 or near_bin(dists, bins):
                    continue
                want = ref_corrfun(vel, idx, dists, corrs, bins)
            known += 1
            row = got[i, fr]
            what = 'of %d at %d, by %s' % (i, fr, method)
            same(row['fluid_vel'], want, 'fluid velocity ' + what, 1e-9,
                atol)
            same(row['rel_vel'], np.array(v['velocity']) - want,
                'relative velocity ' + what, 1e-9, atol)
    ctx.nontrivial(known > 1)
    ctx.note(method)

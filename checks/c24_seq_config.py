"""C24: a Sequence is recreated from the configuration it saves."""
import configparser
import os
from hypothesis import strategies as st
from harness.core import facet, equal, check, short
from harness import gen, scenes, seqs

chars = st.text(alphabet='ab%d_ .-=:#;[]', min_size=0, max_size=8)
positive = st.one_of(st.floats(1e-9, 1e6), st.sampled_from([1e-3, 500.]))


def describe(seq):
    cfg = configparser.ConfigParser()
    seq.save_config(cfg)
    return dict((s, dict(cfg.items(s, raw=True))) for s in cfg.sections())


@facet('C24', 'roundtrip', st.fixed_dictionaries(dict(
        first=st.integers(0, 20000), num=st.integers(0, 500),
        frate=positive, diam=positive, density=positive,
        pname=chars, tname=chars,
        pfmt=st.sampled_from(['.h5', '.mat', 'ptv_is.%d', 'xuap.%d', '/']),
        tfmt=st.sampled_from(['.h5', '.mat', 'ptv_is.%d', 'xuap.%d', '/']),
        smooth=st.booleans(), min_len=st.one_of(st.none(),
            st.integers(0, 30)),
        over_smooth=st.one_of(st.none(), st.booleans()),
        over_len=st.one_of(st.none(), st.integers(0, 9)),
        extra=st.sampled_from(['', '', 'part', 'all']),
        drop=st.booleans())), quick=1500,
    rule='sequences of all parameters, names of special characters included, '
    'saved to a configuration (empty or describing another sequence, wholly '
    'or in part) and read back with or without overriding '
    'values; non-trivial if a name has a special character or a value is '
    'overridden')
def roundtrip(case, ctx):
    from flowtracks.sequence import Sequence, read_sequence
    from flowtracks.particle import Particle
    pname = '/data/p' + case['pname'] + case['pfmt']
    tname = '/data/t' + case['tname'] + case['tfmt']
    rng = (case['first'], case['first'] + case['num'])
    kw = {} if case['min_len'] is None else dict(
        traj_min_len=case['min_len'])
    cfg = configparser.ConfigParser()
    if case['extra']:
        cfg['Scene'] = {'frame rate': '3', 'comment': 'kept'}
        cfg['Other'] = {'a': '1'}
    if case['extra'] == 'all':
        cfg['Particle'] = {'diameter': '0.125', 'density': '77', 'b': '2'}
        cfg['Scene'].update({'first frame': '12345', 'last frame': '23456',
            'tracers file': 'other', 'particles file': 'another',
            'apply smoothing': 'no' if case['smooth'] else 'yes',
            'trajectory minimal length': '123'})
    with ctx.sut('saving'):
        seq = Sequence(rng, case['frate'], Particle(case['diam'],
            case['density']), pname, tname, case['smooth'], **kw)
        seq.save_config(cfg)
    if case['extra']:
        equal((cfg.get('Scene', 'comment'), cfg.get('Other', 'a')),
            ('kept', '1'), 'other values in the configuration')
    if case['extra'] == 'all':
        equal(cfg.get('Particle', 'b'), '2', 'other value of the particle')
    # Optional values may be missing from a configuration file.
    smooth, min_len = case['smooth'], case['min_len'] or 0
    if case['drop']:
        cfg.remove_option('Scene', 'apply smoothing')
        cfg.remove_option('Scene', 'trajectory minimal length')
        smooth, min_len = False, 0
    with open(ctx.path('seq.cfg'), 'w') as f:
        cfg.write(f)
    over = {}
    if case['over_smooth'] is not None:
        over['smooth'] = smooth = case['over_smooth']
    if case['over_len'] is not None:
        over['traj_min_len'] = min_len = case['over_len']
    ctx.note(*[c for c, v in [('overridden', bool(over)), ('percent',
        '%' in case['pname'] + case['tname']), ('drop', case['drop'])] if v])
    ctx.nontrivial(bool(over) or any(c in case['pname'] + case['tname']
        for c in '%=:#; '))
    with ctx.sut('reading'):
        got = read_sequence(ctx.path('seq.cfg'), **over)
    equal(tuple(got.range()), rng, 'range')
    equal(got.frate, case['frate'], 'frame rate')
    equal((got.part.diam, got.part.density), (case['diam'],
        case['density']), 'particle')
    equal(got.part_fname(), pname, 'particles file')
    equal(got.part_format(), seq.part_format(), 'format')
    ref = Sequence(rng, case['frate'], Particle(case['diam'],
        case['density']), pname, tname, smooth, min_len)
    with ctx.sut('saving'):
        a, b = describe(got), describe(ref)
    for d in (a, b):
        key = 'trajectory minimal length'
        d['Scene'][key] = float(d['Scene'][key])
    equal(a, b, 'configuration saved by the sequence read')


@st.composite
def cases(draw):
    return dict(draw(seqs.databases(min_len_opts=(None, 1, 2, 3))),
        smooth=draw(st.booleans()), over=draw(st.sampled_from([None, None,
            False, True])))


@facet('C24', 'data', cases(), quick=150,
    rule='a sequence on actual databases and the one recreated from its '
    'configuration give the same trajectories; non-trivial if the minimal '
    'length or the range leaves some out')
def data(case, ctx):
    from flowtracks.sequence import Sequence, read_sequence
    from flowtracks.particle import Particle
    names = dict((w, seqs.write_db(case[w], ctx.path(w + ' 100%')))
        for w in ('parts', 'tracers'))
    cfg = configparser.ConfigParser()
    with ctx.sut('saving and reading'):
        seq = Sequence((case['lo'], case['hi']), 500., Particle(1e-3, 1450.),
            names['parts'], names['tracers'],
            smooth_tracers=case['smooth'], traj_min_len=case['min_len'] or 0)
        seq.save_config(cfg)
        with open(ctx.path('seq.cfg'), 'w') as f:
            cfg.write(f)
        got = read_sequence(ctx.path('seq.cfg'), case['over'])
    smooth = case['smooth'] if case['over'] is None else case['over']
    want = seqs.selected(case['tracers'], case['lo'], case['hi'],
        case['min_len'])
    with ctx.sut('smoothing'):
        equal(seqs.smooths(got, want), smooth, 'smoothing')
    ctx.note('smooth' if smooth else 'as they are')
    if smooth:
        got = read_sequence(ctx.path('seq.cfg'), False)
    with ctx.sut('reading'):
        parts, tracers = got.particle_trajectories(), got.tracer_trajectories()
    for w, trs in [('parts', parts), ('tracers', tracers)]:
        want = seqs.selected(case[w], case['lo'], case['hi'],
            case['min_len'])
        ctx.nontrivial(len(want) < len(case[w]['tset']['trajs']))
        scenes.unique_match(trs, want, gen.all_kinds(case[w]['tset']), w)

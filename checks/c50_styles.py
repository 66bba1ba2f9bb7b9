"""C50: the layout of text files and the order of a directory don't matter."""
import contextlib, os
from unittest import mock
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, equal, exact, same
from harness import gen, oldfmt, ptvis, scenes, seqs

NUMS = ['plain', 'exp', 'EXP', 'plus', 'zeros', 'spare']
styles = st.fixed_dictionaries(dict(
    sep=st.sampled_from([' ', ' ', '\t', '    ', ' \t']),
    lead=st.sampled_from(['', '', ' ', '\t', '     ']),
    trail=st.sampled_from(['', '', ' ', '\t ']),
    eol=st.sampled_from(['\n', '\n', '\r\n']),
    nums=st.lists(st.sampled_from(NUMS), min_size=1, max_size=4),
    last_eol=st.booleans(), blank_end=st.integers(0, 2)))


def number(text, how):
    """Another way to write the same number, if there's any."""
    isint = text.lstrip('-').isdigit()
    v = float(text)
    if how == 'plus' and not text.startswith('-'):
        return '+' + text
    if isint or how in ('plain', 'plus'):
        return text
    if how == 'exp':
        return '%.17e' % v
    if how == 'EXP':
        return '%.16E' % v
    if how == 'zeros' and 'e' not in text:
        return text + '000'
    if how == 'spare' and text.endswith('.0'):
        return text[:-1]
    return text


def restyle(path, style, single=False):
    with open(path) as f:
        lines = f.read().split('\n')
    while lines and not lines[-1].strip() and not single:
        lines.pop()
    last = max([i for i, l in enumerate(lines) if l.strip()], default=-1)
    out, k = [], 0
    for i, line in enumerate(lines):
        words = []
        for w in line.split():
            words.append(number(w, style['nums'][k % len(style['nums'])]))
            k += 1
        if not words:
            out.append('')
            continue
        out.append(style['lead'] + style['sep'].join(words) + style['trail'])
    text = style['eol'].join(out)
    if not single:
        if style['last_eol'] and text:
            text += style['eol'] * (1 + style['blank_end'])
    with open(path, 'w', newline='') as f:
        f.write(text)


@contextlib.contextmanager
def shuffled(seed):
    """Directories are listed in some order."""
    rng = np.random.default_rng(seed)
    listdir, scandir = os.listdir, os.scandir

    def mixed(items):
        items = list(items)
        return [items[i] for i in rng.permutation(len(items))]

    class Scan(object):
        def __init__(self, path):
            with scandir(path) as it:
                self.items = iter(mixed(it))

        def __iter__(self):
            return self.items

        def __next__(self):
            return next(self.items)

        def __enter__(self):
            return self

        def __exit__(self, *exc):
            pass

        def close(self):
            pass
    with mock.patch('os.listdir', lambda p='.': mixed(listdir(p))), \
            mock.patch('os.scandir', lambda p='.': Scan(p)):
        yield


@st.composite
def films(draw):
    fmt = draw(st.sampled_from(['ptvis', 'xuap', 'single', 'acc']))
    if fmt == 'acc':
        film = draw(gen.traj_sets(max_n=5, max_len=4, span=12, gaps=True,
            props=[['accel', 'v3']]))
    else:
        film = draw(ptvis.linked_frames(max_traj=6, max_frames=12,
            xuap=fmt == 'xuap', first=0 if fmt == 'single' else None))
    return dict(fmt=fmt, film=film, style=draw(styles), min_len=draw(
        st.sampled_from([1, 2])), seed=draw(st.integers(0, 2**16)),
        iterate=draw(st.booleans()), frate=draw(st.sampled_from([1., 500.])))


@facet('C50', 'films', films(), quick=300, rule='frame files with columns '
    'separated and aligned by blanks or tabs, lines ended as in other '
    'systems, empty lines at the end, and numbers in several notations, in '
    'directories listed in a random order; non-trivial if written unlike the '
    'usual and with over two frames')
def read_films(case, ctx):
    from flowtracks import io
    film, fmt, style = case['film'], case['fmt'], case['style']
    tmpl = {'ptvis': 'ptv_is.%d', 'xuap': 'xuap.%d', 'acc': 'trajAcc.%d',
        'single': 'all.txt'}[fmt]
    if fmt == 'acc':
        starts = [tr['t0'] for tr in film['trajs']]
        frames = list(range(min(starts), max(starts) + 1))
        # Files are named by frames where trajectories start.
        frames = [f for f in frames if f in starts]
        order = oldfmt.write_acc(ctx.tmp, tmpl, film, frames)
    elif fmt == 'single':
        ptvis.write_ptvis_single(film, ctx.path(tmpl))
    else:
        (ptvis.write_ptvis_dir if fmt == 'ptvis' else ptvis.write_xuap_dir)(
            film, ctx.tmp, tmpl)
    names = os.listdir(ctx.tmp)
    for name in names:
        restyle(ctx.path(name), style, fmt == 'single')
    ctx.note(fmt, *[c for c, v in [('CRLF', style['eol'] == '\r\n'), ('tabs',
        '\t' in style['sep'] + style['lead'] + style['trail']), ('no end of '
        'line', not style['last_eol'])] if v])
    ctx.nontrivial((fmt == 'single' or len(names) > 2) and (style['eol'] !=
        '\n' or style['sep'] != ' ' or style['lead'] != '' or set(
        style['nums']) != set(['plain'])))
    with ctx.sut('reading'), shuffled(case['seed']):
        got = list(io.trajectories(ctx.path(tmpl), None, None, case['frate'],
            traj_min_len=case['min_len'], iter_allowed=case['iterate']))
    if fmt == 'acc':
        order = [i for i in order if len(film['trajs'][i]['pos']) >=
            case['min_len']]
        equal(len(got), len(order), 'number of trajectories')
        for t, i in zip(got, order):
            exact(t.time(), gen.times_of(film['trajs'][i]), 'time')
            for n in ('pos', 'velocity', 'accel'):
                same(getattr(t, n)(), gen.arr(film['trajs'][i][n], 3), n,
                    1e-12)
        return
    ptvis.match_trajects(got, [ptvis.expected_arrays(e, case['frate'],
        fmt == 'xuap') for e in ptvis.expected(film, min_len=case[
        'min_len'])], True, case['frate'])


@facet('C50', 'saved', st.fixed_dictionaries(dict(tset=gen.traj_sets(
        max_n=8, max_len=5), seed=st.integers(0, 2**16),
        range=st.one_of(st.none(), st.tuples(st.integers(0, 3),
        st.integers(0, 6))))), quick=120,
    rule='NPZ files, in directories listed in a random order; non-trivial '
    'with over two trajectories')
def read_saved(case, ctx):
    from flowtracks import io
    tset = case['tset']
    trajs = gen.make_trajs(tset)
    adds = dict(extra=dict((t.trajid(), np.arange(3.) + t.trajid())
        for t in trajs))
    ctx.nontrivial(len(trajs) > 2)
    lo = hi = None
    if case['range'] is not None:
        first = min(tr['t0'] for tr in tset['trajs'])
        lo, hi = first + case['range'][0], first + sum(case['range'])
    with ctx.sut('saving'):
        io.save_trajectories(ctx.path('res'), trajs, adds)
    with ctx.sut('reading'), shuffled(case['seed']):
        got, got_adds = io.load_trajectories(ctx.path('res'), lo, hi)
    model = scenes.by_id([r for r in gen.model_rows(tset)
        if lo is None or lo <= r[1] <= hi])
    equal(sorted(int(t.trajid()) for t in got), sorted(model),
        'trajectories')
    for t in got:
        scenes.cmp_traj(t, int(t.trajid()), model[int(t.trajid())],
            gen.all_kinds(tset))
    for k, v in got_adds['extra'].items():
        same(v, np.arange(3.) + k, 'added data')


ini_styles = st.fixed_dictionaries(dict(
    delim=st.lists(st.sampled_from(['=', ' = ', ': ', ':', '  =\t']),
        min_size=1, max_size=3),
    case=st.sampled_from(['lower', 'upper', 'title']),
    note=st.lists(st.sampled_from(['', '# A comment', '; another one',
        '   # with = and : in it']), max_size=3),
    eol=st.sampled_from(['\n', '\r\n']), seed=st.integers(0, 999),
    bools=st.sampled_from([('yes', 'no'), ('on', 'off'), ('1', '0'),
        ('True', 'False'), ('YES', 'No')]),
    nums=st.sampled_from(['plain', 'plain', 'exp', 'EXP', 'plus', 'zeros'])))


def write_ini(path, sections, style):
    """sections: {name: {key: text}}"""
    rng = np.random.default_rng(style['seed'])
    out, k = [], 0
    for i in rng.permutation(len(sections)):
        name = list(sections)[i]
        out += style['note'] + ['[%s]' % name]
        keys = list(sections[name])
        for j in rng.permutation(len(keys)):
            v = sections[name][keys[j]]
            if isinstance(v, bool):
                v = style['bools'][0 if v else 1]
            elif isinstance(v, float):
                v = number(repr(v), style['nums'])
            out.append(getattr(keys[j], style['case'])() + style['delim'][
                k % len(style['delim'])] + str(v))
            k += 1
            if rng.random() < 0.3:
                out += style['note']
    with open(path, 'w', newline='') as f:
        f.write(style['eol'].join(out) + style['eol'])


positive = st.floats(1e-7, 1e6)


@facet('C50', 'configurations', st.fixed_dictionaries(dict(style=ini_styles,
        diam=positive, density=positive, frate=positive, smooth=st.booleans(),
        first=st.integers(0, 3), last=st.integers(3, 9), radius=st.one_of(
        st.none(), positive), neighbs=st.integers(1, 9),
        method=st.sampled_from(['inv', 'rbf']), param=positive,
        min_len=st.integers(0, 9),
        tset=gen.traj_sets(max_n=4, max_len=6, span=2, first=st.just(0),
        min_len=3))), quick=250, rule='configuration files of all kinds, '
    'with sections and values in any order, comments, letters of any case '
    'and other notations; all are non-trivial')
def configurations(case, ctx):
    from flowtracks.scene import read_dual_scene
    from flowtracks.sequence import read_sequence
    from flowtracks.interpolation import read_interpolant
    style, path = case['style'], ctx.path('any.cfg')
    data = ctx.path('d.h5')
    scenes.write_scene(data, case['tset'])
    ctx.nontrivial()
    interp = {'method': case['method'], 'num_neighbs': case['neighbs'],
        'param': case['param']}
    if case['radius'] is not None:
        interp['radius'] = case['radius']
    write_ini(path, {'Particle': {'diameter': case['diam'], 'density':
        case['density']}, 'Scene': {'frame rate': case['frate'],
        'tracers file': data, 'particles file': data, 'first frame':
        case['first'], 'last frame': case['last'], 'apply smoothing':
        case['smooth'], 'trajectory minimal length': case['min_len']},
        'Interpolant': interp}, style)
    with ctx.sut('reading'):
        scene, seq = read_dual_scene(path), read_sequence(path)
        got = read_interpolant(path)
    for what, o in (('scene', scene), ('sequence', seq)):
        equal((o.frate, o.part.diam, o.part.density), (case['frate'],
            case['diam'], case['density']), what)
    rng = (case['first'], case['last'] + 1)
    equal((tuple(scene.get_range()), tuple(seq.range())), (rng, rng),
        'ranges')
    equal((scene.get_particles_path(), seq.part_fname()), (data, data),
        'particles file')
    equal((got.num_neighbs(), got.radius()), (case['neighbs'],
        case['radius']), 'interpolant')
    from configparser import ConfigParser
    cfg = ConfigParser()
    got.save_config(cfg)
    seq.save_config(cfg)
    equal((cfg.get('Interpolant', 'method'), cfg.getfloat('Interpolant',
        'param')), (case['method'], case['param']), 'interpolant')
    equal((cfg.getboolean('Scene', 'apply smoothing'), cfg.getfloat('Scene',
        'trajectory minimal length')), (case['smooth'], case['min_len']),
        'sequence')
    equal([f.particles.time() for f in scene.iter_frames()],
        list(range(*rng)), 'frames')
    del scene

"""C48: files may have any name."""
import os, re
import numpy as np
from hypothesis import strategies as st
from harness.core import facet, check, equal, exact, same
from harness import duals, gen, oldfmt, ptvis, scenes, seqs
from harness.core import kept_env

MARKS = ['ptv_is', 'xuap', 'run.h5', 'old.mat', 'all.txt', 'traj_3.npz',
    'scene.hdf', 'trajAcc', 'res.d', '50%', '%s', '[1]', 'a*', '{0}', '\\d+']


def good(name):
    return (name not in ('', '.', '..') and name == name.strip()
        and name[0] not in '~-' and re.search(r'%\d*d', name) is None)


words = st.text(alphabet='abdiszT0159_ .,%[](){}*?+^$&;#\'"\\=@!:~-é漢',
    min_size=1, max_size=6)
component = st.one_of(words, st.sampled_from(MARKS), st.tuples(words,
    st.sampled_from(MARKS)).map(''.join), st.tuples(st.sampled_from(MARKS),
    words).map(''.join)).filter(good)


@st.composite
def places(draw):
    """Directories and the way to give their path."""
    return dict(dirs=draw(st.lists(component, min_size=1, max_size=2)),
        rel=draw(st.booleans()), base=draw(component))


def enter(place, ctx):
    """Makes the directories. Returns the path to give."""
    d = ctx.path(*place['dirs'])
    os.makedirs(d)
    if place['rel']:
        os.chdir(ctx.tmp)
        return os.path.join(*place['dirs'])
    return d


def note(place, ctx):
    text = ''.join(place['dirs'])
    ctx.note(*[c for c, v in [('relative', place['rel']),
        ('percent', '%' in text), ('pattern', any(c in text
        for c in '[*?(+^$\\{')), ('mark of a format', any(m in text
        for m in ('ptv_is', 'xuap', 'h5', 'mat', 'txt'))),
        ('not ascii', not text.isascii())] if v])
    ctx.nontrivial(re.search(r'\W', text) is not None or 'ptv_is' in text
        or 'xuap' in text)


RULE = ('in directories with names of any characters, marks of formats, '
    'patterns and percent signs among them, by absolute and relative paths; '
    'non-trivial if a directory has a mark or a character other than letters '
    'and digits')


@st.composite
def stored(draw):
    fmt = draw(st.sampled_from(['hdf', 'hdf', 'npz', 'mat']))
    return dict(place=draw(places()), fmt=fmt, tset=draw(gen.traj_sets(
        max_n=3, max_len=5, gaps=True, props=[['accel', 'v3']])),
        front=draw(st.booleans()), ext=draw(st.sampled_from(['.h5', '.hdf',
        'h5'])), other=draw(component))


@facet('C48', 'databases', stored(), quick=250, rule='databases of '
    'trajectories ' + RULE)
def databases(case, ctx):
    from flowtracks import io
    from flowtracks.scene import Scene
    place, tset, fmt = case['place'], case['tset'], case['fmt']
    kinds = gen.all_kinds(tset)
    note(place, ctx)
    ctx.note(fmt)
    with kept_env():
        d = enter(place, ctx)
        name = os.path.join(d, place['base'])
        model = scenes.by_id(gen.model_rows(tset))
        if fmt == 'hdf':
            name += case['ext']
            with ctx.sut('saving'):
                io.save_particles_table(name, gen.make_trajs(tset))
                scene = Scene(name)
                other = os.path.join(d, case['other'] + '.f')
                io.save_frames_hdf(other, scene.iter_frames())
                second = Scene(other)
                sets = [list(s.iter_trajectories()) for s in (scene, second)]
                del scene, second
            with ctx.sut('reading'):
                sets.append(io.trajectories_table(name))
        elif fmt == 'npz':
            with ctx.sut('saving'):
                io.save_trajectories(name, gen.make_trajs(tset), {})
            for other in ('traj_99990.npz.old', 'traj_99991.npy', 'notes'):
                with open(os.path.join(name, other), 'w') as f:
                    f.write('Not trajectories.')
            name += '/'
            with ctx.sut('reading'):
                sets = [io.load_trajectories(name)[0]]
        else:
            name += '.mat'
            oldfmt.write_mat(name, tset)
            with ctx.sut('reading'):
                sets = [io.trajectories_mat(name)]
        with ctx.sut('reading %r' % name):
            sets.append(io.trajectories(name, None, None, 1.,
                traj_min_len=0))
        equal(os.listdir(ctx.tmp), place['dirs'][:1], 'files made')
    for got in sets:
        equal(sorted(int(t.trajid()) for t in got), sorted(model),
            'trajectories')
        for t in got:
            es = model[int(t.trajid())]
            exact(t.time(), [e[0] for e in es], 'time')
            for n, k in kinds:
                want = scenes.col(k, [v for _, v in es], n)
                same(getattr(t, n)(), want / 1000. if fmt == 'mat' else want,
                    n, 1e-12)


@st.composite
def films(draw):
    fmt = draw(st.sampled_from(['ptvis', 'xuap', 'single', 'acc']))
    place = draw(places())
    if fmt == 'acc':
        # These have no mark of their own, so may be taken for others.
        place['dirs'] = [d.replace('ptv_is', 'p').replace('xuap', 'x')
            for d in place['dirs']]
        film = draw(gen.traj_sets(max_n=4, max_len=4, span=3, gaps=True,
            props=[['accel', 'v3']]))
    else:
        film = draw(ptvis.linked_frames(max_traj=4, max_frames=5, xuap=True,
            first=0 if fmt == 'single' else None))
    return dict(place=place, fmt=fmt, film=film, pre=draw(words.filter(
        lambda w: good(w) and re.search(r'ptv_is|xuap', w) is None)),
        give_fmt=draw(st.booleans()))


@facet('C48', 'films', films(), quick=300, rule='frame files ' + RULE)
def read_films(case, ctx):
    from flowtracks import io
    place, film, fmt = case['place'], case['film'], case['fmt']
    note(place, ctx)
    ctx.note(fmt)
    with kept_env():
        d = enter(place, ctx)
        tmpl = case['pre'] + {'ptvis': 'ptv_is.', 'xuap': 'xuap.',
            'acc': 'trajAcc.', 'single': '.txt'}[fmt]

        def writer(num):
            return tmpl + str(num)
        kw = dict(fmt='ptvis' if fmt == 'single' else fmt) \
            if case['give_fmt'] else {}
        scratch = ctx.path('scratch')
        os.mkdir(scratch)
        if fmt == 'acc':
            starts = [tr['t0'] for tr in film['trajs']]
            frames = list(range(min(starts), max(starts) + 1))
            order = oldfmt.write_acc(scratch, 'f.%d', film, frames)
        elif fmt == 'single':
            ptvis.write_ptvis_single(film, os.path.join(scratch, 'f'))
        else:
            (ptvis.write_ptvis_dir if fmt == 'ptvis'
                else ptvis.write_xuap_dir)(film, scratch, 'f.%d')
        for name in os.listdir(scratch):
            os.rename(os.path.join(scratch, name), os.path.join(d,
                tmpl + name[2:]))
        os.rmdir(scratch)
        if fmt != 'single':
            # Not frames, although their names resemble them.
            num = '%d' % (min(frames) if fmt == 'acc' else film['first'])
            for name in ('z' + tmpl + num, tmpl + num + 'z', tmpl,
                    tmpl.replace('.', 'z') + num):
                with open(os.path.join(d, name), 'w') as f:
                    f.write('1\n-1 -2 5 5 5 5 5 5 5 5 5 5 5 5 5\n')
        path = os.path.join(d, tmpl + ('' if fmt == 'single' else '%d'))
        with ctx.sut('reading %r' % path):
            got = io.trajectories(path, None, None, 1., traj_min_len=1, **kw)
    if fmt == 'acc':
        equal(len(got), len(order), 'number of trajectories')
        for t, i in zip(got, order):
            exact(t.time(), gen.times_of(film['trajs'][i]), 'time')
            same(t.pos(), gen.arr(film['trajs'][i]['pos'], 3), 'pos', 1e-12)
        return
    xuap = fmt == 'xuap'
    ptvis.match_trajects(got, [ptvis.expected_arrays(e, 1., xuap)
        for e in ptvis.expected(film, min_len=1)], True, 1.)


@st.composite
def analyses(draw):
    return dict(place=draw(places()), dual=draw(duals.duals(max_tr=3,
        companions=False)), names=draw(st.lists(component, min_size=4,
        max_size=4, unique_by=str.lower)), db=draw(seqs.databases(fmts=(
        'hdf', 'npz'))))


@facet('C48', 'configured', analyses(), quick=120, rule='dual scenes, '
    'sequences, analyses and interpolants, with their configurations, ' +
    RULE)
def configured(case, ctx):
    from configparser import ConfigParser
    from flowtracks.scene import read_dual_scene
    from flowtracks.sequence import Sequence, read_sequence
    from flowtracks.particle import Particle
    from flowtracks.analysis import analysis
    from flowtracks.an_scene import AnalysedScene
    from flowtracks.interpolation import interpolant, read_interpolant
    place, d2, db = case['place'], case['dual'], case['db']
    note(place, ctx)
    with kept_env():
        d = enter(place, ctx)
        paths = [os.path.join(d, n + e) for n, e in zip(case['names'],
            ['.h5', '.h5', '.cfg', '.out'])]
        for path, which in zip(paths, (duals.TRACERS, duals.PARTS)):
            scenes.write_scene(path, d2[which])
        conf = ConfigParser(interpolation=None)
        conf.read_dict({'Particle': {'diameter': '0.0005', 'density':
            '1450'}, 'Scene': {'frame rate': '500',
            'tracers file': paths[0].replace('%', '%%'),
            'particles file': paths[1].replace('%', '%%'),
            'first frame': str(d2['rng'][0]),
            'last frame': str(d2['rng'][1] - 1)}})
        with open(paths[2], 'w') as f:
            conf.write(f)
        with ctx.sut('analysis'):
            scene = read_dual_scene(paths[2])
            analysis(scene, paths[3], paths[2], duals.analysers())
            del scene
            sc = AnalysedScene(paths[3])
            ids, t, code = sc.collect(['trajid', 'time', 'code'])
            del sc
        want = dict(((i, s[0]), v['code']) for s in duals.segments(d2,
            d2['rng']) for i, v in duals.analysed(s).items())
        equal(dict(((int(i), int(f)), int(c)) for i, f, c in zip(ids, t,
            code)), want, 'analysis')

        names = dict((w, seqs.write_db(db[w], os.path.join(d, 'db-' + n)))
            for w, n in zip(('parts', 'tracers'), case['names']))
        with ctx.sut('sequence and interpolant'):
            seq = Sequence((db['lo'], db['hi']), 500., Particle(1., 2.),
                names['parts'], names['tracers'], traj_min_len=0)
            corr = os.path.join(d, 'corr' + case['names'][3] + '.npz')
            np.savez(corr, corrs=np.r_[1., 0.5], bins=np.r_[0., 1.])
            interp = interpolant('corrfun', 2, None, corr)
            cfg = ConfigParser()
            seq.save_config(cfg)
            interp.save_config(cfg)
            with open(paths[2], 'w') as f:
                cfg.write(f)
            again = read_sequence(paths[2])
            interp = read_interpolant(paths[2])
            P, T = np.zeros((1, 3)), np.r_[[[0.5, 0, 0], [2., 0, 0]]]
            interp.set_scene(T, P, T)
            got = interp.interpolate()
            segs = list(again)
        same(got, [[1., 0., 0.]], 'interpolated')
        equal((again.part_fname(), again.range()), (names['parts'],
            (db['lo'], db['hi'])), 'sequence of configuration')
        model = seqs.selected(db['parts'], db['lo'], db['hi'], 0)
        for fr, (frame, nxt) in zip(range(db['lo'], db['hi']), segs):
            a, b = seqs.active(model, fr)
            scenes.cmp_snapshot(frame.particles, fr, a, gen.all_kinds(
                db['parts']['tset']))
